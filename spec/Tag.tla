--------------------------------- MODULE Tag --------------------------------
(* Tree-adjoining grammars with the off-spine constraint (Swanson et al.    *)
(* 2013).  Elementary trees: [t |-> tree, s |-> words, w |-> weight]; the   *)
(* word of an open site is "None", that of the foot of an auxiliary tree is *)
(* "*".  Derived trees: [l, w, k, a, ok], w the word of a preterminal, "None" *)
(* for an open site, "" for other nodes; a: the node of the elementary tree *)
(* that it comes from; ok: adjunction is allowed here.                      *)
EXTENDS Trees
IsOpen(e, n) == IsPre(n) /\ e.s[n.k[1].i + 1] = "None"
IsFoot(e, n) == IsPre(n) /\ e.s[n.k[1].i + 1] = "*"
IsWord(e, n) == IsPre(n) /\ ~IsOpen(e, n) /\ ~IsFoot(e, n)
\* nodes with their paths
RECURSIVE WithPaths(_, _)
WithPaths(n, p) == IF IsTerm(n) THEN <<>>
  ELSE <<[p |-> p, n |-> n]>> \o Cat([m \in DOMAIN n.k |-> WithPaths(n.k[m], Append(p, m))])
FootPath(e) == LET ns == WithPaths(e.t, <<>>) IN ns[CHOOSE m \in DOMAIN ns : IsFoot(e, ns[m].n)].p
NumFeet(e) == Cardinality({m \in DOMAIN e.s : e.s[m] = "*"})
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
OnSpine(e, p) == NumFeet(e) > 0 /\ Prefix(p, FootPath(e))
\* an auxiliary tree has one foot, with the label of its root
IsAux(e) == NumFeet(e) = 1 /\ FootPath(e) # <<>>
  /\ \A x \in ToSet(WithPaths(e.t, <<>>)) : IsFoot(e, x.n) => x.n.l = e.t.l
IsInit(e) == NumFeet(e) = 0
-----------------------------------------------------------------------------
(* 1. Composition by substitution and adjunction on trees.                  *)
DNode(lab, word, kids, addr, ok) == TLCEval([l |-> lab, w |-> word, k |-> kids, a |-> addr, ok |-> ok])
\* instance of an elementary tree; the foot is replaced by `host'
RECURSIVE Inst(_, _, _, _, _)
Inst(e, id, n, p, host) ==
  IF IsFoot(e, n) THEN host
  ELSE IF IsPre(n) THEN DNode(n.l, e.s[n.k[1].i + 1], <<>>, Append(id, p), FALSE)
  ELSE DNode(n.l, "", TLCEval([m \in DOMAIN n.k |-> Inst(e, id, n.k[m], Append(p, m), host)]),
             Append(id, p), ~OnSpine(e, p))
NoHost == [l |-> "", w |-> "", k |-> <<>>, a |-> <<>>, ok |-> FALSE]
InitInst(I, n) == Inst(I[n], <<"I", n>>, I[n].t, <<>>, NoHost)
\* an open site remains adjoinable as root of what is substituted
RECURSIVE HasOpen(_)
HasOpen(d) == d.w = "None" \/ \E m \in DOMAIN d.k : HasOpen(d.k[m])
RECURSIVE SubstFirst(_, _, _)
\* all results of substituting the leftmost open site: set of [d, w, c]
SubstFirst(d, I, A) ==
  IF d.w = "None" THEN {[d |-> InitInst(I, n), w |-> I[n].w] : n \in {m \in DOMAIN I : I[m].t.l = d.l}}
  ELSE LET open == {m \in DOMAIN d.k : HasOpen(d.k[m])}
       IN IF open = {} THEN {} ELSE LET m == Min(open) IN
          {[d |-> [d EXCEPT !.k[m] = x.d], w |-> x.w] : x \in SubstFirst(d.k[m], I, A)}
RECURSIVE Adjoins(_, _)
Adjoins(d, A) ==
  (IF d.ok THEN {[d |-> Inst(A[n], <<"A", n>>, A[n].t, <<>>, d), w |-> A[n].w] :
                 n \in {m \in DOMAIN A : A[m].t.l = d.l}} ELSE {})
  \cup UNION {{[d |-> [d EXCEPT !.k[m] = x.d], w |-> x.w] : x \in Adjoins(d.k[m], A)} : m \in DOMAIN d.k}
SumD(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
RECURSIVE Size(_)
Size(d) == 1 + SumD(TLCEval([m \in DOMAIN d.k |-> Size(d.k[m])]))
\* the derived tree without the annotation; words are leaves
RECURSIVE Plain(_)
Plain(d) == IF d.w # "" THEN <<d.l, d.w>>
            ELSE TLCEval(<<d.l>> \o [m \in DOMAIN d.k |-> Plain(d.k[m])])
-----------------------------------------------------------------------------
(* 2. Context-free rules: [l |-> symbol, r |-> symbols, w |-> weight,       *)
(* lab |-> label, word |-> word or "", adj |-> unary rule that starts an     *)
(* adjunction, which leaves no node in the derived tree].                   *)
Rule(l, r, w, lab, word, adj) == TLCEval([l |-> l, r |-> r, w |-> w, lab |-> lab, word |-> word, adj |-> adj])
\* bags of trees: functions from trees to weights
NoTrees == <<>>
At(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
PlusB(b, c) == TLCEval([x \in (DOMAIN b) \cup (DOMAIN c) |-> At(b, x) + At(c, x)])
SumB(S, f(_)) == FoldSet(LAMBDA x, acc : PlusB(acc, f(x)), NoTrees, S)
\* f is injective on pairs here: a label and one or two subtrees
One(lab, b, w) == TLCEval(LET g == [x \in {<<lab, y>> : y \in DOMAIN b} |-> w * b[x[2]]] IN g)
Two(lab, b, c, w) == TLCEval([x \in {<<lab, y, z>> : y \in DOMAIN b, z \in DOMAIN c} |-> w * b[x[2]] * c[x[3]]])
Times(b, w) == TLCEval([x \in DOMAIN b |-> w * b[x]])
\* T[n][s]: trees derived from s with n rules, with the sum of the weights of
\* their derivations; from T[1..n-1]
Apply(T, r, n) ==
  IF r.word # "" THEN (IF n = 1 THEN <<r.lab, r.word>> :> r.w ELSE NoTrees)
  ELSE IF n = 1 THEN NoTrees
  ELSE LET get(m, s) == IF s \in DOMAIN T[m] THEN T[m][s] ELSE NoTrees
       IN IF Len(r.r) = 1 THEN
            (IF r.adj THEN Times(get(n - 1, r.r[1]), r.w) ELSE One(r.lab, get(n - 1, r.r[1]), r.w))
          ELSE SumB(1..(n - 2), LAMBDA m : Two(r.lab, get(m, r.r[1]), get(n - 1 - m, r.r[2]), r.w))
RECURSIVE Table(_, _, _)
\* R: set of rules with their number, to keep repeated rules
Table(R, T, N) ==
  IF Len(T) = N THEN T
  ELSE LET n == Len(T) + 1
           syms == {r.l : r \in R}
       IN Table(R, TLCEval(Append(T, TLCEval([s \in syms |-> TLCEval(SumB({r \in R : r.l = s}, LAMBDA r : Apply(T, r, n)))]))), N)
Language(R, N) == Table(R, <<>>, N)
-----------------------------------------------------------------------------
(* 3. The reduction: symbols are tuples.                                    *)
L(lab) == <<"L", lab>>
Addr(id, p) == id \o <<p>>
Spine(id, p, m) == id \o <<p, m>>
SymOf(e, id, n, p) == IF IsOpen(e, n) THEN L(n.l) ELSE Addr(id, p)
InitRules(e, id, u) == {
  LET n == x.n
      lhs == IF x.p = <<>> THEN L(n.l) ELSE Addr(id, x.p)
      w == IF x.p = <<>> THEN e.w ELSE u
  IN IF IsPre(n) THEN Rule(lhs, <<>>, w, n.l, e.s[n.k[1].i + 1], FALSE)
     ELSE Rule(lhs, [m \in DOMAIN n.k |-> SymOf(e, id, n.k[m], Append(x.p, m))], w, n.l, "", FALSE)
  : x \in {y \in ToSet(WithPaths(e.t, <<>>)) : ~IsOpen(e, y.n)}}
AuxRules(e, id, sites, u) ==
  LET ns == ToSet(WithPaths(e.t, <<>>))
      off == {y \in ns : ~IsOpen(e, y.n) /\ ~OnSpine(e, y.p)}
      on == {y \in ns : OnSpine(e, y.p) /\ ~IsFoot(e, y.n)}
      child(n, p, m, M) == LET c == n.k[m] q == Append(p, m) IN
        IF IsFoot(e, c) THEN M ELSE IF OnSpine(e, q) THEN Spine(id, q, M) ELSE SymOf(e, id, c, q)
  IN {IF IsPre(x.n) THEN Rule(Addr(id, x.p), <<>>, u, x.n.l, e.s[x.n.k[1].i + 1], FALSE)
      ELSE Rule(Addr(id, x.p), [m \in DOMAIN x.n.k |-> SymOf(e, id, x.n.k[m], Append(x.p, m))], u, x.n.l, "", FALSE)
      : x \in off}
     \cup {Rule(Spine(id, x[1].p, x[2]), [m \in DOMAIN x[1].n.k |-> child(x[1].n, x[1].p, m, x[2])], u, x[1].n.l, "", FALSE)
      : x \in on \X sites}
     \cup {Rule(M, <<Spine(id, <<>>, M)>>, e.w, e.t.l, "", TRUE) : M \in sites}
AdjSites(I, A, lab) == {L(lab)}
  \cup UNION {{Addr(<<"I", n>>, x.p) : x \in {y \in ToSet(WithPaths(I[n].t, <<>>)) : y.p # <<>> /\ y.n.l = lab /\ ~IsPre(y.n)}} : n \in DOMAIN I}
  \cup UNION {{Addr(<<"A", n>>, x.p) : x \in {y \in ToSet(WithPaths(A[n].t, <<>>)) : y.n.l = lab /\ ~IsPre(y.n) /\ ~OnSpine(A[n], y.p)}} : n \in DOMAIN A}
\* rules carry the number of their tree, as initial trees may share a rule;
\* u: the weight of rules that do not start an elementary tree
Reduction(I, A, u) ==
  {r @@ [from |-> <<"I", n>>] : <<r, n>> \in UNION {InitRules(I[m], <<"I", m>>, u) \X {m} : m \in DOMAIN I}}
  \cup {r @@ [from |-> <<"A", n>>] : <<r, n>> \in UNION {AuxRules(A[m], <<"A", m>>, AdjSites(I, A, A[m].t.l), u) \X {m} : m \in DOMAIN A}}
-----------------------------------------------------------------------------
(* 4. Splitting an elementary tree into an initial and an auxiliary tree.   *)
\* each constituent that is not the root, with the closest constituent above
\* it, other than the root, that has the same label
RECURSIVE NodeAt(_, _)
NodeAt(n, p) == IF p = <<>> THEN n ELSE NodeAt(n.k[p[1]], Tail(p))
Above(e, p) == LET c == {m \in 1..(Len(p) - 1) : NodeAt(e.t, SubSeq(p, 1, m)).l = NodeAt(e.t, p).l}
               IN IF c = {} THEN <<>> ELSE SubSeq(p, 1, Max(c))
Splits(e) == IF \A m \in DOMAIN e.s : e.s[m] = "None" THEN <<>> ELSE
  LET ns == SelectSeq(WithPaths(e.t, <<>>), LAMBDA x : x.p # <<>> /\ ~IsPre(x.n) /\ Above(e, x.p) # <<>>)
  IN [m \in DOMAIN ns |-> [top |-> Above(e, ns[m].p), foot |-> ns[m].p]]
\* renumber the positions of a continuous tree
RECURSIVE Shift(_, _)
Shift(n, by) == IF IsTerm(n) THEN Term(n.i - by)
                ELSE Node(n.l, [m \in DOMAIN n.k |-> Shift(n.k[m], by)])
RECURSIVE Put(_, _, _)
Put(n, p, x) == IF p = <<>> THEN x ELSE [n EXCEPT !.k[p[1]] = Put(n.k[p[1]], Tail(p), x)]
\* positions after those of x move by d
RECURSIVE MoveAfter(_, _, _)
MoveAfter(n, a, d) == IF IsTerm(n) THEN Term(IF n.i > a THEN n.i + d ELSE n.i)
                ELSE Node(n.l, [m \in DOMAIN n.k |-> MoveAfter(n.k[m], a, d)])
AuxOf(e, sp) ==
  LET top == NodeAt(e.t, sp.top)
      foot == NodeAt(e.t, sp.foot)
      lo == Min(Yield(foot)) hi == Max(Yield(foot))
      rel == SubSeq(sp.foot, Len(sp.top) + 1, Len(sp.foot))
      t == MoveAfter(Put(top, rel, Node(foot.l, <<Term(lo)>>)), hi, lo - hi)
      first == Min(Yield(top))
  IN [t |-> Shift(t, first),
      s |-> SubSeq(e.s, first + 1, lo) \o <<"*">> \o SubSeq(e.s, hi + 2, Max(Yield(top)) + 1)]
InitOf(e, sp) ==
  LET top == NodeAt(e.t, sp.top)
      foot == NodeAt(e.t, sp.foot)
      lo == Min(Yield(top)) hi == Max(Yield(top))
      fl == Min(Yield(foot)) fh == Max(Yield(foot))
      t == Put(MoveAfter(e.t, hi, (fh - fl) - (hi - lo)), sp.top, Shift(foot, fl - lo))
  IN [t |-> t, s |-> SubSeq(e.s, 1, lo) \o SubSeq(e.s, fl + 1, fh + 1) \o SubSeq(e.s, hi + 2, Len(e.s))]
\* adjoining the auxiliary tree at the place it was taken from
RECURSIVE BareD(_)
BareD(d) == [l |-> d.l, w |-> d.w, k |-> TLCEval([m \in DOMAIN d.k |-> BareD(d.k[m])])]
RECURSIVE AtPathD(_, _)
AtPathD(d, p) == IF p = <<>> THEN d ELSE AtPathD(d.k[p[1]], Tail(p))
RECURSIVE PutD(_, _, _)
PutD(d, p, x) == IF p = <<>> THEN x ELSE [d EXCEPT !.k[p[1]] = PutD(d.k[p[1]], Tail(p), x)]
Tree0(e) == Inst(e, <<"E">>, e.t, <<>>, NoHost)
Rejoin(i0, a0, p) == LET d == Tree0(i0) IN PutD(d, p, Inst(a0, <<"E">>, a0.t, <<>>, AtPathD(d, p)))
=============================================================================
