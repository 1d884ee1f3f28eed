------------------------------ MODULE TagTrace ------------------------------
(* op "reduce": the rules of a tree-adjoining grammar derive the trees that *)
(* its elementary trees compose; op "induce": elementary trees are split;   *)
(* op "double": both, for the recurring fragments of a treebank.            *)
EXTENDS Tag, TraceBase
Elementary(x) == [t |-> x.t, s |-> x.s, w |-> x.w]
Bare(x) == [t |-> x.t, s |-> x.s]
Seqs(xs) == TLCEval([n \in DOMAIN xs |-> Elementary(xs[n])])
CodeRules(o) == TLCEval({Rule(o.rules[n].l, o.rules[n].r, o.rules[n].w, o.rules[n].lab, o.rules[n].word, o.rules[n].adj) : n \in DOMAIN o.rules})
Supp(T, s) == IF s \in DOMAIN T THEN T[s] ELSE NoTrees
SameLanguage(I, A, q, o) ==
  LET X == {Rule(L(q.extra[n].lab), <<>>, q.extra[n].w, q.extra[n].lab, q.extra[n].word, FALSE) @@ [from |-> <<"X", n>>] : n \in DOMAIN q.extra}
      T == TLCEval(Language(Reduction(I, A, q.div) \cup X, q.n))
      U == TLCEval(Language(CodeRules(o), q.n))
      labs == {I[n].t.l : n \in DOMAIN I}
  IN IF o.junk # <<>> THEN {"rules or weights of another form"} ELSE
     Clause("derived trees", \A n \in 1..q.n : \A x \in labs : DOMAIN Supp(U[n], x) = DOMAIN Supp(T[n], L(x)))
     \cup Clause("weights of derived trees", q.packed \/ \A n \in 1..q.n : \A x \in labs :
            LET a == Supp(U[n], x) b == Supp(T[n], L(x)) IN \A y \in (DOMAIN a) \cap DOMAIN b : a[y] = b[y])
     \cup Clause("each rule once", Cardinality({<<r.l, r.r, r.word>> : r \in CodeRules(o)}) = Len(o.rules))
-----------------------------------------------------------------------------
ProperE(xs) == \A n \in DOMAIN xs : Proper(xs[n].t) /\ Leaves(xs[n].t) = [m \in 1..Len(xs[n].s) |-> m - 1]
OpenFoot(x) == [x EXCEPT !.s = [m \in DOMAIN x.s |-> IF x.s[m] = "*" THEN "None" ELSE x.s[m]]]
NumNodes(x) == Len(Nodes(x.t))
\* expected trees, with the possible weights: the weights of the elementary
\* trees that they come from
Induced(E) ==
  LET sp == TLCEval([n \in DOMAIN E |-> Splits(E[n])])
      both == TLCEval(UNION {{[a |-> AuxOf(E[n], sp[n][m]), i |-> InitOf(E[n], sp[n][m]), w |-> E[n].w] : m \in DOMAIN sp[n]} : n \in DOMAIN E})
      keep == {n \in DOMAIN E : sp[n] = <<>> /\ NumNodes(E[n]) > 3}
      aux == TLCEval({[x |-> b.a, w |-> b.w] : b \in both})
      opened == {OpenFoot(a.x) : a \in aux}
  IN [aux |-> aux,
      init |-> TLCEval({x \in {[x |-> b.i, w |-> b.w] : b \in both} \cup {[x |-> Bare(E[n]), w |-> E[n].w] : n \in keep} : x.x \notin opened})]
\* reported trees: exactly those expected, each once, with a possible weight
Match(xs, want) == /\ {Bare(xs[n]) : n \in DOMAIN xs} = {x.x : x \in want}
                   /\ Cardinality({Bare(xs[n]) : n \in DOMAIN xs}) = Len(xs)
                   /\ \A n \in DOMAIN xs : [x |-> Bare(xs[n]), w |-> xs[n].w] \in want
BadInduce(q, o) ==
  IF ~ProperE(o.init) \/ ~ProperE(o.aux) THEN {"elementary trees are proper"} ELSE
  LET w == Induced(Seqs(q.elems)) IN
  Clause("initial trees", Match(o.init, w.init)) \cup Clause("auxiliary trees", Match(o.aux, w.aux))
  \cup Clause("auxiliary trees have one foot", \A n \in DOMAIN o.aux : IsAux(o.aux[n]))
-----------------------------------------------------------------------------
HasWord(q, x) == \E m \in DOMAIN x.s : x.s[m] \in ToSet(q.wordlike)
Lexed(q, S) == {x \in S : HasWord(q, x.x)}
\* productions of the treebank as fragments of one level
Level(n, sent) == IF IsPre(n) THEN [t |-> Node(n.l, <<Term(0)>>), s |-> <<sent[n.k[1].i + 1]>>]
  ELSE [t |-> Node(n.l, [m \in DOMAIN n.k |-> Node(n.k[m].l, <<Term(m - 1)>>)]), s |-> [m \in DOMAIN n.k |-> "None"]]
Prods(q) == TLCEval(Cat([n \in DOMAIN q.bank |-> LET ns == Nodes(q.bank[n].t) IN [m \in DOMAIN ns |-> Level(ns[m], q.bank[n].s)]]))
BadDouble(q, o) ==
  IF ~ProperE(o.init) \/ ~ProperE(o.aux) \/ ~ProperE(o.frags) THEN {"elementary trees are proper"} ELSE
  LET E == SelectSeq(Seqs(o.frags), LAMBDA e : NumNodes(e) <= q.maxnodes /\ (NumNodes(e) <= 3 \/ HasWord(q, e)))
      w == Induced(E)
      pr == Prods(q)
      cfg == {[x |-> p, w |-> Cardinality({m \in DOMAIN pr : pr[m] = p})] : p \in ToSet(pr)}
      level == {p.x : p \in cfg}
  IN Clause("auxiliary trees", Match(o.aux, Lexed(q, w.aux)))
     \cup Clause("initial trees", Match(o.init, {x \in Lexed(q, w.init) : x.x \notin level} \cup cfg))
     \cup SameLanguage(Seqs(o.init), Seqs(o.aux), q, o)
Bad(r) == LET q == r.inp o == r.out IN
  IF r.err # "" THEN {"unexpected error"}
  ELSE CASE q.op = "reduce" -> SameLanguage(Seqs(q.init), Seqs(q.aux), q, o)
         [] q.op = "induce" -> BadInduce(q, o)
         [] q.op = "double" -> BadDouble(q, o)
TCheck == Report(Bad(Rec))
=============================================================================
