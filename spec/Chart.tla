------------------------------- MODULE Chart -------------------------------
(* Parsing as deduction.  An item is <<label, spans>> where spans is the    *)
(* sequence of maximal intervals <<start, end>> of the positions covered    *)
(* (end exclusive).  A context-free grammar is the special case where every *)
(* item has a single span.  A grammar g has                                 *)
(*   g.start  start label                                                   *)
(*   g.bin    sequence of [no, l, r1, r2, yf, w]   binary rules             *)
(*   g.un     sequence of [no, l, r1, w]           unary rules              *)
(*   g.lex    sequence of [l, word, w]             lexical rules            *)
(* Weights are natural numbers: w stands for the probability 2^-w.          *)
(* env: [g, sent, noexp, use, map, split, white] where sent is a sequence of       *)
(* [w, lw, tag] (word, lower case word, tag or ""), noexp is the set of     *)
(* items to which no rules are applied, and if use holds an item <<l, s>>   *)
(* is only allowed if map[l] = "" or <<map[l], s>> \in white.  If split is  *)
(* 1 or 2, each of the spans of an item with several is looked up, with a   *)
(* "*" added to the label, followed by the number of the span if split = 2. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NoItem == <<"", <<>>>>
SizeOf(x) == FoldLeft(LAMBDA a, s : a + s[2] - s[1], 0, x[2])
\* combine the spans of two children; yf: which child each part comes from
RECURSIVE CombR(_, _, _, _)
CombR(a, b, out, yf) ==
  IF a = <<>> /\ b = <<>> THEN [ok |-> TRUE, spans |-> out, yf |-> yf]
  ELSE LET who == IF a = <<>> THEN 1 ELSE IF b = <<>> THEN 0 ELSE IF a[1][1] < b[1][1] THEN 0 ELSE 1
           s == IF who = 0 THEN a[1] ELSE b[1]
           n == Len(out)
           ra == IF who = 0 THEN Tail(a) ELSE a
           rb == IF who = 1 THEN Tail(b) ELSE b
  IN IF n > 0 /\ s[1] < out[n][2] THEN [ok |-> FALSE, spans |-> <<>>, yf |-> <<>>]
     ELSE IF n > 0 /\ s[1] = out[n][2]
       THEN CombR(ra, rb, [out EXCEPT ![n] = <<out[n][1], s[2]>>], [yf EXCEPT ![n] = Append(yf[n], who)])
       ELSE CombR(ra, rb, Append(out, s), Append(yf, <<who>>))
Comb(a, b) == TLCEval(CombR(a, b, <<>>, <<>>))
Fits(r, x, y) == LET c == Comb(x[2], y[2]) IN c.ok /\ c.yf = r.yf

Allowed(env, x) == ~env.use \/ env.map[x[1]] = ""
   \/ IF env.split = 0 \/ Len(x[2]) = 1 THEN <<env.map[x[1]], x[2]>> \in env.white
      ELSE \A n \in DOMAIN x[2] : <<env.map[x[1]] \o "*" \o (IF env.split = 2 THEN ToString(n - 1) ELSE ""), <<x[2][n]>>>> \in env.white
Goal(env) == <<env.g.start, <<<<0, Len(env.sent)>>>>>>

-----------------------------------------------------------------------------
(* Lexical items                                                            *)
\* a label matches a tag when it is the tag, possibly with a state split
Match(tag, l) == LET n == Len(tag) IN
   /\ Len(l) >= n /\ SubSeq(l, 1, n) = tag
   /\ Len(l) = n \/ SubSeq(l, n + 1, n + 1) \in {"-", "@", "^", "/"}
LexRules(env, p) == LET t == env.sent[p + 1] L == ToSet(env.g.lex)
      exact == {x \in L : x.word = t.w}
  IN IF exact # {} THEN exact ELSE {x \in L : x.word = t.lw}
\* A token may have a field sig, a signature whose tags are added (when not
\* known for the word) at the cost env.sigw, while env.resw is added to others.
HasSig(t) == "sig" \in DOMAIN t /\ t.sig # ""
\* pairs <<item, weight>>
LexItems(env, p) == LET t == env.sent[p + 1]
      Here(l) == <<l, <<<<p, p + 1>>>>>>
      own == {<<Here(x.l), x.w + (IF HasSig(t) THEN env.resw ELSE 0)>> : x \in {x \in LexRules(env, p) :
                 (t.tag = "" \/ Match(t.tag, x.l)) /\ Allowed(env, Here(x.l))}}
      more == IF ~HasSig(t) THEN {} ELSE {<<Here(x.l), x.w + env.sigw>> : x \in {x \in ToSet(env.g.lex) :
                 x.word = t.sig /\ Allowed(env, Here(x.l)) /\ \A y \in own : y[1] # Here(x.l)}}
      plain == own \cup more
  IN IF plain # {} \/ t.tag = "" THEN plain
     ELSE {<<Here(l), 0>> : l \in {l \in {x.l : x \in ToSet(env.g.lex)} : Match(t.tag, l)}}
\* every token has a part of speech
Covered(env) == \A p \in 0..(Len(env.sent) - 1) : LexItems(env, p) # {}

-----------------------------------------------------------------------------
(* Rule applications.  An edge is <<head, no, left, right>>; lexical edges  *)
(* have number -1.  best: function from items to the weight of their best   *)
(* derivation.                                                              *)
MinW(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
LexEdges(env) == UNION {{<<x[1], -1, NoItem, NoItem>> : x \in LexItems(env, p)} : p \in 0..(Len(env.sent) - 1)}
\* binary edges to items of a given size; idx: items by label and size
BinEdges(env, idx, size) ==
  LET At(l, n) == IF <<l, n>> \in DOMAIN idx THEN idx[<<l, n>>] \ env.noexp ELSE {} IN
  UNION {LET r == env.g.bin[n] IN
         UNION {UNION {{<<<<r.l, Comb(a[2], b[2]).spans>>, r.no, a, b>> :
               b \in {b \in At(r.r2, size - sa) : Fits(r, a, b)}} : a \in At(r.r1, sa)} : sa \in 1..(size - 1)}
         : n \in DOMAIN env.g.bin}
UnEdges(env, items) == UNION {LET r == env.g.un[n] IN
     {<<<<r.l, x[2]>>, r.no, x, NoItem>> : x \in {x \in items : x[1] = r.r1 /\ x \notin env.noexp}}
     : n \in DOMAIN env.g.un}
OkEdges(env, E) == {e \in E : Allowed(env, e[1])}
WeightOf(env) == TLCEval([no \in {env.g.bin[n].no : n \in DOMAIN env.g.bin} \cup {env.g.un[n].no : n \in DOMAIN env.g.un} |->
    IF \E n \in DOMAIN env.g.bin : env.g.bin[n].no = no
    THEN (CHOOSE x \in ToSet(env.g.bin) : x.no = no).w ELSE (CHOOSE x \in ToSet(env.g.un) : x.no = no).w])
EdgeW(W, best, e) == W[e[2]] + best[e[3]] + (IF e[4] = NoItem THEN 0 ELSE best[e[4]])
\* extend function f with the edges E, keeping the lowest weight
Lower(W, best, f, E) == TLCEval([x \in DOMAIN f \cup {e[1] : e \in E} |->
    LET ws == {EdgeW(W, best, e) : e \in {e \in E : e[1] = x}} IN
    IF x \notin DOMAIN f THEN MinW(ws) ELSE IF ws = {} \/ f[x] <= MinW(ws) THEN f[x] ELSE MinW(ws)])
RECURSIVE UnClose(_, _, _)
UnClose(env, W, f) == LET E == OkEdges(env, UnEdges(env, DOMAIN f)) h == Lower(W, f, f, E) IN
   IF h = f THEN [best |-> f, edges |-> E] ELSE UnClose(env, W, h)
\* all items of one size, given those of smaller sizes
SizeStep(env, W, C, size) ==
   LET lex == IF size = 1 THEN UNION {LexItems(env, p) : p \in 0..(Len(env.sent) - 1)} ELSE {}
       base == TLCEval([x \in {x[1] : x \in lex} |-> MinW({y[2] : y \in {y \in lex : y[1] = x}})])
       be == OkEdges(env, BinEdges(env, C.idx, size))
       f == Lower(W, C.best, base, be)
       u == UnClose(env, W, f)
       idx == TLCEval([k \in {<<x[1], size>> : x \in DOMAIN u.best} |-> {x \in DOMAIN u.best : x[1] = k[1]}])
   IN TLCEval([best |-> C.best @@ u.best, edges |-> C.edges \cup be \cup u.edges, idx |-> C.idx @@ idx])
Empty == [x \in {} |-> 0]
\* the chart: all derivable items with their weights, and all rule applications
Closure(env) == IF ~Covered(env) THEN [best |-> Empty, edges |-> {}, idx |-> Empty]
   ELSE LET W == WeightOf(env) IN
     TLCEval(FoldLeft(LAMBDA C, size : SizeStep(env, W, C, size), [best |-> Empty, edges |-> LexEdges(env), idx |-> Empty],
                 [n \in 1..Len(env.sent) |-> n]))

-----------------------------------------------------------------------------
(* Derivations.  For grammars without cycles of unary rules, the number of  *)
(* derivations of each item by weight: a function from weights to counts.   *)
RECURSIVE TopoSeq(_, _)
\* labels such that right-hand sides of unary rules come first
TopoSeq(g, todo) == IF todo = {} THEN <<>> ELSE
   LET free == {l \in todo : ~\E n \in DOMAIN g.un : g.un[n].l = l /\ g.un[n].r1 \in todo /\ g.un[n].r1 # l} IN
   IF free = {} THEN SetToSeq(todo) ELSE SetToSeq(free) \o TopoSeq(g, todo \ free)
RECURSIVE AcyclicR(_, _)
AcyclicR(g, todo) == todo = {} \/ LET free == {l \in todo : ~\E n \in DOMAIN g.un : g.un[n].l = l /\ g.un[n].r1 \in todo} IN
   free # {} /\ AcyclicR(g, todo \ free)
Acyclic(g) == AcyclicR(g, {g.un[n].l : n \in DOMAIN g.un} \cup {g.un[n].r1 : n \in DOMAIN g.un})
Shift(f, w) == TLCEval([x \in {a + w : a \in DOMAIN f} |-> f[x - w]])
Plus(f, h) == TLCEval([x \in DOMAIN f \cup DOMAIN h |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in DOMAIN h THEN h[x] ELSE 0)])
Times(f, h) == FoldSet(LAMBDA a, acc : Plus(acc, TLCEval([x \in {a + b : b \in DOMAIN h} |-> f[a] * h[x - a]])), Empty, DOMAIN f)
LexW(env, x) == LET p == x[2][1][1] IN MinW({y[2] : y \in {y \in LexItems(env, p) : y[1] = x}})
EdgePoly(env, W, P, e) == IF e[2] = -1 THEN [x \in {LexW(env, e[1])} |-> 1]
   ELSE IF e[4] = NoItem THEN Shift(P[e[3]], W[e[2]])
   ELSE Shift(Times(P[e[3]], P[e[4]]), W[e[2]])
LabelsOf(C) == {x[1] : x \in DOMAIN C.best}
\* items in an order such that those of each edge come before its head
Bottomup(env, C) == LET order == TopoSeq(env.g, LabelsOf(C)) IN
   TLCEval(FlattenSeq([n \in 1..Len(env.sent) |-> FlattenSeq([m \in DOMAIN order |->
      SetToSeq({x \in DOMAIN C.best : SizeOf(x) = n /\ x[1] = order[m]})])]))
InsidePoly(env, C) == LET W == WeightOf(env) IN
   TLCEval(FoldLeft(LAMBDA P, x : P @@ (x :> FoldSet(LAMBDA e, acc : Plus(acc, EdgePoly(env, W, P, e)), Empty,
                {e \in C.edges : e[1] = x})), [x \in {} |-> Empty], Bottomup(env, C)))
\* number of derivations
CountAll(f) == FoldSet(LAMBDA a, acc : acc + f[a], 0, DOMAIN f)
\* the weights of the k best derivations
KBest(f, k) == LET ws == SetToSortSeq(DOMAIN f, LAMBDA a, b : a < b)
      all == FlattenSeq([n \in DOMAIN ws |-> [m \in 1..(IF f[ws[n]] > k THEN k ELSE f[ws[n]]) |-> ws[n]]])
   IN SubSeq(all, 1, IF Len(all) < k THEN Len(all) ELSE k)

-----------------------------------------------------------------------------
(* Inside and outside: the derivations of an item by weight, and the ways   *)
(* to complete a derivation of the goal given a derivation of the item.     *)
Reached(O, y) == IF y \in DOMAIN O THEN O[y] ELSE Empty
OutEdge(W, O, P, e, left) ==
   LET other == IF left THEN e[4] ELSE e[3]
       o == Shift(Reached(O, e[1]), W[e[2]])
   IN IF other = NoItem THEN o ELSE Times(o, P[other])
OutsidePoly(env, C, P) == LET W == WeightOf(env) goal == Goal(env)
      E == TLCEval({e \in C.edges : e[2] # -1}) IN
   TLCEval(FoldLeft(LAMBDA O, x : O @@ (x :>
       LET init == IF x = goal THEN 0 :> 1 ELSE Empty
           l == FoldSet(LAMBDA e, acc : Plus(acc, OutEdge(W, O, P, e, TRUE)), init, {e \in E : e[3] = x})
       IN TLCEval(FoldSet(LAMBDA e, acc : Plus(acc, OutEdge(W, O, P, e, FALSE)), l, {e \in E : e[4] = x}))),
     [x \in {} |-> Empty], Reverse(Bottomup(env, C))))
\* the binary digits of a sum of counts times powers of two: exponents of 1/2
RECURSIVE NormR(_, _, _, _)
NormR(f, w, carry, out) ==
   LET n == carry + (IF w \in DOMAIN f THEN f[w] ELSE 0)
       o == IF n % 2 = 1 THEN out \cup {w} ELSE out
   IN IF n = 0 /\ \A v \in DOMAIN f : v > w THEN o
      ELSE TLCEval(NormR(f, w - 1, n \div 2, o))
MaxW(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
Norm(f) == IF DOMAIN f = {} THEN {} ELSE NormR(f, MaxW(DOMAIN f), 0, {})
\* comparison of numbers given by their digits
Greater(A, B) == A # B /\ MinW((A \ B) \cup (B \ A)) \in A
\* whether the sum is exact in floating point
Exact(f) == DOMAIN f = {} \/ MaxW(DOMAIN f) - MinW(Norm(f)) < 52

-----------------------------------------------------------------------------
(* A derivation [l, k, i]: inner nodes have one or two children; leaves     *)
(* have an index i >= 0.  Its item and weight, if valid.                    *)
NoDeriv == [ok |-> FALSE, x |-> NoItem, w |-> 0]
RECURSIVE DerivOf(_, _, _)
DerivOf(env, W, t) ==
  IF Len(t.k) = 1 /\ t.k[1].i >= 0 THEN
     LET p == t.k[1].i x == <<t.l, <<<<p, p + 1>>>>>>
         ys == IF p < Len(env.sent) THEN {y \in LexItems(env, p) : y[1] = x} ELSE {} IN
     IF ys = {} THEN NoDeriv ELSE TLCEval([ok |-> TRUE, x |-> x, w |-> MinW({y[2] : y \in ys})])
  ELSE IF \E n \in DOMAIN t.k : t.k[n].i >= 0 THEN NoDeriv
  ELSE LET kids == TLCEval([n \in DOMAIN t.k |-> DerivOf(env, W, t.k[n])]) IN
   IF \E n \in DOMAIN kids : ~kids[n].ok \/ kids[n].x \in env.noexp THEN NoDeriv
   ELSE IF Len(kids) = 1 THEN
     LET rs == {r \in ToSet(env.g.un) : r.l = t.l /\ r.r1 = kids[1].x[1]} x == <<t.l, kids[1].x[2]>> IN
     IF rs = {} \/ ~Allowed(env, x) THEN NoDeriv ELSE TLCEval([ok |-> TRUE, x |-> x, w |-> kids[1].w + MinW({r.w : r \in rs})])
   ELSE IF Len(kids) = 2 THEN
     LET c == Comb(kids[1].x[2], kids[2].x[2])
         rs == IF c.ok THEN {r \in ToSet(env.g.bin) : r.l = t.l /\ r.r1 = kids[1].x[1] /\ r.r2 = kids[2].x[1] /\ r.yf = c.yf} ELSE {}
         x == <<t.l, c.spans>> IN
     IF rs = {} \/ ~Allowed(env, x) THEN NoDeriv
     ELSE TLCEval([ok |-> TRUE, x |-> x, w |-> kids[1].w + kids[2].w + MinW({r.w : r \in rs})])
   ELSE NoDeriv
=============================================================================
