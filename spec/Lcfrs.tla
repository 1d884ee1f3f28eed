------------------------------- MODULE Lcfrs -------------------------------
(* Productions with yield functions.  A production is [r, yf, w]:           *)
(*   phrasal   r = <<lhs, rhs1, ...>>, yf = <<component, ...>>, w = ""      *)
(*   lexical   r = <<tag, "Epsilon">>, yf = <<>>, w = word                  *)
(*   frontier  r = <<label>>, yf = <<>>, w = ""                             *)
(* A component is a sequence of references to children, counted from 0; the *)
(* n-th reference to a child stands for the n-th component of that child.   *)
EXTENDS Trees
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Prod(r, yf, w) == [r |-> r, yf |-> yf, w |-> w]
IsLex(p) == Len(p.r) = 2 /\ p.r[2] = "Epsilon"
IsFrontier(p) == Len(p.r) = 1

\* drop repetitions
RECURSIVE Compress(_)
Compress(s) == IF Len(s) <= 1 THEN s
   ELSE IF s[1] = s[2] THEN Compress(Tail(s)) ELSE <<s[1]>> \o Compress(Tail(s))
\* the child that dominates p
ChildOf(ys, p) == CHOOSE c \in DOMAIN ys : p \in ys[c]
YieldFun(kids) == LET ys == TLCEval([c \in DOMAIN kids |-> Yield(kids[c])])
                      rs == TLCEval(Runs(UNION {ys[c] : c \in DOMAIN ys}))
  IN TLCEval([n \in DOMAIN rs |-> Compress([m \in 1..(rs[n][2] - rs[n][1] + 1) |-> ChildOf(ys, rs[n][1] + m - 1) - 1])])
\* word: function from positions to words, "" for no word; esc: how words are written
ProdOf(x, word(_)) ==
  IF x.k[1].i < 0 THEN Prod(<<x.l>> \o [c \in DOMAIN x.k |-> x.k[c].l], YieldFun(x.k), "")
  ELSE IF Len(x.k) = 1 /\ word(x.k[1].i) # "None" THEN Prod(<<x.l, "Epsilon">>, <<>>, word(x.k[1].i))
  ELSE Prod(<<x.l>>, <<>>, "")
Productions(t, word(_)) == LET ns == Nodes(t) IN TLCEval([n \in DOMAIN ns |-> ProdOf(ns[n], word)])

-----------------------------------------------------------------------------
(* Running a sequence of productions backwards, as a stack machine.  An item*)
(* is a label with its components, sequences of numbers of lexical          *)
(* productions, and the tree with these numbers at its leaves.              *)
Arity(p) == IF IsLex(p) \/ IsFrontier(p) THEN 0 ELSE Len(p.r) - 1
FanP(p) == IF IsLex(p) THEN 1 ELSE Len(p.yf)
\* occurrences of child c before place m of component n
RefNo(yf, n, m) == LET c == yf[n][m]
     before == SumSeq([q \in 1..(n - 1) |-> Cardinality({x \in DOMAIN yf[q] : yf[q][x] = c})])
  IN before + Cardinality({x \in 1..m : yf[n][x] = c})
ApplyYF(yf, parts) == TLCEval([n \in DOMAIN yf |-> Cat([m \in DOMAIN yf[n] |-> parts[yf[n][m] + 1][RefNo(yf, n, m)]])])
\* every component of every child used exactly once, in order
WellFormedYF(yf, fans) == /\ \A n \in DOMAIN yf : yf[n] # <<>> /\ \A m \in DOMAIN yf[n] : yf[n][m] + 1 \in DOMAIN fans
   /\ \A c \in DOMAIN fans : SumSeq([n \in DOMAIN yf |-> Cardinality({m \in DOMAIN yf[n] : yf[n][m] = c - 1})]) = fans[c]
Leafs(n) == [l |-> "", i |-> n, k |-> <<>>]
\* one step: production number n applied to the stack (top first); <<>> is failure
Step(prods, n, stack) == LET p == prods[n] a == Arity(p) IN
  IF IsLex(p) THEN <<[l |-> p.r[1], parts |-> <<<<n>>>>, t |-> Node(p.r[1], <<Leafs(n)>>)]>> \o stack
  ELSE IF a = 0 \/ Len(stack) < a THEN <<>>
  ELSE LET kids == SubSeq(stack, 1, a) IN
   IF \E c \in 1..a : kids[c].l # p.r[c + 1] THEN <<>>
   ELSE IF ~WellFormedYF(p.yf, [c \in 1..a |-> Len(kids[c].parts)]) THEN <<>>
   ELSE <<TLCEval([l |-> p.r[1], parts |-> ApplyYF(p.yf, [c \in 1..a |-> kids[c].parts]),
                   t |-> Node(p.r[1], [c \in 1..a |-> kids[c].t])])>> \o SubSeq(stack, a + 1, Len(stack))
RECURSIVE RunFrom(_, _, _)
RunFrom(prods, n, stack) == IF n = 0 THEN stack ELSE
   LET s == Step(prods, n, stack) IN IF s = <<>> THEN <<>> ELSE RunFrom(prods, n - 1, s)
Derivation(prods) == RunFrom(prods, Len(prods), <<>>)
\* the tree and the words derived by an item with a single component
Pos(order, n) == (CHOOSE m \in DOMAIN order : order[m] = n) - 1
DerivedTree(item) == LET o == item.parts[1] IN Renumber([n \in ToSet(o) |-> Pos(o, n)], item.t)
DerivedWords(prods, item) == LET o == item.parts[1] IN [m \in DOMAIN o |-> prods[o[m]].w]
Regenerates(prods, t, words) == LET s == Derivation(prods) IN
   /\ Len(s) = 1 /\ Len(s[1].parts) = 1
   /\ DerivedTree(s[1]) = t /\ DerivedWords(prods, s[1]) = words
=============================================================================
