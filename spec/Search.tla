------------------------------- MODULE Search -------------------------------
(* Searching: the answer to a query is what a sequential scan of the        *)
(* selected sentences of the selected corpora finds.                        *)
EXTENDS Kernel, Binarization
\* trees and queries are binarized, such that productions are kept apart
DotPar == [factor |-> "right", h |-> 999, v |-> 1, revh |-> 0, markhead |-> FALSE, ho |-> FALSE,
   tail |-> "", lmu |-> FALSE, rmu |-> FALSE, thr |-> 2, artpa |-> TRUE, dot |-> TRUE, dir |-> FALSE,
   filt |-> <<>>, lf |-> FALSE]
RECURSIVE WithHd(_)
WithHd(t) == TLCEval([l |-> t.l, i |-> t.i, hd |-> -1, k |-> [n \in DOMAIN t.k |-> WithHd(t.k[n])]])
RECURSIVE Bare(_)
Bare(t) == IF t.i >= 0 THEN Term(t.i) ELSE Node(t.l, [n \in DOMAIN t.k |-> Bare(t.k[n])])
DotBin(t) == Bare(Binarize(WithHd(t), DotPar))
\* sentences start..stop (from 1, inclusive, 0: unlimited) out of k
Between(start, stop, k) == (IF start = 0 THEN 1 ELSE start)..(IF stop = 0 THEN k ELSE Min({stop, k}))
Clip(limit, s) == IF limit = 0 THEN s ELSE SubSeq(s, 1, Min({limit, Len(s)}))
\* corpus: sequence of indexed trees; all matches of fragment f, by sentence:
\* groups <<f, n, nodes>>
Groups(fs, I, start, stop) == LET r == Between(start, stop, Len(I)) IN
  Cat([m \in DOMAIN fs |-> TLCEval(SelectSeq([n \in DOMAIN I |-> <<fs[m], n, IF n \in r THEN OccNodes(fs[m], I[n]) ELSE {}>>], LAMBDA g : g[3] # {}))])
SizeOf(gs) == SumSeq([n \in DOMAIN gs |-> Cardinality(gs[n][3])])
\* res: views of matches.  Sentences are in order; the matches within a
\* sentence may come in any order, each once.  vs: for every group the views
\* of its matches.
Count(x, s) == Cardinality({n \in DOMAIN s : s[n] = x})
RECURSIVE Listed(_, _)
Listed(res, vs) ==
  IF vs = <<>> THEN res = <<>>
  ELSE LET v == vs[1] k == Min({Cardinality(DOMAIN v), Len(res)})
           head == SubSeq(res, 1, k)
       IN /\ \A n \in DOMAIN head : Count(head[n], head) <= Cardinality({x \in DOMAIN v : v[x] = head[n]})
          /\ Listed(SubSeq(res, k + 1, Len(res)), Tail(vs))
LimitTo(limit, n) == IF limit = 0 THEN n ELSE Min({limit, n})
\* res is an answer limited to this number of matches
AnswerOk(res, vs, limit) == Len(res) = LimitTo(limit, SumSeq([n \in DOMAIN vs |-> Cardinality(DOMAIN vs[n])])) /\ Listed(res, vs)
\* words of the tree that belong to the match itself
RECURSIVE Matched(_, _)
Matched(f, t) == IF IsOpen(f) THEN {} ELSE IF IsLex(f.p) THEN Yield(t)
  ELSE UNION {Matched(f.k[n], t.k[n]) : n \in DOMAIN f.k}
=============================================================================
