----------------------------- MODULE DropTrace -----------------------------
EXTENDS Punct, TraceBase
RECURSIVE PlainOK(_, _)
PlainOK(t, root) == IF t.i >= 0 THEN t.k = <<>> ELSE (root \/ t.k # <<>>) /\ \A n \in DOMAIN t.k : PlainOK(t.k[n], FALSE)
\* nodes without children in the input are not terminals; they are left alone
Targets(q) == IF q.op = "func" THEN {q.drop[n] : n \in DOMAIN q.drop}
   ELSE IF q.op = "word" THEN {n \in Yield(q.t) : q.sent[n + 1] \in ToSet(q.words)}
   ELSE IF q.op = "label" THEN {Pos1(x) : x \in {y \in ToSet(Pres(q.t)) : y.l \in ToSet(q.words)}}
   ELSE {Pos1(x) : x \in {y \in ToSet(Pres(q.t)) : y.l = "-NONE-" \/ q.sent[Pos1(y) + 1] \in {"", "None"}}}
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  LET o == r.out q == r.inp IN
  IF ~PlainOK(o.t, TRUE) THEN {"not a tree, or an empty constituent"} ELSE
  LET S == Targets(q) d == Drop(q.t, q.sent, S) IN
   Clause("remaining tokens", o.sent = d.sent)
   \cup Clause("indices are positions of remaining tokens", Yield(o.t) = 0..(Len(o.sent) - 1) /\ IsInjective(Leaves(o.t)))
   \cup Clause("resulting tree", o.t = d.t)
   \cup Clause("parent links", o.linked)
TCheck == Report(Bad(Rec))
=============================================================================
