----------------------------- MODULE PunctTrace -----------------------------
EXTENDS Punct, TraceBase
RECURSIVE PlainOK(_, _)
\* a tree, except that the root may have become empty
PlainOK(t, root) == IF t.i >= 0 THEN t.k = <<>> ELSE (root \/ t.k # <<>>) /\ \A n \in DOMAIN t.k : PlainOK(t.k[n], FALSE)
MovesOf(m) == m \in {"move", "moveall", "root", "raise", "balance", "lower"}
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  LET o == r.out q == r.inp IN
  IF q.op = "ispunct" THEN Clause("classification", o.res = [n \in DOMAIN q.pairs |-> IsPunct(q.pairs[n][1], q.pairs[n][2])])
  ELSE IF q.op = "sent" THEN Clause("pruned sentence", o.sent =
       LET d == Leading(q.sent) \cup Trailing(q.sent) IN
       [n \in 1..Cardinality(DOMAIN q.sent \ d) |-> q.sent[SetToSortSeq(DOMAIN q.sent \ d, LAMBDA a, b : a < b)[n]]])
  ELSE IF ~PlainOK(o.t, TRUE) THEN {"not a tree, or an empty constituent"}
  ELSE LET P == PunctOf(q.t, q.sent) m == q.method
           want == Apply(m, q.t, q.sent) IN
   (IF MovesOf(m) THEN
      Clause("tokens kept", KeepsTokens(q.t, o.t) /\ o.sent = q.sent)
      \cup Clause("other constituents kept", LET P2 == IF m = "moveall" THEN P \cup RootPres(q.t) ELSE P IN
                  Skeleton(o.t, P2) = Skeleton(q.t, P2))
    ELSE Clause("consecutive indices", Yield(o.t) = 0..(Len(o.sent) - 1)))
   \cup Clause("sentence", o.sent = want.sent)
   \cup Clause("resulting tree", o.t = want.t)
   \cup Clause("parent links", o.linked)
TCheck == Report(Bad(Rec))
=============================================================================
