------------------------------ MODULE TbTrace ------------------------------
EXTENDS TbSplits, TraceBase
\* state splits: labels are only extended
RECURSIVE Splits(_, _)
Splits(a, b) == IF a.i >= 0 \/ b.i >= 0 THEN a.i = b.i
   ELSE /\ a.l = b.l \/ HasPrefix(a.l, b.l \o "^")
        /\ a.f = b.f /\ Len(a.k) = Len(b.k) /\ \A n \in DOMAIN a.k : Splits(a.k[n], b.k[n])
RECURSIVE Strip0(_)
Strip0(t) == IF t.i >= 0 THEN t ELSE [t EXCEPT !.f = IF @ = "--" THEN "" ELSE @, !.k = TLCEval([n \in DOMAIN @ |-> Strip0(t.k[n])])]
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  LET q == r.inp o == r.out n == Len(q.w) IN
  IF ~Proper(o.trans) \/ ~Proper(o.rest) THEN {"not a tree"}
  ELSE LET t == TLCEval(Canonical(q.t)) IN
    Clause("tokens", Covers(o.trans, n) /\ Covers(o.rest, n))
    \cup (CASE q.op = "exact" ->
           LET s == TLCEval(Trans(q.names, t, q.w)) IN
           Clause("transformed tree", Shown(o.trans) = Shown(s))
           \cup Clause("reversed tree", Shown(o.rest) = Shown(TLCEval(RevTrans(q.names, s))))
           \cup Clause("restored", (Len(q.names) = 1 /\ Undoable(q.names[1], t)) => Shown(o.rest) = Shown(t))
         [] q.op = "rev" -> Clause("reversed tree", Shown(o.rest) = Shown(TLCEval(RevTrans(q.names, q.t))))
         [] q.op = "split" ->
           Clause("labels are only split", Splits(o.trans, t))
           \cup Clause("which labels are split, and how", Shown(o.trans) = Shown(TLCEval(SplitAll(q.names, t, q.w))))
           \cup Clause("restored", Shown(o.rest) = Shown(t))
         [] q.op = "rr" ->
           Clause("relational-realizational tree", Shown(o.trans) = Shown(RR(q.o, t)))
           \cup Clause("restored", Shown(o.rest) = Shown(Strip0(t)))
         [] OTHER -> {"unknown op"})
TCheck == Report(Bad(Rec))
=============================================================================
