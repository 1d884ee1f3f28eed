----------------------------- MODULE EditTrace -----------------------------
EXTENDS EditDist, TraceBase
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  LET q == r.inp o == r.out IN
  LET t == Prep(q.t) u == Prep(q.u) IN LET d == TreeDist(t, u) IN
   Clause("distance (Zhang and Shasha)", o.d1 = d)
   \cup Clause("distance (Bille)", o.d2 = d)
   \cup Clause("distance in the other direction", o.d3 = d /\ o.d4 = d)
   \cup Clause("zero for the same tree", o.d5 = 0)
   \cup Clause("edit script has the distance as its cost", o.cost = d /\ o.ops = d)
   \cup Clause("edit script turns the first tree into the second",
          ScriptOK(t, u, ToSet(o.del), ToSet(o.ins), ToSet(o.sub)))
   \cup Clause("arguments are not modified", o.t = q.t /\ o.u = q.u)
TCheck == Report(Bad(Rec))
=============================================================================
