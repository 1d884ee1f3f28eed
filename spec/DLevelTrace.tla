---------------------------- MODULE DLevelTrace ----------------------------
EXTENDS DLevel, TraceBase
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  Clause("D-level", r.out.lev = Level(TLCEval(r.inp.t)))
  \cup Clause("tree is not changed", r.out.same)
TCheck == Report(Bad(Rec))
=============================================================================
