------------------------------ MODULE BinTrace ------------------------------
(* Conformance of binarize/unbinarize.                                      *)
EXTENDS Binarization, TraceBase
In == Rec.inp
\* B01: whatever the labels
ShapeBad(r) == LET t == TLCEval(Plain(r.inp.t)) b == r.out.bin
      spec == TLCEval(Binarize(r.inp.t, r.inp.p)) un == TLCEval(Unbinarize(b)) IN
   Clause("terminals kept in order", Leaves(Canonical(b)) = Leaves(Canonical(t))
            /\ Leaves(b) = Leaves(t))
   \cup Clause("at most two children", MaxArity(b) <= MaxOf(2, r.inp.p.thr))
   \cup Clause("shape as specified", SameShape(b, spec))
   \cup Clause("unbinarize restores the tree", r.out.unbin = t)
   \cup Clause("unbinarize as specified", r.out.unbin = un)
   \cup Clause("original labels kept", \A x \in NodeSet(t) : \E y \in NodeSet(b) :
            StripPar(y.l) = x.l /\ Yield(y) = Yield(x))
   \cup Clause("input consumed in place", r.out.same)
UnbinBad(r) == Clause("unbinarize as specified",
      r.out.unbin = IF r.inp.expand THEN Expand(Unbinarize(r.inp.t)) ELSE Unbinarize(r.inp.t))
Bad(r) == IF r.err # "" THEN {"exception"}
          ELSE IF \E f \in DOMAIN r.out \ {"same"} : ~Proper(r.out[f]) THEN {"not a tree"}
          ELSE IF r.inp.op = "bin" THEN ShapeBad(r) ELSE UnbinBad(r)
TCheck == Report(Bad(Rec))
=============================================================================
