----------------------------- MODULE GenTrace -----------------------------
(* A grammar read from text, and the sentences generated with it.           *)
EXTENDS Gram, TraceBase
Language(q) == {<<d.parts[1], d.pr>> : d \in TLCEval(Derivs(q.g, "S"))}
SameNum(a, b) == a[1] * b[2] = b[1] * a[2]
BadCli(q, o) == LET S == {x[1] : x \in Language(q)} IN
   Clause("20 derivable sentences printed", Len(o.obs) = 20 /\ \A x \in ToSet(o.obs) : x[1] \in S)
   \cup Clause("printed probability", \A x \in ToSet(o.obs) : \E y \in Language(q) : x[1] = y[1] /\
         LET d == x[2][1] * y[2][2] - y[2][1] * x[2][2] IN (IF d < 0 THEN -d ELSE d) <= 1 + (y[2][2] * x[2][2]) \div 100000)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE IF r.inp.op = "cli" THEN BadCli(r.inp, r.out) ELSE
  LET q == r.inp o == r.out IN LET L == TLCEval(Language(q)) obs == {<<x[1], x[2]>> : x \in ToSet(o.obs)} IN
   Clause("rules read", Len(o.rules) = Len(q.g) /\ ToSet([n \in DOMAIN q.g |-> <<q.g[n].p, ProbOf(q.g, n)>>])
              = ToSet([n \in DOMAIN o.rules |-> <<o.rules[n].p, o.rules[n].pr>>]))
   \cup Clause("generated sentences are derivable, with the reported probability", obs \subseteq L)
   \* very unlikely not to occur in the number of samples drawn
   \cup Clause("every derivable sentence can be generated", \A x \in L : x[2][1] * 64 >= x[2][2] => x \in obs)
TCheck == Report(Bad(Rec))
=============================================================================
