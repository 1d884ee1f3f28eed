---------------------------- MODULE ForestTrace ----------------------------
(* Edit histories recorded from ParentedTree against the specification.     *)
EXTENDS Forest, TraceBase
Build(q) == [labs |-> q.labs, kids |-> q.kids]
NodeSeq(st) == [n \in DOMAIN st.kids |-> n]
ParentSeq(st) == [n \in DOMAIN st.kids |-> IF HasParent(st, n) THEN ParentOf(st, n) ELSE 0]
Sib(st, n, d) == IF ~HasParent(st, n) THEN 0
   ELSE LET ks == st.kids[ParentOf(st, n)] m == IndexIn(st, n) + d
        IN IF m \in DOMAIN ks THEN ks[m] ELSE 0
Observed(st) == TLCEval(
  [kids |-> st.kids, labs |-> st.labs,
   parent |-> ParentSeq(st),
   index |-> [n \in DOMAIN st.kids |-> IF HasParent(st, n) THEN IndexIn(st, n) - 1 ELSE -1],
   left |-> [n \in DOMAIN st.kids |-> Sib(st, n, -1)],
   right |-> [n \in DOMAIN st.kids |-> Sib(st, n, 1)],
   root |-> [n \in DOMAIN st.kids |-> RootOf(st, n)],
   path |-> [n \in DOMAIN st.kids |-> PathOf(st, n)]])
Fields == {"kids", "labs", "parent", "index", "left", "right", "root", "path"}
\* the clauses the observations after one step violate
Differences(st, obs) == LET e == Observed(st) IN {"observed " \o f : f \in {g \in Fields : obs[g] # e[g]}}
RECURSIVE Replay(_, _, _, _)
Replay(st, ops, steps, n) ==
  IF n > Len(ops) THEN {}
  ELSE IF Excluded(st, ops[n])
       THEN (IF steps[n].skipped THEN Replay(st, ops, steps, n + 1) ELSE {"cycle not noticed"})
  ELSE IF steps[n].skipped THEN {"edit on inconsistent links"}
  ELSE LET r == TLCEval(Apply(st, ops[n]))
           d == Differences(r.st, steps[n].obs)
           bad == (IF r.err # steps[n].err THEN {IF r.err THEN "edit not rejected" ELSE "valid edit rejected"} ELSE {})
                  \cup (IF r.err /\ steps[n].err /\ d # {} THEN {"rejected edit changed a tree"} ELSE {})
                  \cup (IF ~r.err /\ ~steps[n].err /\ r.res # steps[n].res THEN {"result of " \o ops[n].op} ELSE {})
                  \cup d
       IN IF bad # {} THEN bad ELSE Replay(r.st, ops, steps, n + 1)
Bad(r) == IF r.err # "" THEN {"exception"}
  ELSE IF Len(r.out.steps) # Len(r.inp.ops) THEN {"missing steps"}
  ELSE LET st == Build(r.inp) IN
    {"start: " \o x : x \in Differences(st, r.out.start)} \cup Replay(st, r.inp.ops, r.out.steps, 1)
TCheck == Report(Bad(Rec))
=============================================================================
