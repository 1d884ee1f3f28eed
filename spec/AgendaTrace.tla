---------------------------- MODULE AgendaTrace ----------------------------
(* Trace validation: every recorded call must be the Agenda step with that  *)
(* name and arguments, with the recorded result, leaving the recorded       *)
(* contents.  Record i is one history; j is the position within it.         *)
EXTENDS Agenda, Json, IOUtils
VARIABLES i, j
Trace == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
TInit == i = Start /\ j = 0 /\ ag = Empty /\ res = OK
Hist == Trace[i].inp.ops
Obs == Trace[i].out.steps
Failed == Trace[i].err # "" \/ Len(Obs) # Len(Hist)
Bad(n) == LET s == Step(ag, Hist[n]) o == Obs[n] IN
    (IF o.r = s.r THEN {} ELSE {"result of " \o Hist[n].o})
    \cup (IF o.items = s.ag THEN {} ELSE {"contents after " \o Hist[n].o})
    \cup (IF o.len = Len(s.ag) THEN {} ELSE {"length after " \o Hist[n].o})
    \cup (IF o.true = (s.ag # Empty) THEN {} ELSE {"truth value after " \o Hist[n].o})
Over == IF Failed THEN TRUE ELSE IF j = Len(Hist) THEN TRUE ELSE Bad(j + 1) # {}
TNext == IF ~Over
         THEN /\ LET s == Step(ag, Hist[j + 1]) IN ag' = s.ag /\ res' = s.r
              /\ j' = j + 1 /\ UNCHANGED i
         ELSE /\ i < Len(Trace) /\ i' = i + 1
              /\ j' = 0 /\ ag' = Empty /\ res' = OK
TCheck == LET b == IF Failed THEN {"exception"}
                   ELSE IF j < Len(Hist) THEN Bad(j + 1) ELSE {}
          IN b = {} \/ PrintT(<<"BAD", i, b>>)
=============================================================================
