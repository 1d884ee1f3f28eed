----------------------------- MODULE GenAgenda -----------------------------
(* All histories of MaxLen operations of Agenda, for replay into the code.  *)
EXTENDS Agenda, Json, IOUtils
Histories == [1..MaxLen -> Ops]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[ops |-> h] : h \in Histories}))
GInit == ag = Empty /\ res = OK
GNext == FALSE /\ UNCHANGED vars
=============================================================================
