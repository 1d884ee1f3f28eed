------------------------------- MODULE Agenda -------------------------------
(* The agenda (priority queue with decrease-key and delete) as a user sees  *)
(* it: a finite map from keys to priorities whose keys have an insertion    *)
(* order.  The best item is the one with the lowest priority; equal         *)
(* priorities are served in order of insertion; giving an existing key a    *)
(* new priority does not change its place in the insertion order.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Empty == <<>>
Keys(ag) == {ag[n].k : n \in DOMAIN ag}
Pos(ag, k) == CHOOSE n \in DOMAIN ag : ag[n].k = k
Has(ag, k) == \E n \in DOMAIN ag : ag[n].k = k
Set(ag, k, v) == IF Has(ag, k) THEN [ag EXCEPT ![Pos(ag, k)].v = v]
                 ELSE Append(ag, [k |-> k, v |-> v])
Del(ag, k) == IF Has(ag, k) THEN RemoveAt(ag, Pos(ag, k)) ELSE ag
BestPos(ag) == CHOOSE n \in DOMAIN ag :
    /\ \A m \in DOMAIN ag : ag[n].v <= ag[m].v
    /\ \A m \in DOMAIN ag : ag[m].v = ag[n].v => n <= m
\* Construction from a sequence of pairs: best priority of duplicate keys.
SetBest(ag, k, v) == IF Has(ag, k) /\ ag[Pos(ag, k)].v <= v THEN ag
                     ELSE Set(ag, k, v)
RECURSIVE FromPairs(_, _)
FromPairs(ag, ps) == IF ps = <<>> THEN ag
                     ELSE FromPairs(SetBest(ag, ps[1].k, ps[1].v), Tail(ps))
RECURSIVE SetAll(_, _)
SetAll(ag, ps) == IF ps = <<>> THEN ag
                  ELSE SetAll(Set(ag, ps[1].k, ps[1].v), Tail(ps))

\* One operation: the new state and the result ([s |-> kind, ...]).
OK == [s |-> "ok"]
Fail(e) == [s |-> e]
Val(v) == [s |-> "val", v |-> v]
Item(e) == [s |-> "item", k |-> e.k, v |-> e.v]
Step(ag, o) ==
  CASE o.o = "new" -> [ag |-> FromPairs(Empty, o.ps), r |-> OK]
    [] o.o = "set" -> [ag |-> Set(ag, o.k, o.v), r |-> OK]
    [] o.o = "update" -> [ag |-> SetAll(ag, o.ps), r |-> OK]
    [] o.o = "del" -> [ag |-> Del(ag, o.k),
                       r |-> IF Has(ag, o.k) THEN OK ELSE Fail("KeyError")]
    [] o.o = "pop" -> [ag |-> Del(ag, o.k),
                       r |-> IF Has(ag, o.k) THEN Val(ag[Pos(ag, o.k)].v)
                             ELSE Fail("KeyError")]
    [] o.o = "get" -> [ag |-> ag,
                       r |-> IF Has(ag, o.k) THEN Val(ag[Pos(ag, o.k)].v)
                             ELSE Fail("KeyError")]
    [] o.o = "in" -> [ag |-> ag, r |-> [s |-> "bool", b |-> Has(ag, o.k)]]
    [] o.o = "peekitem" -> [ag |-> ag,
            r |-> IF ag = Empty THEN Fail("IndexError")
                  ELSE Item(ag[BestPos(ag)])]
    [] o.o = "popitem" -> [ag |-> IF ag = Empty THEN ag
                                  ELSE RemoveAt(ag, BestPos(ag)),
            r |-> IF ag = Empty THEN Fail("IndexError")
                  ELSE Item(ag[BestPos(ag)])]
    [] o.o = "clear" -> [ag |-> Empty, r |-> OK]

-----------------------------------------------------------------------------
(* State machine over a small set of keys and priorities.                   *)
CONSTANTS K, P, MaxLen
Ops == {[o |-> "set", k |-> k, v |-> v] : k \in K, v \in P}
       \cup {[o |-> o, k |-> k] : o \in {"del", "pop", "in"}, k \in K}
       \cup {[o |-> o] : o \in {"peekitem", "popitem", "clear"}}
VARIABLES ag, res
vars == <<ag, res>>
Init == ag = Empty /\ res = OK
Next == \E o \in Ops : LET s == Step(ag, o) IN ag' = s.ag /\ res' = s.r
Spec == Init /\ [][Next]_vars
TypeOK == /\ \A n \in DOMAIN ag : ag[n].k \in K /\ ag[n].v \in P
          /\ \A n, m \in DOMAIN ag : ag[n].k = ag[m].k => n = m
\* popitem yields the minimum, and never an item that is not on the agenda
BestIsMin == ag # Empty =>
    LET b == ag[BestPos(ag)] IN \A n \in DOMAIN ag : b.v <= ag[n].v
=============================================================================
