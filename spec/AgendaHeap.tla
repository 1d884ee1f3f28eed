----------------------------- MODULE AgendaHeap -----------------------------
(* The implementation technique: a multiset of heap entries with lazy       *)
(* deletion.  A replaced or deleted entry is marked invalid (count 0) and   *)
(* stays in the heap until it reaches the front.  Checked to refine Agenda. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS K, P, MaxCount, MaxHeap
VARIABLES heap,     \* set of [k, v, c, id]: entries; c = 0 means invalid
          counter, nextid, res
vars == <<heap, counter, nextid, res>>

Valid == {e \in heap : e.c # 0}
HasK(k) == \E e \in Valid : e.k = k
Ent(k) == CHOOSE e \in Valid : e.k = k
Less(a, b) == a.v < b.v \/ (a.v = b.v /\ a.c < b.c)
\* entry at the front of the heap; ties between invalid entries are arbitrary
IsFront(h, e) == e \in h /\ \A f \in h : ~Less(f, e)
OK == [s |-> "ok"]

Init == heap = {} /\ counter = 1 /\ nextid = 1 /\ res = OK
Invalidate(h, e) == (h \ {e}) \cup {[e EXCEPT !.c = 0]}
Set(k, v) ==
  /\ LET h == IF HasK(k) THEN Invalidate(heap, Ent(k)) ELSE heap
         c == IF HasK(k) THEN Ent(k).c ELSE counter
     IN heap' = h \cup {[k |-> k, v |-> v, c |-> c, id |-> nextid]}
  /\ counter' = IF HasK(k) THEN counter ELSE counter + 1
  /\ nextid' = nextid + 1
  /\ res' = OK
Del(k) ==
  /\ heap' = IF HasK(k) THEN Invalidate(heap, Ent(k)) ELSE heap
  /\ res' = IF HasK(k) THEN OK ELSE [s |-> "KeyError"]
  /\ UNCHANGED <<counter, nextid>>
\* pop the front until it is valid: one atomic public call, modelled as the
\* set of heaps and results reachable by removing fronts
RECURSIVE Popped(_)
Popped(h) == IF h = {} THEN {<<h, [s |-> "IndexError"]>>}
  ELSE UNION {IF e.c # 0 THEN {<<h \ {e}, [s |-> "item", k |-> e.k, v |-> e.v]>>}
              ELSE Popped(h \ {e}) : e \in {f \in h : IsFront(h, f)}}
PopItem == \E p \in Popped(heap) : heap' = p[1] /\ res' = p[2]
           /\ UNCHANGED <<counter, nextid>>
\* peek discards invalid fronts but keeps the valid one
RECURSIVE Peeked(_)
Peeked(h) == IF h = {} THEN {<<h, [s |-> "IndexError"]>>}
  ELSE UNION {IF e.c # 0 THEN {<<h, [s |-> "item", k |-> e.k, v |-> e.v]>>}
              ELSE Peeked(h \ {e}) : e \in {f \in h : IsFront(h, f)}}
PeekItem == \E p \in Peeked(heap) : heap' = p[1] /\ res' = p[2]
            /\ UNCHANGED <<counter, nextid>>
Next == \/ \E k \in K, v \in P : Set(k, v)
        \/ \E k \in K : Del(k)
        \/ PopItem \/ PeekItem
Spec == Init /\ [][Next]_vars
Bound == counter <= MaxCount /\ Cardinality(heap) <= MaxHeap /\ nextid <= MaxHeap + 1

\* refinement mapping: valid entries in order of their count
AbsAg == LET s == SetToSortSeq(Valid, LAMBDA a, b : a.c < b.c)
         IN [n \in DOMAIN s |-> [k |-> s[n].k, v |-> s[n].v]]
Abs == INSTANCE Agenda WITH ag <- AbsAg, res <- res, MaxLen <- 0
Refines == Abs!Spec
=============================================================================
