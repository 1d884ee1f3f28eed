------------------------------ MODULE ForestMC ------------------------------
(* All edit histories on a few nodes.                                       *)
EXTENDS Forest
CONSTANTS N, MaxN, Ops
VARIABLES st, err
vars == <<st, err>>
Start0 == [labs |-> [n \in 1..N |-> IF n % 2 = 0 THEN "A" ELSE "B"], kids |-> [n \in 1..N |-> <<>>]]
Init == st = Start0 /\ err = FALSE
Idx == {-2, -1, 0, 1}
Cs == {<<>>} \cup {<<x>> : x \in NodesOf(st) \cup {-1}} \cup {<<x, y>> : x, y \in NodesOf(st)}
Args(op, p) ==
  CASE op \in {"append", "remove"} -> {[op |-> op, p |-> p, a |-> 0, b |-> 0, cs |-> <<x>>, path |-> <<>>, lab |-> "A"] : x \in NodesOf(st) \cup {-1}}
    [] op \in {"insert", "set"} -> {[op |-> op, p |-> p, a |-> a, b |-> 0, cs |-> <<x>>, path |-> <<>>, lab |-> "A"] : a \in Idx, x \in NodesOf(st) \cup {-1}}
    [] op \in {"setpath"} -> {[op |-> op, p |-> p, a |-> 0, b |-> 0, cs |-> <<x>>, path |-> q, lab |-> "A"] : q \in {<<0, 0>>, <<1, -1>>}, x \in NodesOf(st)}
    [] op \in {"setslice"} -> {[op |-> op, p |-> p, a |-> a, b |-> b, cs |-> c, path |-> <<>>, lab |-> "A"] : a \in {-1, 0, 1}, b \in {-1, 1, 2}, c \in Cs}
    [] op \in {"delslice"} -> {[op |-> op, p |-> p, a |-> a, b |-> b, cs |-> <<>>, path |-> <<>>, lab |-> "A"] : a \in {-1, 0, 1}, b \in {-1, 1, 2}}
    [] op \in {"extend", "new"} -> {[op |-> op, p |-> p, a |-> 0, b |-> 0, cs |-> c, path |-> <<>>, lab |-> "A"] : c \in Cs}
    [] OTHER -> {[op |-> op, p |-> p, a |-> a, b |-> 0, cs |-> <<>>, path |-> <<>>, lab |-> "A"] : a \in Idx}
Next == \E op \in Ops, p \in NodesOf(st) : \E o \in Args(op, p) :
   /\ ~Excluded(st, o)
   /\ LET r == Apply(st, o) IN
      /\ Len(r.st.kids) <= MaxN /\ \A n \in DOMAIN r.st.kids : Len(r.st.kids[n]) <= 2
      /\ st' = r.st /\ err' = r.err
Spec == Init /\ [][Next]_vars
View == st
OneParent == IsForest(st)
RejectedUnchanged == [][err' => st' = st]_vars
Links == \A n \in NodesOf(st) : HasParent(st, n) =>
   /\ Follow(st, RootOf(st, n), PathOf(st, n)) = n
   /\ st.kids[ParentOf(st, n)][IndexIn(st, n)] = n
=============================================================================
