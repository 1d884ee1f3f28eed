------------------------------- MODULE Forest -------------------------------
(* A set of parented trees as a state machine.  Nodes are 1..N; kids[n] is  *)
(* the sequence of children of n, where x > 0 is a node and x < 0 is a      *)
(* terminal.  Parents are not part of the state: the links that the         *)
(* implementation maintains have to be those derived from kids.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
NodesOf(st) == DOMAIN st.kids
ParentsOf(st, n) == {p \in NodesOf(st) : Contains(st.kids[p], n)}
HasParent(st, n) == ParentsOf(st, n) # {}
ParentOf(st, n) == CHOOSE p \in NodesOf(st) : Contains(st.kids[p], n)
IndexIn(st, n) == CHOOSE m \in DOMAIN st.kids[ParentOf(st, n)] : st.kids[ParentOf(st, n)][m] = n
RECURSIVE Ancestors(_, _)
Ancestors(st, n) == IF HasParent(st, n) THEN {ParentOf(st, n)} \cup Ancestors(st, ParentOf(st, n)) ELSE {}
RECURSIVE RootOf(_, _)
RootOf(st, n) == IF HasParent(st, n) THEN RootOf(st, ParentOf(st, n)) ELSE n
RECURSIVE PathOf(_, _)
PathOf(st, n) == IF HasParent(st, n) THEN Append(PathOf(st, ParentOf(st, n)), IndexIn(st, n) - 1) ELSE <<>>
\* value of a node, for equality
RECURSIVE Val(_, _)
Val(st, x) == IF x < 0 THEN [l |-> "", i |-> -x, k |-> <<>>]
              ELSE TLCEval([l |-> st.labs[x], i |-> 0, k |-> [m \in DOMAIN st.kids[x] |-> Val(st, st.kids[x][m])]])
IsForest(st) == /\ \A n \in NodesOf(st) : /\ Cardinality(ParentsOf(st, n)) <= 1
                                           /\ n \notin Ancestors(st, n)
                                           /\ \A m \in DOMAIN st.kids[n] : st.kids[n][m] <= Cardinality(NodesOf(st))
                /\ \A n \in NodesOf(st) : \A a, b \in DOMAIN st.kids[n] :
                      (a # b /\ st.kids[n][a] > 0) => st.kids[n][a] # st.kids[n][b]

\* --- list operations with Python's treatment of indices
MinI(a, b) == IF a < b THEN a ELSE b
ClipI(x, n) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE MinI(x, n)
InRange(x, n) == -n <= x /\ x < n
Pos(x, n) == IF x < 0 THEN x + n + 1 ELSE x + 1 \* 1-based
Splice(s, a, b, ins) == SubSeq(s, 1, a) \o ins \o SubSeq(s, (IF b < a THEN a ELSE b) + 1, Len(s))
NodesIn(s) == {s[m] : m \in {y \in DOMAIN s : s[y] > 0}}
\* may cs be added to p when the children in old are removed first?
MayAdd(st, cs, old) == /\ \A a, b \in DOMAIN cs : (a # b /\ cs[a] > 0) => cs[a] # cs[b]
                       /\ \A x \in NodesIn(cs) : x \in old \/ ~HasParent(st, x)
\* adding cs below p would make a node its own ancestor
Cycle(st, p, cs) == \E x \in NodesIn(cs) : x = p \/ x \in Ancestors(st, p)
With(st, p, ks) == [st EXCEPT !.kids[p] = ks]
NewNode(st, lab, ks) == [labs |-> Append(st.labs, lab), kids |-> Append(st.kids, ks)]
Ok(st, res) == [st |-> st, err |-> FALSE, res |-> res]
Fail(st) == [st |-> st, err |-> TRUE, res |-> 0]
\* follow an index path from n; 0 if it leads nowhere or to a terminal
RECURSIVE Follow(_, _, _)
Follow(st, n, path) == IF path = <<>> THEN n
  ELSE IF ~InRange(path[1], Len(st.kids[n])) THEN 0
  ELSE LET c == st.kids[n][Pos(path[1], Len(st.kids[n]))]
       IN IF c < 0 THEN 0 ELSE Follow(st, c, Tail(path))
Deleted(st, p) == With(st, p, <<>>)

(* Apply one edit o: [op, p (node), a, b (indices), cs (children), lab].    *)
(* res is the node (or terminal) the operation returns, if any.             *)
SetOne(st, p, a, x) == LET ks == st.kids[p] IN
  IF ~InRange(a, Len(ks)) THEN Fail(st)
  ELSE LET m == Pos(a, Len(ks)) IN
       IF ks[m] = x THEN Ok(st, 0)
       ELSE IF ~MayAdd(st, <<x>>, {}) THEN Fail(st)
       ELSE Ok(With(st, p, [ks EXCEPT ![m] = x]), 0)
DelOne(st, p, a, want) == LET ks == st.kids[p] IN
  IF ~InRange(a, Len(ks)) THEN Fail(st)
  ELSE Ok(With(st, p, RemoveAt(ks, Pos(a, Len(ks)))), IF want THEN ks[Pos(a, Len(ks))] ELSE 0)
Apply(st, o) ==
  LET p == o.p ks == st.kids[p] n == Len(ks) IN
  CASE o.op = "append" -> IF MayAdd(st, o.cs, {}) THEN Ok(With(st, p, ks \o o.cs), 0) ELSE Fail(st)
    [] o.op = "extend" -> IF MayAdd(st, o.cs, {}) THEN Ok(With(st, p, ks \o o.cs), 0) ELSE Fail(st)
    [] o.op = "insert" -> IF MayAdd(st, o.cs, {})
                          THEN Ok(With(st, p, Splice(ks, ClipI(o.a, n), ClipI(o.a, n), o.cs)), 0) ELSE Fail(st)
    [] o.op = "set" -> SetOne(st, p, o.a, o.cs[1])
    [] o.op = "setpath" -> LET q == Follow(st, p, SubSeq(o.path, 1, Len(o.path) - 1)) IN
          IF o.path = <<>> \/ q = 0 THEN Fail(st) ELSE SetOne(st, q, o.path[Len(o.path)], o.cs[1])
    [] o.op = "del" -> DelOne(st, p, o.a, FALSE)
    [] o.op = "delpath" -> LET q == Follow(st, p, SubSeq(o.path, 1, Len(o.path) - 1)) IN
          IF o.path = <<>> \/ q = 0 THEN Fail(st) ELSE DelOne(st, q, o.path[Len(o.path)], FALSE)
    [] o.op = "pop" -> DelOne(st, p, o.a, TRUE)
    [] o.op = "setslice" -> LET a == ClipI(o.a, n) b0 == ClipI(o.b, n) b == IF b0 < a THEN a ELSE b0
                                old == {ks[m] : m \in (a + 1)..b} IN
          IF MayAdd(st, o.cs, old) THEN Ok(With(st, p, Splice(ks, a, b, o.cs)), 0) ELSE Fail(st)
    [] o.op = "delslice" -> Ok(With(st, p, Splice(ks, ClipI(o.a, n), ClipI(o.b, n), <<>>)), 0)
    [] o.op = "remove" -> LET v == Val(st, o.cs[1]) eq == {m \in DOMAIN ks : Val(st, ks[m]) = v} IN
          IF eq = {} THEN Fail(st) ELSE Ok(With(st, p, RemoveAt(ks, Min(eq))), 0)
    [] o.op = "detach" -> IF HasParent(st, p)
          THEN LET q == ParentOf(st, p) IN Ok(With(st, q, RemoveAt(st.kids[q], IndexIn(st, p))), p)
          ELSE Ok(st, p)
    [] o.op = "disown" -> Ok(With(st, p, <<>>), 0)
    [] o.op = "prune" -> LET q == ParentOf(st, p) m == IndexIn(st, p) IN
          Ok([st EXCEPT !.kids[q] = Splice(@, m - 1, m, ks), !.kids[p] = <<>>], 0)
    [] o.op = "spliceabove" -> LET q == ParentOf(st, p) m == IndexIn(st, p) new == Len(st.kids) + 1 IN
          Ok(NewNode(With(st, q, [st.kids[q] EXCEPT ![m] = new]), o.lab, <<p>>), new)
    [] o.op = "splicebelow" -> LET new == Len(st.kids) + 1 IN
          Ok(NewNode(With(st, p, <<new>>), o.lab, ks), new)
    [] o.op = "new" -> IF MayAdd(st, o.cs, {}) THEN Ok(NewNode(st, o.lab, o.cs), Len(st.kids) + 1) ELSE Fail(st)
    [] OTHER -> Fail(st)
\* the node whose children an edit changes
Target(st, o) == IF o.op \in {"setpath"} THEN Follow(st, o.p, SubSeq(o.path, 1, Len(o.path) - 1)) ELSE o.p
(* Edits which the implementation does not define: pruning or splicing      *)
(* above a root, and edits that would create a cycle.                       *)
Excluded(st, o) ==
  \/ o.op \in {"prune", "spliceabove"} /\ ~HasParent(st, o.p)
  \/ o.op \in {"append", "extend", "insert", "set", "setslice", "setpath"} /\
       LET q == Target(st, [o EXCEPT !.path = IF @ = <<>> THEN <<0>> ELSE @]) IN q # 0 /\ Cycle(st, q, o.cs)
=============================================================================
