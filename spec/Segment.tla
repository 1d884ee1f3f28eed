------------------------------ MODULE Segment ------------------------------
(* Finding bracketed trees in a stream of lines.                            *)
(* A text is a sequence of symbols: "(", ")", "n" (end of line), and        *)
(* anything else.  Declarative: a group is a balanced pair of brackets that *)
(* is not part of another one; with robust, only groups that contain other  *)
(* brackets are trees.  What follows a tree up to the next is its rest.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions
Brk == {"(", ")"}
RECURSIVE NextBrk(_, _)
NextBrk(s, n) == IF n > Len(s) THEN 0 ELSE IF s[n] \in Brk THEN n ELSE NextBrk(s, n + 1)
\* first bracket on the same line
RECURSIVE NextBrkLine(_, _)
NextBrkLine(s, n) == IF n > Len(s) \/ s[n] = "n" THEN 0 ELSE IF s[n] \in Brk THEN n ELSE NextBrkLine(s, n + 1)
\* position of the bracket closing the group, 0 if missing
RECURSIVE Close(_, _, _)
Close(s, n, d) == IF n > Len(s) THEN 0
  ELSE LET e == CASE s[n] = "(" -> d + 1 [] s[n] = ")" -> d - 1 [] OTHER -> d IN
   IF e = 0 /\ s[n] = ")" THEN n ELSE Close(s, n + 1, e)
RECURSIVE GroupsFrom(_, _)
GroupsFrom(s, n) == LET a == NextBrk(s, n) IN
  IF a = 0 THEN <<>>
  ELSE IF s[a] = ")" THEN GroupsFrom(s, a + 1)
  ELSE LET b == Close(s, a + 1, 1) IN
   IF b = 0 THEN <<>> ELSE <<<<a, b>>>> \o GroupsFrom(s, b + 1)
IsTreeGroup(s, g, robust) == ~robust \/ s[NextBrk(s, g[1] + 1)] = "("
TreeGroups(s, robust) == SelectSeq(GroupsFrom(s, 1), LAMBDA g : IsTreeGroup(s, g, robust))
\* the rest ends where something starts that may become a tree
RECURSIVE RestEnd(_, _, _)
RestEnd(s, n, robust) == LET a == NextBrk(s, n) IN
  IF a = 0 THEN Len(s)
  ELSE IF s[a] = ")" THEN RestEnd(s, a + 1, robust)
  ELSE LET b == NextBrkLine(s, a + 1) IN
   IF b # 0 /\ s[b] = ")" /\ robust THEN RestEnd(s, b + 1, robust) ELSE a - 1
Stray(s) == LET RECURSIVE Go(_, _)
   Go(n, d) == IF n > Len(s) THEN FALSE
     ELSE IF s[n] = "(" THEN Go(n + 1, d + 1)
     ELSE IF s[n] = ")" THEN d = 0 \/ Go(n + 1, d - 1) ELSE Go(n + 1, d)
   IN Go(1, 0)
\* <<tree, rest>> as intervals of positions
Segments(s, robust) == LET gs == TreeGroups(s, robust) IN
  [n \in DOMAIN gs |-> [tree |-> gs[n], rest |-> <<gs[n][2] + 1, RestEnd(s, gs[n][2] + 1, robust)>>]]
=============================================================================
