----------------------------- MODULE SegmentMC -----------------------------
(* The incremental reader: it sees one line at a time, and keeps the text   *)
(* since the start of an incomplete tree, or since the end of a complete    *)
(* one.  For every text, however divided into lines, it finds the segments. *)
EXTENDS Segment
CONSTANTS MaxLen, Symbols, Robust
VARIABLES text, line, st, out
vars == <<text, line, st, out>>
\* symbols are paired with their position in the text
Sym(l) == [n \in DOMAIN l |-> l[n][1]]
St0 == [prev |-> <<>>, parens |-> 0, depth |-> 0, result |-> <<>>, rest |-> <<>>]
FirstOf(l, from, c) == IF \E n \in from..Len(l) : l[n][1] = c THEN Min({n \in from..Len(l) : l[n][1] = c}) ELSE 0
\* process the brackets of a line from position n
RECURSIVE Scan(_, _, _, _, _)
Scan(s, l, n, start, acc) ==
  LET a == FirstOf(l, n, "(") b == FirstOf(l, n, ")") IN
  IF a = 0 /\ b = 0 THEN [st |-> s, out |-> acc]
  ELSE IF a # 0 /\ (b = 0 \/ a < b) THEN
    LET a2 == FirstOf(l, a + 1, "(")
        starts == s.parens = 0 /\ (b = 0 \/ ~Robust \/ (a2 # 0 /\ a2 < b))
        rest == SubSeq(l, start, a - 1)
        s1 == IF starts THEN [s EXCEPT !.rest = rest, !.prev = SubSeq(l, a, Len(l)), !.result = <<>>] ELSE s
        emit == IF starts /\ s.result # <<>> THEN <<[tree |-> s.result, rest |-> rest]>> ELSE <<>>
        s2 == [s1 EXCEPT !.parens = @ + 1, !.depth = IF @ > s.parens + 1 THEN @ ELSE s.parens + 1]
    IN Scan(TLCEval(s2), l, a + 1, IF starts THEN a ELSE start, acc \o emit)
  ELSE LET p == s.parens - 1 IN
    IF p = 0 /\ (~Robust \/ s.depth > 1)
    THEN Scan([s EXCEPT !.parens = 0, !.depth = 0, !.result = SubSeq(l, start, b), !.prev = SubSeq(l, b + 1, Len(l))], l, b + 1, b + 1, acc)
    ELSE Scan([s EXCEPT !.parens = IF p < 0 THEN 0 ELSE p], l, b + 1, start, acc)
Feed(s, l) == LET keep == s.parens > 0 \/ s.result # <<>>
                  prev == IF keep THEN s.prev ELSE <<>>
                  full == prev \o l
              IN Scan([s EXCEPT !.prev = full], full, Len(prev) + 1, 1, <<>>)
\* the input ends with a bracket on a line of its own
Finish(s, l) == LET r == IF l = <<>> THEN [st |-> s, out |-> <<>>] ELSE Feed(s, l) IN
   r.out \o Feed(r.st, <<<<"(", 0>>>>).out
Init == text = <<>> /\ line = <<>> /\ st = St0 /\ out = <<>>
Next == /\ Len(text) < MaxLen
        /\ \E c \in Symbols : LET x == <<c, Len(text) + 1>> l == Append(line, x) IN
            /\ text' = Append(text, c)
            /\ IF c = "n" THEN LET r == Feed(st, l) IN line' = <<>> /\ st' = r.st /\ out' = out \o r.out
               ELSE line' = l /\ UNCHANGED <<st, out>>
Spec == Init /\ [][Next]_vars
Pos(l) == [n \in DOMAIN l |-> l[n][2]]
Interval(x) == [n \in 1..(x[2] - x[1] + 1) |-> x[1] + n - 1]
\* exactly the segments of the text, once each, in order
Finds == LET o == out \o Finish(st, line) e == Segments(text, Robust) IN
   /\ Len(o) = Len(e)
   /\ \A n \in DOMAIN o : Pos(o[n].tree) = Interval(e[n].tree) /\ Pos(o[n].rest) = Interval(e[n].rest)
\* what has been reported is final
Prefix == LET e == Segments(text, Robust) IN \A n \in DOMAIN out : n \in DOMAIN e /\ Pos(out[n].tree) = Interval(e[n].tree)
\* nothing is kept when there is nothing open
Bounded == (st.parens = 0 /\ st.result = <<>>) => Feed(st, line).st.prev = line \/ Feed(st, line).st.parens > 0 \/ Feed(st, line).st.result # <<>>
=============================================================================
