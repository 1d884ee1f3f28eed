------------------------------- MODULE RegexMC -------------------------------
(* Matches are found in the text as a whole, or in the part of it with the  *)
(* sentences asked for, using an index with the offsets of sentences.  This *)
(* gives the same matches as a scan of the sentences.                       *)
EXTENDS Regex
CONSTANTS MaxLen, NQ
NL == 10
Chars == {97, 98, NL}
One(c) == [k |-> "set", cs |-> <<c>>, neg |-> FALSE]
Seq2(a, b) == [k |-> "seq", a |-> <<a, b>>]
Rep(a, lo, hi, lazy) == [k |-> "star", a |-> <<a>>, min |-> lo, max |-> hi, lazy |-> lazy]
Dot == [k |-> "set", cs |-> <<NL>>, neg |-> TRUE]
A == One(97)
B == One(98)
Exprs == << A, Dot, Seq2([k |-> "bol"], A), Seq2(A, [k |-> "eol"]), Rep(A, 1, 9, FALSE), Rep(Dot, 1, 9, TRUE),
  Seq2(A, Rep(B, 0, 1, FALSE)), [k |-> "alt", a |-> <<A, Seq2(A, B), B>>], Seq2(Rep(Dot, 0, 9, FALSE), B),
  Seq2([k |-> "bol"], Seq2(Rep(Dot, 1, 2, FALSE), [k |-> "eol"])) >>
VARIABLES text, e, start, stop, res, pos
vars == <<text, e, start, stop, res, pos>>
\* lines of a text; the last one may be without newline
RECURSIVE Lines(_, _, _)
Lines(t, n, cur) == IF n > Len(t) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
  ELSE IF t[n] = NL THEN <<cur>> \o Lines(t, n + 1, <<>>) ELSE Lines(t, n + 1, Append(cur, t[n]))
\* offsets (from 0) at which non-empty lines begin, and the end of the text
Offsets(t) == {p \in 0..(Len(t) - 1) : t[p + 1] # NL /\ (p = 0 \/ t[p] = NL)} \cup {Len(t)}
Select(t, n) == SetToSortSeq(Offsets(t), <)[n + 1]
Rank(t, p) == Cardinality({x \in Offsets(t) : x <= p})
NSents(t) == Cardinality(Offsets(t)) - 1
\* the line to which position p (from 1) belongs: first and last position
Bol(t, p) == Max({x \in 1..p : x = 1 \/ t[x - 1] = NL})
Eol(t, p) == Min({x \in p..(Len(t) + 1) : x = Len(t) + 1 \/ t[x] = NL})
Init == /\ text \in UNION {[1..n -> Chars] : n \in 0..MaxLen}
        /\ e \in {Exprs[n] : n \in 1..NQ}
        /\ start \in 0..3 /\ stop \in 0..3 /\ res = <<>> /\ pos = -1
From == Select(text, IF start = 0 THEN 0 ELSE start - 1)
Until == IF stop = 0 \/ stop > NSents(text) THEN Len(text) ELSE Select(text, stop)
Begin == /\ pos = -1 /\ pos' = IF start > NSents(text) THEN Len(text) + 1 ELSE From + 1
         /\ UNCHANGED <<text, e, start, stop, res>>
\* try a match at this position
Step == /\ pos >= 1 /\ pos <= Until
        /\ IF text[pos] = NL THEN pos' = pos + 1 /\ res' = res
           ELSE LET b == Bol(text, pos)
                    q == Ends(e, SubSeq(text, b, Eol(text, pos) - 1), pos - b + 1, FALSE)
                    sent == Rank(text, pos - 1)
                IN IF q = <<>> THEN pos' = pos + 1 /\ res' = res
                   ELSE /\ pos' = b + q[1] - 1
                        /\ res' = Append(res, <<sent, pos - Select(text, sent - 1), b + q[1] - 1 - Select(text, sent - 1)>>)
        /\ UNCHANGED <<text, e, start, stop>>
Next == Begin \/ Step
Done == pos > Until
Same == Done => res = Scan(e, Lines(text, 1, <<>>), start, stop, FALSE)
Fine == ~Nullable(e)
=============================================================================
