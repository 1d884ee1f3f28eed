-------------------------------- MODULE Regex --------------------------------
(* Regular expressions on texts.  A text is a sequence of lines, a line is  *)
(* a sequence of characters (code points).  The lines that are not blank    *)
(* are the sentences.  An expression is a record:                           *)
(*   [k |-> "set", cs, neg]  a character (not) in cs                        *)
(*   [k |-> "bol"], [k |-> "eol"]   begin and end of line                   *)
(*   [k |-> "seq", a], [k |-> "alt", a]  a sequence of expressions          *)
(*   [k |-> "star", a, min, max, lazy]  repetitions of a[1]                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Space == {32} \cup 9..13
Blank(l) == \A n \in DOMAIN l : l[n] \in Space
Sentences(text) == SelectSeq(text, LAMBDA l : ~Blank(l))
RECURSIVE RCat(_)
RCat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o RCat(Tail(ss))
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = <<>> THEN <<>> ELSE IF s[1] \in seen THEN Uniq(Tail(s), seen) ELSE <<s[1]>> \o Uniq(Tail(s), seen \cup {s[1]})
\* positions after a match of e from position p in line l, by preference
RECURSIVE Ends(_, _, _, _), EndsSeq(_, _, _, _, _), EndsRep(_, _, _, _, _)
Ends(e, l, p, ic) ==
  CASE e.k = "set" -> IF p <= Len(l) /\ ((IF ic THEN Lower(l[p]) \in {Lower(e.cs[n]) : n \in DOMAIN e.cs} ELSE l[p] \in ToSet(e.cs)) # e.neg)
                      THEN <<p + 1>> ELSE <<>>
    [] e.k = "bol" -> IF p = 1 THEN <<p>> ELSE <<>>
    [] e.k = "eol" -> IF p = Len(l) + 1 THEN <<p>> ELSE <<>>
    [] e.k = "seq" -> EndsSeq(e.a, 1, l, p, ic)
    [] e.k = "alt" -> Uniq(RCat([n \in DOMAIN e.a |-> Ends(e.a[n], l, p, ic)]), {})
    [] e.k = "star" -> Uniq(EndsRep(e, 0, l, p, ic), {})
EndsSeq(a, n, l, p, ic) == IF n > Len(a) THEN <<p>> ELSE
  LET q == TLCEval(Ends(a[n], l, p, ic)) IN Uniq(RCat([m \in DOMAIN q |-> EndsSeq(a, n + 1, l, q[m], ic)]), {})
EndsRep(e, n, l, p, ic) ==
  LET q == IF n >= e.max THEN <<>> ELSE TLCEval(SelectSeq(Ends(e.a[1], l, p, ic), LAMBDA x : x > p))
      more == RCat([m \in DOMAIN q |-> EndsRep(e, n + 1, l, q[m], ic)])
  IN IF n < e.min THEN more ELSE IF e.lazy THEN <<p>> \o more ELSE more \o <<p>>
\* non-overlapping matches, from left to right: <<begin, after>>; expressions
\* that match nothing at all are left out of consideration
RECURSIVE MatchesFrom(_, _, _, _)
MatchesFrom(e, l, p, ic) == IF p > Len(l) THEN <<>> ELSE
  LET q == Ends(e, l, p, ic) IN
  IF q = <<>> THEN MatchesFrom(e, l, p + 1, ic)
  ELSE <<<<p, q[1]>>>> \o MatchesFrom(e, l, IF q[1] = p THEN p + 1 ELSE q[1], ic)
Matches(e, l, ic) == MatchesFrom(e, l, 1, ic)
\* does the expression match something other than the empty string only?
RECURSIVE Nullable(_)
Nullable(e) == CASE e.k = "set" -> FALSE
  [] e.k \in {"bol", "eol"} -> TRUE
  [] e.k = "seq" -> \A n \in DOMAIN e.a : Nullable(e.a[n])
  [] e.k = "alt" -> \E n \in DOMAIN e.a : Nullable(e.a[n])
  [] e.k = "star" -> e.min = 0 \/ Nullable(e.a[1])
\* matches <<sentence, begin, after>> in sentences start..stop
Range0(start, stop, k) == (IF start = 0 THEN 1 ELSE start)..(IF stop = 0 THEN k ELSE Min({stop, k}))
Scan(e, text, start, stop, ic) == LET s == TLCEval(Sentences(text)) r == Range0(start, stop, Len(s)) IN
  RCat([n \in DOMAIN s |-> IF n \in r THEN LET m == TLCEval(Matches(e, s[n], ic)) IN [x \in DOMAIN m |-> <<n, m[x][1], m[x][2]>>] ELSE <<>>])
=============================================================================
