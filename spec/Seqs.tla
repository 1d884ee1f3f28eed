-------------------------------- MODULE Seqs --------------------------------
(* Mathematical models of the sequence helpers: stable n-way merge, slices, *)
(* ordered sets and tokenization.                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
\* --- merge: inputs are sequences of <<key, id>>, each sorted by key
Sorted(s) == \A n \in 1..(Len(s) - 1) : s[n][1] <= s[n + 1][1]
\* stable sort: pick the smallest key, from the earliest input
RECURSIVE StableMerge(_)
StableMerge(ss) ==
  LET live == {n \in DOMAIN ss : ss[n] # <<>>} IN
  IF live = {} THEN <<>>
  ELSE LET m == Min({ss[n][1][1] : n \in live})
           f == Min({n \in live : ss[n][1][1] = m})
       IN <<ss[f][1]>> \o StableMerge(TLCEval([ss EXCEPT ![f] = Tail(@)]))
\* --- slices, on indices 0..(n - 1); none stands for an absent bound
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Abs(x, n) == IF x < 0 THEN x + n ELSE x
RECURSIVE Walk(_, _, _)
Walk(a, b, step) == IF (step > 0 /\ a >= b) \/ (step < 0 /\ a <= b) THEN <<>>
                    ELSE <<a>> \o Walk(a + step, b, step)
Selected(n, start, stop, step) == \* bounds are <<>> (absent) or <<x>>
  IF step > 0
  THEN Walk(IF start = <<>> THEN 0 ELSE Clip(Abs(start[1], n), 0, n),
            IF stop = <<>> THEN n ELSE Clip(Abs(stop[1], n), 0, n), step)
  ELSE Walk(IF start = <<>> THEN n - 1 ELSE Clip(Abs(start[1], n), -1, n - 1),
            IF stop = <<>> THEN -1 ELSE Clip(Abs(stop[1], n), -1, n - 1), step)
\* --- ordered sets: sequences without repetitions
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)]
                 IN IF Contains(r, x) THEN r ELSE Append(r, x)
\* --- tokenization: a text is a sequence of characters
NonSpace(s) == SelectSeq(s, LAMBDA c : c \notin {" ", "\t", "\n"})
Standalone == {"(", ")", "[", "]", "!", "?", ";", ":", "\"", "$", "%", "*", "+", "=", "<", ">"}
=============================================================================
