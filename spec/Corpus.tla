------------------------------- MODULE Corpus -------------------------------
(* A corpus is a set of files, each a sequence of sentences.  Readers       *)
(* present the concatenation of the files, ordered by name; identifiers are *)
(* consecutive numbers or come from the sentence and file.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions
Ch(s, n) == SubSeq(s, n, n)
\* characters in the order of their code points
Ascii == " -./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Ord(c) == CHOOSE n \in 1..Len(Ascii) : Ch(Ascii, n) = c
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
  ELSE Ord(Ch(a, 1)) < Ord(Ch(b, 1))
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Seps == {"-", ".", ",", "_", " "}
IsNumber(s) == s # "" /\ \A n \in 1..Len(s) : Ch(s, n) \in Digits
RECURSIVE Val(_, _)
Val(s, acc) == IF s = "" THEN acc ELSE Val(SubSeq(s, 2, Len(s)), 10 * acc + (CHOOSE d \in 0..9 : ToString(d) = Ch(s, 1)))
RECURSIVE SplitAt(_, _)
SplitAt(s, from) == IF \A n \in from..Len(s) : Ch(s, n) \notin Seps THEN <<SubSeq(s, from, Len(s))>>
  ELSE LET n == Min({m \in from..Len(s) : Ch(s, m) \in Seps}) IN <<SubSeq(s, from, n - 1)>> \o SplitAt(s, n + 1)
\* without extension: the last dot, unless it is at the start
Stem(s) == LET ds == {n \in 2..Len(s) : Ch(s, n) = "."} IN IF ds = {} THEN s ELSE SubSeq(s, 1, Max(ds) - 1)
Comps(name) == TLCEval(SplitAt(Stem(name), 1))
\* names with numbers and names with words in the same place
Mixed(a, b) == LET d == {n \in 1..Min({Len(a), Len(b)}) : IF IsNumber(a[n]) /\ IsNumber(b[n]) THEN Val(a[n], 0) # Val(b[n], 0) ELSE a[n] # b[n]}
  IN d # {} /\ LET n == Min(d) IN IsNumber(a[n]) # IsNumber(b[n])
RECURSIVE CompLess(_, _)
CompLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF IsNumber(a[1]) /\ IsNumber(b[1])
       THEN Val(a[1], 0) < Val(b[1], 0) \/ (Val(a[1], 0) = Val(b[1], 0) /\ CompLess(Tail(a), Tail(b)))
  ELSE StrLess(a[1], b[1]) \/ (a[1] = b[1] /\ CompLess(Tail(a), Tail(b)))
\* ns: sequence of distinct <<dir, name>>; the order in which they are read
Ordered(ns) ==
  LET mixed == \E a, b \in DOMAIN ns : ns[a][1] = ns[b][1] /\ Mixed(Comps(ns[a][2]), Comps(ns[b][2]))
      full(f) == f[1] \o "/" \o f[2]
      less(f, g) == IF mixed THEN StrLess(full(f), full(g))
                    ELSE StrLess(f[1], g[1]) \/ (f[1] = g[1] /\ CompLess(Comps(f[2]), Comps(g[2])))
  IN SortSeq(ns, less)
\* sentences from..to-1 counting from 0; -1: open
Slice(s, from, to) == LET b == IF to < 0 THEN Len(s) ELSE Min({to, Len(s)}) IN SubSeq(s, from + 1, b)
=============================================================================
