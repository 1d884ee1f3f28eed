----------------------------- MODULE MergeSumMC -----------------------------
(* Files of weighted keys, each sorted, are merged into a single stream;    *)
(* runs of the same key are summed as they arrive.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, MaxLen, NumFiles
VARIABLES files, pos, key, sum, out
vars == <<files, pos, key, sum, out>>
SortedSeqs == UNION {{s \in [1..n -> Keys \X (1..2)] : \A a \in 1..(n - 1) : s[a][1] <= s[a + 1][1]} : n \in 0..MaxLen}
Init == files \in [1..NumFiles -> SortedSeqs] /\ pos = [f \in 1..NumFiles |-> 1] /\ key = 0 /\ sum = 0 /\ out = <<>>
Open == {f \in 1..NumFiles : pos[f] <= Len(files[f])}
Cur(f) == files[f][pos[f]]
Take == \E f \in Open : /\ \A h \in Open : Cur(f)[1] <= Cur(h)[1]
   /\ pos' = [pos EXCEPT ![f] = @ + 1] /\ files' = files
   /\ IF Cur(f)[1] = key THEN sum' = sum + Cur(f)[2] /\ UNCHANGED <<key, out>>
      ELSE key' = Cur(f)[1] /\ sum' = Cur(f)[2] /\ out' = (IF key = 0 THEN out ELSE Append(out, <<key, sum>>))
Finish == Open = {} /\ key # 0 /\ out' = Append(out, <<key, sum>>) /\ key' = 0 /\ sum' = 0 /\ UNCHANGED <<files, pos>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(s, k) == IF s = <<>> THEN 0 ELSE (IF s[1][1] = k THEN s[1][2] ELSE 0) + Total(Tail(s), k)
RECURSIVE TotalAll(_, _)
TotalAll(n, k) == IF n = 0 THEN 0 ELSE Total(files[n], k) + TotalAll(n - 1, k)
Correct == Open = {} /\ key = 0 =>
   /\ \A a \in 1..(Len(out) - 1) : out[a][1] < out[a + 1][1]
   /\ {out[a][1] : a \in DOMAIN out} = {k \in Keys : TotalAll(NumFiles, k) > 0}
   /\ \A a \in DOMAIN out : out[a][2] = TotalAll(NumFiles, out[a][1])
=============================================================================
