------------------------------ MODULE MergeMC ------------------------------
(* The heap of iterators as a state machine: each entry holds the first     *)
(* unconsumed element of an input and its rank.                             *)
EXTENDS Seqs
CONSTANTS MaxLen, NumInputs, Keys
VARIABLES inputs, heap, rest, out
vars == <<inputs, heap, rest, out>>
KeySeqs == UNION {{s \in [1..n -> Keys] : \A j \in 1..(n - 1) : s[j] <= s[j + 1]} : n \in 0..MaxLen}
Tag(m, s) == [n \in DOMAIN s |-> <<s[n], m * 10 + n>>]
Init == /\ inputs \in {[m \in 1..NumInputs |-> Tag(m, f[m])] : f \in [1..NumInputs -> KeySeqs]}
        /\ heap = {<<inputs[m][1][1], m>> : m \in {x \in 1..NumInputs : inputs[x] # <<>>}}
        /\ rest = inputs /\ out = <<>>
Best(e) == \A f \in heap : e[1] < f[1] \/ (e[1] = f[1] /\ e[2] <= f[2])
Step == \E e \in heap : Best(e) /\
   LET m == e[2] t == Tail(rest[m]) IN
   /\ out' = Append(out, Head(rest[m])) /\ rest' = [rest EXCEPT ![m] = t]
   /\ heap' = (heap \ {e}) \cup (IF t = <<>> THEN {} ELSE {<<t[1][1], m>>})
   /\ UNCHANGED inputs
Next == Step
Spec == Init /\ [][Next]_vars
IsPrefixOfMerge == IsPrefix(out, StableMerge(inputs))
Complete == heap = {} => out = StableMerge(inputs)
=============================================================================
