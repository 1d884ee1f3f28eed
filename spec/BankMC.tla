------------------------------- MODULE BankMC -------------------------------
(* A treebank read tree by tree; frequencies of productions accumulate.     *)
EXTENDS Lcfrs
CONSTANTS MaxN, MaxTrees
VARIABLES bank, freq
vars == <<bank, freq>>
Trees0 == UNION {Rooted(TreesOver(0..(m - 1), {"A", "p"}, 1, TRUE)) : m \in 1..MaxN}
Word(p) == <<"a", "b", "a", "c", "d">>[p + 1]
Init == bank = <<>> /\ freq = <<>>
Add(f, p) == (p :> ((IF p \in DOMAIN f THEN f[p] ELSE 0) + 1)) @@ f
Next == Len(bank) < MaxTrees /\ \E t \in Trees0 : bank' = Append(bank, t)
         /\ freq' = FoldLeft(Add, freq, Productions(t, Word))
Spec == Init /\ [][Next]_vars
All == Cat([n \in DOMAIN bank |-> Productions(bank[n], Word)])
Mass(lhs) == FoldSet(LAMBDA p, acc : acc + freq[p], 0, {p \in DOMAIN freq : p.r[1] = lhs})
Exact == LET a == TLCEval(All) IN DOMAIN freq = ToSet(a) /\ \A p \in DOMAIN freq : freq[p] = Cardinality({n \in DOMAIN a : a[n] = p})
\* the frequency mass of a label is the number of nodes with it, so that the
\* relative frequencies of its productions sum to one
MassIsNodes == LET labs == Cat([n \in DOMAIN bank |-> Labels(bank[n])]) IN
   \A x \in ToSet(labs) : Mass(x) = Cardinality({n \in DOMAIN labs : labs[n] = x})
\* what goes into a nonterminal comes out: every occurrence on the right hand
\* side is expanded, roots are not on the right hand side
Balance == \A x \in {p.r[1] : p \in DOMAIN freq} :
   Mass(x) = FoldSet(LAMBDA p, acc : acc + freq[p] * Cardinality({m \in 2..Len(p.r) : p.r[m] = x}), 0, DOMAIN freq)
           + (IF x = "ROOT" THEN Len(bank) ELSE 0)
=============================================================================
