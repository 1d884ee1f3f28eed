------------------------------ MODULE TbTransMC ------------------------------
(* State machine: a small annotated tree is transformed and restored.       *)
EXTENDS TbTransforms
CONSTANTS MaxN, Discont, MaxNodes
VARIABLES orig, name, cur, stage
vars == <<orig, name, cur, stage>>
\* labels and functions relevant to each transformation
Phr(nm) == CASE nm = "PP-NP" -> {"PP", "NP", "AP"} [] nm = "DP" -> {"NP", "AP", "DP"} [] nm = "SBAR" -> {"S", "VP", "SBAR"}
  [] nm = "NEST" -> {"NP", "AVP"} [] nm = "POS-PART" -> {"S", "VP"} [] nm = "VP-FIN_NEGRA" -> {"S", "VP", "CS"}
  [] nm = "addUnary" -> {"S", "NP", "PN"} [] nm = "nladdunary" -> {"PP", "NP", "SMAIN"}
  [] nm = "elimNKCJ" -> {"NP", "CNP", "S"} [] nm = "nlelimcnj" -> {"CONJ", "NP"} [] nm = "NP-PP" -> {"NP", "PP"}
  [] nm = "ftbraisecompl" -> {"VPinf", "Ssub", "PP"} [] nm = "ftbundocompounds" -> {"MWN", "MWV", "MWADV"}
  [] nm = "ftbmakegoldpos" -> {"MWN", "NP"}
  [] nm = "S-RC" -> {"S", "NP"} [] nm = "NP" -> {"S", "NP"} [] nm = "VP-GF" -> {"S", "VP"} [] OTHER -> {"NP", "X"}
Tag(nm) == CASE nm = "PP-NP" -> {"APPR", "NN"} [] nm = "DP" -> {"ART", "NN", "PN"} [] nm = "SBAR" -> {"KOUS", "PTKANT"}
  [] nm = "NEST" -> {"ADV", "NN", "PRON"} [] nm = "POS-PART" -> {"VVFIN", "PTKVZ"} [] nm = "VP-FIN_NEGRA" -> {"VVFIN", "ADV"}
  [] nm = "addUnary" -> {"NN", "ADV"} [] nm = "nladdunary" -> {"n", "ww"} [] nm = "elimNKCJ" -> {"NN"}
  [] nm = "nlelimcnj" -> {"let", "n"} [] nm = "ftbraisecompl" -> {"P", "C", "PONCT"}
  [] nm \in {"ftbundocompounds", "ftbmakegoldpos"} -> {"N", "A", "P", "V"} [] OTHER -> {"NN"}
Fun(nm) == CASE nm = "PP-NP" -> {"AC", "NK", "MO"} [] nm = "SBAR" -> {"CP", "SB"} [] nm = "NEST" -> {"MO", "NK"}
  [] nm = "POS-PART" -> {"SVP", "HD"} [] nm = "VP-FIN_NEGRA" -> {"HD", "SB", "OA"} [] nm = "addUnary" -> {"SB"}
  [] nm = "nladdunary" -> {"su", "SU"} [] nm = "elimNKCJ" -> {"NK", "HD", "CJ", "CD"} [] nm = "nlelimcnj" -> {"cnj", "crd", "su"}
  [] nm \in {"S-RC", "NP", "VP-GF"} -> {"RC", ""} [] nm \in {"APPEND-FUNC", "FUNC-NODE"} -> {"SB", "OA-X", ""} [] OTHER -> {""}
Hd(nm) == IF nm \in {"POS-PART", "ftbundocompounds"} THEN BOOLEAN ELSE {FALSE}
RECURSIVE Anns(_, _, _)
Anns(nm, t, root) ==
  IF t.i >= 0 THEN {t}
  ELSE IF IsPre(t) THEN {[l |-> l, i |-> -1, k |-> t.k, f |-> f, m |-> "*.Acc", e |-> "lem", h |-> h] : l \in Tag(nm), f \in Fun(nm), h \in Hd(nm)}
  ELSE {[l |-> l, i |-> -1, k |-> ks, f |-> f, m |-> "", e |-> "", h |-> h] :
        l \in (IF root THEN {"ROOT"} ELSE Phr(nm)), f \in (IF root THEN {""} ELSE Fun(nm)), h \in (IF root THEN {FALSE} ELSE Hd(nm)),
        ks \in TreeTuples([n \in DOMAIN t.k |-> Anns(nm, t.k[n], FALSE)])}
Shapes == {t \in UNION {Rooted(TreesOver(0..(n - 1), {"A"}, 0, Discont)) : n \in 1..MaxN} : Len(Nodes(t)) <= MaxNodes}
W == <<"1998", ".", "haus", "?">>
Init == /\ name \in Names
        /\ \E s \in Shapes : orig \in Anns(name, s, TRUE)
        /\ cur = orig /\ stage = "original"
Transform == stage = "original" /\ cur' = Trans(<<name>>, cur, W) /\ stage' = "transformed"
Restore == stage = "transformed" /\ cur' = RevTrans(<<name>>, cur) /\ stage' = "restored"
Next == (Transform \/ Restore) /\ UNCHANGED <<orig, name>>
Spec == Init /\ [][Next]_vars
Tokens == Yield(cur) = Yield(orig) /\ WellFormed(cur) /\ IsCanonical(cur)
Undone == (stage = "restored" /\ Undoable(name, orig)) => Shown(cur) = Shown(orig)
\* relabelling only extends labels
RECURSIVE Extends(_, _)
Extends(a, b) == IF a.i >= 0 THEN a.i = b.i ELSE HasPrefix(a.l, b.l) /\ Len(a.k) = Len(b.k) /\ \A n \in DOMAIN a.k : Extends(a.k[n], b.k[n])
OnlyLabels == (stage = "transformed" /\ name \in Relabelling) => Extends(cur, orig)
==============================================================================
