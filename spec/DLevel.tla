------------------------------- MODULE DLevel -------------------------------
(* Syntactic complexity (D-level) of Alpino trees: the highest level of      *)
(* which a condition holds.  Constituents carry                              *)
(*   f  functions   m  morphology   e  lemma                                 *)
(*   d  identifier ("" for words)   s  secondary edges <<function, parent>>  *)
EXTENDS TbSplits
Verb(x) == IsWord(x) /\ StripL(x.l) = "ww"
Conj(x) == IsWord(x) /\ StripL(x.l) = "vg"
Finite(x) == Verb(x) /\ "pv" \in MorphFeats(x.m)
Coordinating(x) == Conj(x) /\ "neven" \in MorphFeats(x.m)
Subordinating(x) == Conj(x) /\ "onder" \in MorphFeats(x.m) /\ x.e # "dat"
HowMany(t, p(_)) == Len(SelectSeq(Nodes(t), p))
Below(t, p(_, _)) == \E x \in NodeSet(t) : ~IsWord(x) /\ \E n \in DOMAIN x.k : p(x.k[n], x)
NonFin == {"TI", "OTI", "INF"}
\* a non-finite complement whose subject is the sister with function f
Coindexed(t, f) == Below(t, LAMBDA c, p :
  /\ Fn(c) = "vc" /\ StripL(c.l) \in NonFin
  /\ \E n \in DOMAIN p.k : Fn(p.k[n]) = f /\ \E x \in DOMAIN p.k[n].s : p.k[n].s[x] = <<"su", c.d>>)
RelOf(t, f) == Below(t, LAMBDA c, p : (StripL(c.l) = "REL" /\ Fn(c) = "mod" /\ Fn(p) = f)
                            \/ (StripL(c.l) = "ww" /\ Fn(p) = f /\ StripL(p.l) = "NP"))
Holds(t, lev) ==
  CASE lev = 7 -> HowMany(t, Finite) - HowMany(t, Coordinating) > 2
    [] lev = 6 -> RelOf(t, "su") \/ Below(t, LAMBDA c, p : Fn(c) = "su" /\ StripL(c.l) \in {"CP", "WHSUB", "WHREL"} \cup NonFin)
    [] lev = 5 -> \E x \in NodeSet(t) : Subordinating(x)
    [] lev = 4 -> Below(t, LAMBDA c, p : Fn(c) = "obcomp") \/ Coindexed(t, "obj1")
    [] lev = 3 -> RelOf(t, "obj1") \/ Below(t, LAMBDA c, p :
                    (Fn(c) = "sup" /\ StripL(c.l) # "ww") \/ (Fn(c) = "vc" /\ StripL(c.l) \in {"CP", "WHSUB"}))
    [] lev = 2 -> \E x \in NodeSet(t) : Coordinating(x)
    [] lev = 1 -> Coindexed(t, "su")
    [] lev = 0 -> TRUE
Level(t) == Max({lev \in 0..7 : Holds(t, lev)})
=============================================================================
