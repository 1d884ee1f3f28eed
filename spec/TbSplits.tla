----------------------------- MODULE TbSplits -----------------------------
(* State splits: what each adds to the label of a constituent, given the    *)
(* whole tree, the position of the constituent (a sequence of child         *)
(* indices) and the words.                                                  *)
EXTENDS TbTransforms
RECURSIVE Sub(_, _)
Sub(t, p) == IF p = <<>> THEN t ELSE Sub(t.k[p[1]], Tail(p))
RECURSIVE Poss(_, _)
\* positions of constituents below p, in preorder
Poss(t, p) == IF t.i >= 0 THEN <<>> ELSE <<p>> \o Cat([n \in DOMAIN t.k |-> Poss(t.k[n], Append(p, n))])
Lower(w) == CASE w = "But" -> "but" [] w = "Is" -> "is" [] w = "Von" -> "von" [] w = "ENTWEDER" -> "entweder"
   [] w = "Unter" -> "unter" [] w = "HAVE" -> "have" [] OTHER -> w
Children(t) == IF IsWord(t) THEN <<>> ELSE t.k
Funs(t) == IF t.f \in {"", "--"} THEN {} ELSE
  LET RECURSIVE parts(_)
      parts(s) == LET d == Idx(s, "-", 1) IN IF d = 0 THEN {s} ELSE {SubSeq(s, 1, d - 1)} \cup parts(SubSeq(s, d + 1, Len(s)))
  IN parts(t.f)
StripIn(t, labels) == StripL(t.l) \in labels
\* the first child which is a head (0 if none)
HeadOf(t) == FirstIn(Children(t), LAMBDA x : x.h)
DeForms == {"de", "De", "des", "Des", "du", "d'"}
BeForms == {"is", "am", "are", "was", "were", "'m", "'re", "being", "be", "been"}
HaveForms == {"have", "'ve", "having", "has", "had", "'d"}
Verbs == {"VBZ", "VBP", "VBD", "VBN", "VBG", "VB"}
RelPron == {"PRELS", "PRELAT", "PWAV", "PWS"}
MorphFeats(m) ==
  LET s == Square(m) a == Idx(s, "[", 1) b == Idx(s, "]", 1)
      RECURSIVE parts(_)
      parts(x) == LET d == Idx(x, ",", 1) IN IF d = 0 THEN {x} ELSE {SubSeq(x, 1, d - 1)} \cup parts(SubSeq(x, d + 1, Len(x)))
  IN IF a = 0 \/ b = 0 THEN {} ELSE parts(SubSeq(SwapChr(s, 1, ".", ","), a + 1, b - 1))
RECURSIVE Times(_, _)
Times(n, s) == IF n = 0 THEN "" ELSE s \o Times(n - 1, s)
\* ancestors of position p: all proper prefixes
Above(p) == {SubSeq(p, 1, n) : n \in 0..(Len(p) - 1)}
\* the position reached by following heads down from position p while they satisfy more(_)
RECURSIVE Follow(_, _)
Follow(r, p) == LET t == Sub(r, p) h == HeadOf(t) IN
  IF h = 0 THEN p
  ELSE IF StripL(t.k[h].l) = "POS" /\ h > 1 THEN Follow(r, Append(p, h - 1))
  ELSE Follow(r, Append(p, h))
RECURSIVE ChainNP(_, _)
\* positions of the NPs on the path of heads from p
ChainNP(r, p) == IF ~BaseIs(Sub(r, p), "NP") THEN {}
  ELSE {p} \cup (IF HeadOf(Sub(r, p)) = 0 THEN {} ELSE ChainNP(r, Append(p, HeadOf(Sub(r, p)))))
AdvPath(r, p) == LET t == Sub(r, p) h == HeadOf(t) IN
  IF h = 0 THEN {} ELSE IF BaseIs(t.k[h], "POS") /\ h > 1 THEN ChainNP(r, Append(p, h - 1)) ELSE ChainNP(r, Append(p, h))
Attached(par) == IF StripIn(par, {"S", "VP"}) THEN "^V" ELSE IF StripIn(par, {"NP", "PP"}) THEN "^N" ELSE "^0"
IsAdj(t) == StripIn(t, {"PP", "AVP", "ADV", "ADJD"})
IsRel(t) == BaseIs(t, "S") /\ Fn(t) = "RC"
\* the first relative pronoun below p (<<-1>> when there is none)
Pron(r, p) == LET c == SelectSeq(Poss(Sub(r, p), p), LAMBDA q : StripIn(Sub(r, q), RelPron)) IN IF c = <<>> THEN <<-1>> ELSE c[1]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
SeenNPs(t) == Cardinality({n \in DOMAIN t.k : HasPrefix(t.k[n].l, "NP")})
Gapped(t) ==
  LET np(x) == HasPrefix(x.l, "NP")
      pred(x) == ~np(x) /\ StripIn(x, {"VP", "ADJP", "PP", "UCP"})
      cc(x) == ~np(x) /\ ~pred(x) /\ HasPrefix(x.l, "CC")
      s(x) == ~np(x) /\ ~pred(x) /\ ~cc(x) /\ HasPrefix(x.l, "S")
      any(p(_)) == \E n \in DOMAIN t.k : p(t.k[n]) IN
  ~(any(cc) /\ any(s)) /\ (SeenNPs(t) = 0 \/ (SeenNPs(t) = 1 /\ ~any(pred)))
IsS(word) == word \in {"'s", "s"}
\* 's is a form of have when followed by a VP with a participle or past tense
PerfS(par) ==
  LET a == FirstIn(par.k, LAMBDA x : HasPrefix(x.l, "VBZ")) IN
  a > 0 /\ \E n \in (a + 1)..Len(par.k) : BaseIs(par.k[n], "VP") /\ \E x \in DOMAIN par.k[n].k :
     par.k[n].k[x].i < 0 /\ StripIn(par.k[n].k[x], {"VBD", "VBN"})
Seq3(t, a, b, c) == Len(t.k) = 3 /\ StripL(t.k[1].l) = a /\ StripL(t.k[2].l) = b /\ StripL(t.k[3].l) = c
Seq2(t, a, b) == Len(t.k) = 2 /\ StripL(t.k[1].l) = a /\ StripL(t.k[2].l) = b
HeadFuncs == {"HD", "PNC", "AC", "AVC", "NMC", "PH", "PD", "ADC", "UC", "DH"}

Ext(name, r, p, w) ==
  LET t == Sub(r, p)
      root == p = <<>>
      par == IF root THEN New("", <<>>) ELSE Sub(r, Front(p))
      gpar == IF Len(p) < 2 THEN New("", <<>>) ELSE Sub(r, Front(Front(p)))
      at == IF root THEN 0 ELSE p[Len(p)]
      pre == IsWord(t)
      word == IF pre THEN w[t.k[1].i + 1] ELSE ""
      low == Lower(word)
      ks == Children(t)
      hd == HeadOf(t)
      first(p1(_)) == ~root /\ at = FirstIn(par.k, p1) IN
  CASE name = "lexPrep" ->
         IF ~pre THEN ""
         ELSE IF BaseIs(t, "APPR") THEN
            IF low \in {"in", "von", "auf", "durch", "um", "unter", "unters", "unterm"} THEN "^" \o low ELSE ""
         ELSE IF BaseIs(t, "KON") /\ Fn(t) = "CD" /\ (low \in {"sowohl", "als", "weder", "entweder", "noch"}
                 \/ (low = "oder" /\ \E n \in 1..t.k[1].i : Lower(w[n]) = "entweder")) THEN "^" \o low ELSE ""
    [] name = "adjAttach" ->
         (IF ~root /\ StripL(par.l) = "AVP" /\ at = HeadOf(par) THEN Attached(IF Len(p) < 2 THEN New("", <<>>) ELSE gpar) ELSE "")
         \o (IF IsAdj(t) THEN Attached(par) ELSE "")
    [] name = "relPath" ->
         Times(Cardinality({a \in Above(p) : IsRel(Sub(r, a)) /\ Prefix(p, Pron(r, a)) /\ p # Pron(r, a)}), "^rel")
         \o (IF ~IsRel(t) THEN "" ELSE IF Pron(r, p) = <<-1>> THEN "^norel" ELSE "^rel")
    [] name = "whFeat" -> IF StripIn(t, {"NP", "PP"}) /\ \E n \in DOMAIN ks : StripIn(ks[n], {"PWAT", "PWS", "PWAV"}) THEN "^wh" ELSE ""
    [] name = "nounSeq" -> IF ~root /\ BaseIs(par, "NP") /\ at < Len(par.k)
         /\ BaseIs(t, "NN") /\ BaseIs(par.k[at + 1], "NN")
         /\ \A n \in 1..(at - 1) : ~(BaseIs(par.k[n], "NN") /\ BaseIs(par.k[n + 1], "NN")) THEN "^seq" ELSE ""
    [] name = "properChunks" -> IF ~root /\ BaseIs(par, "NP") /\ Fn(par) = "PNC" THEN "^name" ELSE ""
    [] name = "markAP" -> IF ~BaseIs(t, "AP") THEN "" ELSE
         (IF \E x \in NodeSet(t) : BaseIs(x, "ADJD") THEN "^pred" ELSE "")
         \o (IF \E n \in DOMAIN ks : ks[n].h /\ StripIn(ks[n], {"NN", "NP"}) THEN "^nom" ELSE "")
    [] name = "subConjType" -> IF ~root /\ BaseIs(par, "S") /\ Fn(par) \in {"SB", "OC", "MO", "RE"}
         /\ first(LAMBDA x : BaseIs(x, "KOUS")) THEN "^" \o Fn(par) ELSE ""
    [] name = "VPfeat" -> IF BaseIs(t, "VP") /\ Fn(t) = "OC" /\ hd > 0 THEN "^" \o StripL(ks[hd].l) ELSE ""
    [] name = "noHead" -> IF ~root /\ ~pre /\ \A n \in DOMAIN ks : Fn(ks[n]) \notin HeadFuncs THEN "^nohead" ELSE ""
    [] name = "noSubj" -> IF ~pre /\ BaseIs(t, "S") /\ Fn(t) = "CJ" /\ \A n \in DOMAIN ks :
         Fn(ks[n]) \notin {"SB", "EP"} /\ ~StripIn(ks[n], {"VVIMP", "VAIMP"}) THEN "^nosubj" ELSE ""
    \* Dutch
    [] name = "nlpercolatemorph" ->
         LET below(f) == ~root /\ ~pre /\ \E n \in DOMAIN ks :
                 \/ IsWord(ks[n]) /\ f \in MorphFeats(ks[n].m)
                 \/ \E m \in DOMAIN Children(ks[n]) : IsWord(ks[n].k[m]) /\ f \in MorphFeats(ks[n].k[m].m) IN
         (IF below("inf") THEN "^inf" ELSE "") \o (IF below("pv") THEN "^pv" ELSE "")
    [] name = "nlmwuhead" -> IF ~StripIn(t, {"MWU"}) THEN "" ELSE "^" \o StripL(ks[IF hd > 0 THEN hd ELSE Len(ks)].l)
    \* English
    [] name = "S-WH" -> IF t.l = "S" /\ par.l = "SBAR" /\ \E n \in DOMAIN ks : HasPrefix(ks[n].l, "WH") THEN "^WH" ELSE ""
    [] name = "VP-HD" -> IF t.l # "VP" THEN "" ELSE LET l == ks[hd].l IN
         CASE l = "VB" -> "^HINF" [] l = "TO" -> "^HTO" [] l \in {"VBN", "VBG"} -> "^HPART" [] OTHER -> ""
    [] name = "S-INF" -> IF t.l = "S" /\ ks[hd].l \in {"VP^HINF", "VP^HTO"} THEN "^INF" ELSE ""
    [] name = "splitPercent" -> IF pre /\ word = "%" THEN "^%" ELSE ""
    [] name = "splitPoss" -> IF BaseIs(t, "NP") /\ HasPrefix(ks[Len(ks)].l, "POS") THEN "^P" ELSE ""
    [] name = "splitCC" -> IF ~BaseIs(t, "CC") THEN "" ELSE IF low = "but" THEN "^B" ELSE IF word = "&" THEN "^A" ELSE ""
    [] name = "unaryDT" -> IF BaseIs(t, "DT") /\ Len(par.k) = 1 THEN "^U" ELSE ""
    [] name = "unaryRB" -> IF BaseIs(t, "RB") /\ Len(par.k) = 1 THEN "^U" ELSE ""
    [] name = "splitAux" -> IF ~pre \/ ~StripIn(t, Verbs) THEN ""
         ELSE IF low \in BeForms \cup {"'s"} THEN "^BE" ELSE IF low \in HaveForms THEN "^HV" ELSE ""
    [] name = "splitAux2" -> IF ~pre \/ ~StripIn(t, Verbs) THEN ""
         ELSE IF IsS(low) THEN (IF PerfS(par) THEN "^HV" ELSE "^BE")
         ELSE IF low \in BeForms \cup {"ai"} THEN "^BE" ELSE IF low \in HaveForms THEN "^HV" ELSE ""
    [] name = "splitVP" -> IF ~BaseIs(t, "VP") \/ hd = 0 THEN ""
         ELSE IF StripIn(ks[hd], {"VBZ", "VBP", "VBD", "MD"}) THEN "^VBF" ELSE "^" \o StripL(ks[hd].l)
    [] name = "splitVP3" -> IF ~BaseIs(t, "VP") \/ hd = 0 THEN ""
         ELSE IF StripIn(ks[hd], {"VBZ", "VBP", "VBD", "MD"}) THEN "^VBF"
         ELSE IF StripIn(ks[hd], {"TO", "VBG", "VBN", "VB"}) THEN "^" \o StripL(ks[hd].l) ELSE ""
    [] name = "splitSGapped" -> IF BaseIs(t, "S") /\ Gapped(t) THEN "^G" ELSE ""
    [] name = "splitTMP" ->
         Times(Cardinality({a \in Above(p) : "TMP" \in Funs(Sub(r, a)) /\ Follow(r, a) = p /\ HasPrefix(t.l, "N")}), "^TMP")
         \o (IF "TMP" \in Funs(t) THEN "^TMP" ELSE "")
    [] name = "splitBaseNP" -> IF BaseIs(t, "NP") /\ ~pre /\ \A n \in DOMAIN ks : IsWord(ks[n]) THEN "^B" ELSE ""
    [] name = "dominatesV" -> IF BaseIs(t, "VP") /\ \E x \in NodeSet(t) : IsWord(x) /\ (HasPrefix(x.l, "V") \/ HasPrefix(x.l, "MD")) THEN "^v" ELSE ""
    [] name = "splitNPADV" ->
         Times(Cardinality({a \in Above(p) : BaseIs(Sub(r, a), "NP") /\ "ADV" \in Funs(Sub(r, a)) /\ p \in AdvPath(r, a)})
               + (IF BaseIs(t, "NP") /\ "ADV" \in Funs(t) THEN 1 ELSE 0), "^ADV")
    [] name = "markDitransV" -> IF HasPrefix(t.l, "VB")
         /\ Cardinality({n \in DOMAIN par.k : BaseIs(par.k[n], "NP") /\ "TMP" \notin Funs(par.k[n])}) >= 2 THEN "^2Arg" ELSE ""
    \* French
    [] name = "markinf" -> IF StripL(t.l) = "V" /\ StripL(par.l) = "VN" /\ StripL(gpar.l) = "VPinf" THEN "^infinitive" ELSE ""
    [] name = "markpart" -> IF StripL(t.l) = "V" /\ StripL(par.l) = "VN" /\ StripL(gpar.l) = "VPpart" THEN "^participle" ELSE ""
    [] name = "markvn" -> Times(Cardinality({a \in Above(p) : StripL(Sub(r, a).l) = "VN"}), "^withVN")
    [] name = "coord1" -> IF StripL(t.l) = "COORD" /\ Len(ks) >= 2 THEN "^" \o StripL(ks[2].l) ELSE ""
    [] name = "de2" -> IF StripL(t.l) = "P" /\ pre /\ word \in DeForms THEN "^de2" ELSE ""
    [] name = "de3" -> IF StripIn(t, {"PP", "COORD"}) /\ \E n \in 2..Len(p) :
            \* the ancestors up to the n-th are NPs and PPs; the last one is a PP
            /\ \A m \in 1..n : StripIn(Sub(r, SubSeq(p, 1, Len(p) - m)), {"NP", "PP"})
            /\ LET a == Sub(r, SubSeq(p, 1, Len(p) - n)) IN
               StripL(a.l) = "PP" /\ StripL(a.k[1].l) = "P" /\ w[a.k[1].k[1].i + 1] \in DeForms THEN "^de3" ELSE ""
    [] name = "markp1" -> IF StripL(t.l) = "P" /\ StripL(par.l) = "PP" /\ StripL(gpar.l) = "NP" THEN "^n" ELSE ""
    [] name = "mwadvs" -> IF StripL(t.l) = "MWADV" /\ Idx(par.l, "S", 1) > 0 THEN "^mwadv-s" ELSE ""
    [] name = "mwadvsel1" -> IF StripL(t.l) = "MWADV" /\ Seq2(t, "P", "N") THEN "^mwadv1" ELSE ""
    [] name = "mwadvsel2" -> IF StripL(t.l) = "MWADV" /\ Seq3(t, "P", "D", "N") THEN "^mwadv2" ELSE ""
    [] name = "mwnsel1" -> IF StripL(t.l) = "MWN" /\ Seq2(t, "N", "A") THEN "^mwn1" ELSE ""
    [] name = "mwnsel2" -> IF StripL(t.l) = "MWN" /\ Seq3(t, "N", "P", "N") THEN "^mwn2" ELSE ""
    [] name = "mwnsel3" -> IF StripL(t.l) = "MWN" /\ Len(ks) = 3 /\ StripL(ks[1].l) = "N" /\ StripL(ks[3].l) = "N"
         /\ IsWord(ks[2]) /\ w[ks[2].k[1].i + 1] = "-" THEN "^mwn3" ELSE ""
    [] OTHER -> ""
Splitting == {"lexPrep", "adjAttach", "relPath", "whFeat", "nounSeq", "properChunks", "markAP", "subConjType", "VPfeat", "noHead",
  "noSubj", "nlpercolatemorph", "nlmwuhead", "S-WH", "VP-HD", "S-INF", "splitPercent", "splitPoss", "splitCC", "unaryDT", "unaryRB",
  "splitAux", "splitAux2", "splitVP", "splitVP3", "splitSGapped", "splitTMP", "splitBaseNP", "dominatesV", "splitNPADV",
  "markDitransV", "markinf", "markpart", "markvn", "coord1", "de2", "de3", "markp1", "mwadvs", "mwadvsel1", "mwadvsel2",
  "mwnsel1", "mwnsel2", "mwnsel3"}
RECURSIVE Split(_, _, _, _, _)
Split(name, r, t, p, w) == IF t.i >= 0 THEN t ELSE
  [t EXCEPT !.l = @ \o Ext(name, r, p, w), !.k = TLCEval([n \in DOMAIN @ |-> Split(name, r, t.k[n], Append(p, n), w)])]
SplitAll(names, t, w) == FoldLeft(LAMBDA a, b :
  TLCEval(IF b \in Splitting THEN Split(b, a, a, <<>>, w) ELSE Trans1(b, a, w)), t, names)
=============================================================================
