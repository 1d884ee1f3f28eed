---------------------------- MODULE TbTransforms ----------------------------
(* Named treebank transformations and their inverses.  Constituents carry   *)
(*   f  function ("" for none)    m  morphology    e  lemma                  *)
(*   h  whether it is the head of its parent                                 *)
EXTENDS Trees
TChr(s, n) == SubSeq(s, n, n)
RECURSIVE Idx(_, _, _)
Idx(s, c, n) == IF n > Len(s) THEN 0 ELSE IF TChr(s, n) = c THEN n ELSE Idx(s, c, n + 1)
New(l, k) == TLCEval([l |-> l, i |-> -1, k |-> k, f |-> "", m |-> "", e |-> "", h |-> FALSE])
With(t, k) == TLCEval([t EXCEPT !.k = k])
StripL(l) == LET d == Idx(l, "-", 1) c == Idx(l, "^", 1) IN
   IF d > 0 THEN SubSeq(l, 1, d - 1) ELSE IF c > 0 THEN SubSeq(l, 1, c - 1) ELSE l
Fn(t) == LET d == Idx(t.f, "-", 1) IN IF d > 0 THEN SubSeq(t.f, 1, d - 1) ELSE t.f
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
BaseIs(t, x) == t.l = x \/ HasPrefix(t.l, x \o "^") \/ HasPrefix(t.l, x \o "-")
Sel(ss, p(_)) == SelectSeq(ss, p)
Orelse(a, b) == IF a = "" THEN b ELSE a
IsWord(t) == IsPre(t)
LabelsOf(ss) == {ss[n].l : n \in DOMAIN ss}
FirstIn(ss, p(_)) == IF \E n \in DOMAIN ss : p(ss[n]) THEN Min({n \in DOMAIN ss : p(ss[n])}) ELSE 0
LastIn(ss, p(_)) == IF \E n \in DOMAIN ss : p(ss[n]) THEN Max({n \in DOMAIN ss : p(ss[n])}) ELSE 0
Drop(ss, n) == SubSeq(ss, n + 1, Len(ss))
Take(ss, n) == SubSeq(ss, 1, n)
Part(s, c) == LET n == Idx(s, c, 1) IN IF n = 0 THEN <<s>> ELSE <<SubSeq(s, 1, n - 1), SubSeq(s, n + 1, Len(s))>>
RECURSIVE SwapChr(_, _, _, _)
SwapChr(s, n, a, b) == IF n > Len(s) THEN "" ELSE (IF TChr(s, n) = a THEN b ELSE TChr(s, n)) \o SwapChr(s, n + 1, a, b)
Square(s) == SwapChr(SwapChr(s, 1, "(", "["), 1, ")", "]")
Round(s) == SwapChr(SwapChr(s, 1, "[", "("), 1, "]", ")")
\* words are made safe for use as labels
EscLemma(s) == SwapChr(s, 1, "\n", " ")

-----------------------------------------------------------------------------
(* Transformations                                                          *)
\* which (unordered) material stays in the PP: prepositions and what is outside of them
PPOutside(ks) ==
  LET ac == {n \in DOMAIN ks : Fn(ks[n]) = "AC"} nk == {n \in DOMAIN ks : Fn(ks[n]) = "NK"} IN
  IF ac = {} \/ nk = {} THEN ac
  ELSE ac \cup (IF Min(ac) < Min(nk) THEN 1..Min(ac) ELSE {})
          \cup (IF Max(ac) > Max(nk) THEN Max(ac)..Len(ks) ELSE {})
IntroNP(t) ==
  LET ac == PPOutside(t.k)
      idx == [n \in DOMAIN t.k |-> n]
      a == SelectSeq(idx, LAMBDA n : n \in ac)
      b == SelectSeq(idx, LAMBDA n : n \notin ac) IN
  IF t.l = "PP" /\ a # <<>> /\ b # <<>> /\ (Len(b) > 1 \/ t.k[b[1]].l \notin {"NP", "PN"})
  THEN With(t, [n \in DOMAIN a |-> t.k[a[n]]] \o <<New("NP", [n \in DOMAIN b |-> t.k[b[n]]])>>)
  ELSE t
IntroDP(t) ==
  IF t.l # "NP" \/ t.k[1].i >= 0 \/ t.k[1].l # "ART" THEN t
  ELSE IF Len(t.k) = 1 \/ t.k[2].l = "PN" THEN [t EXCEPT !.l = "DP"]
  ELSE [t EXCEPT !.l = "DP", !.k = <<t.k[1], New("NP", Drop(t.k, 1))>>]
IntroSBAR(t) ==
  IF t.l # "S" \/ t.k[1].i >= 0 \/ Fn(t.k[1]) # "CP" \/ Len(t.k) = 1 THEN t
  ELSE [t EXCEPT !.l = "SBAR", !.k = <<t.k[1], New("S", Drop(t.k, 1))>>]
\* modifiers are adjoined one at a time; outermost first: the leftmost ones
\* when the first child is a modifier, otherwise the rightmost ones
RECURSIVE Adjoin(_, _, _)
Adjoin(l, ks, fromleft) ==
  LET isMO(x) == x.i < 0 /\ Fn(x) = "MO"
      n == IF fromleft THEN FirstIn(ks, isMO) ELSE LastIn(ks, isMO) IN
  IF n = 0 \/ Len(ks) = 1 THEN ks
  ELSE <<New(l, Adjoin(l, RemoveAt(ks, n), fromleft)), ks[n]>>
Nest(t) == IF t.l # "NP" \/ t.k[1].i >= 0 THEN t ELSE With(t, Adjoin("NP", t.k, Fn(t.k[1]) = "MO"))
Particle(t) ==
  LET isSVP(x) == x.i < 0 /\ Fn(x) = "SVP"
      p == LastIn(t.k, isSVP)
      hds == {n \in DOMAIN t.k : n # p /\ t.k[n].i < 0 /\ t.k[n].h} IN
  IF p = 0 \/ hds = {} THEN t
  ELSE LET hd == Max(hds) v == New(t.k[hd].l, <<t.k[hd], t.k[p]>>) IN
    IF t.k[hd].l = t.l THEN t ELSE With(t, RemoveAt([t.k EXCEPT ![hd] = v], p))
RECURSIVE Up(_, _)
\* bottom-up application of one of the above
Up(name, t) == IF t.i >= 0 THEN t ELSE
  LET u == With(t, [n \in DOMAIN t.k |-> Up(name, t.k[n])]) IN
  CASE name = "PP-NP" -> IntroNP(u) [] name = "DP" -> IntroDP(u) [] name = "SBAR" -> IntroSBAR(u)
    [] name = "NEST" -> Nest(u) [] name = "POS-PART" -> Particle(u) [] OTHER -> u
\* a finite VP in main clauses
ToVP == {"HD", "AC", "DA", "MO", "NG", "OA", "OA2", "OC", "OG", "PD", "VO", "SVP"}
FiniteVP(s) ==
  LET vp == SelectSeq(s.k, LAMBDA a : a.i < 0 /\ Fn(a) \in ToVP)
      rest == SelectSeq(s.k, LAMBDA a : a.i >= 0 \/ Fn(a) \notin ToVP) IN
  IF /\ \E n \in DOMAIN s.k : s.k[n].i < 0 /\ HasPrefix(s.k[n].l, "V") /\ HasSuffix(s.k[n].l, "FIN")
     /\ vp # <<>> /\ (Len(vp) # 1 \/ vp[1].l # "VP")
  THEN With(s, Append(rest, New("VP", vp))) ELSE s
FinVP(t) ==
  IF \E n \in DOMAIN t.k : t.k[n].l = "S"
  THEN With(t, [n \in DOMAIN t.k |-> IF t.k[n].l = "S" THEN FiniteVP(t.k[n]) ELSE t.k[n]])
  ELSE LET c == FirstIn(t.k, LAMBDA x : x.l = "CS") IN
    IF c = 0 THEN t ELSE With(t, [t.k EXCEPT ![c] = With(@, [n \in DOMAIN @.k |->
        IF @.k[n].l = "S" THEN FiniteVP(@.k[n]) ELSE @.k[n]])])
\* discourse markers at the start of a main clause are not described here
NoDM(t) == \A n \in DOMAIN t.k : t.k[n].l = "S" => Fn(t.k[n].k[1]) # "DM"
Nouns == {"NN", "PPER", "PDS", "PIS", "PRELS", "CARD", "PN"}
Clauses == {"S", "VP", "ROOT", "DL"}
\* French: complements of prepositions and complementizers (ftbraisecompl)
FtbPunct == {".", ",", ":", "PONCT"}
RECURSIVE Raise(_)
Raise(t) ==
  IF t.i >= 0 \/ IsWord(t) THEN t ELSE
  LET n == IF t.k[1].l \in FtbPunct THEN 2 ELSE 1
      u == IF StripL(t.l) \in {"VPinf", "VPpart"} /\ StripL(t.k[1].l) \in {"P", "P+D", "MWP"} /\ Len(t.k) > 1
           THEN [t EXCEPT !.l = "PP", !.k = <<t.k[1], New(t.l, Drop(t.k, 1))>>]
           ELSE IF StripL(t.l) = "Ssub" /\ Len(t.k) > n /\ StripL(t.k[n].l) \in {"C", "CC", "CS", "MWC"}
           THEN With(t, Append(Take(t.k, n), New("Sint", Drop(t.k, n))))
           ELSE t IN
  With(u, [x \in DOMAIN u.k |-> Raise(u.k[x])])
\* French: compounds with a regular pattern are rewritten as phrases (ftbundocompounds)
RECURSIVE Ends(_, _, _)
\* patterns over sequences of labels: where a match of pattern x may end when it starts at one of the positions at
Ends(x, s, at) ==
  CASE x[1] = "lit" -> {n + 1 : n \in {m \in at : m <= Len(s) /\ s[m] \in x[2]}}
    [] x[1] = "seq" -> FoldLeft(LAMBDA a, b : TLCEval(Ends(b, s, a)), at, x[2])
    [] x[1] = "opt" -> at \cup Ends(x[2], s, at)
    [] x[1] = "star" -> LET new == TLCEval(at \cup Ends(x[2], s, at)) IN IF new = at THEN at ELSE Ends(x, s, new)
L(l) == <<"lit", {l}>>
PrepP == <<"lit", {"P", "P+D"}>>
InTurn(xs) == <<"seq", xs>>
Opt(x) == <<"opt", x>>
Star(x) == <<"star", x>>
Adjs == Star(InTurn(<<L("A"), Opt(InTurn(<<L("C"), L("A")>>))>>))
PrepPhrase == <<PrepP, Opt(L("D")), Star(L("A")), L("N")>>
PatN == InTurn(<<Opt(L("D")), Star(L("A")), L("N"), Adjs,
  Opt(InTurn(PrepPhrase \o <<Adjs, Star(InTurn(<<Opt(L("C"))>> \o PrepPhrase \o <<Star(L("A"))>>))>>))>>)
PatV == InTurn(<<L("V"), Star(L("V")), Star(<<"lit", {"P", "A", "D"}>>), L("N"), Star(L("N")), Star(L("P"))>>)
PatADV == InTurn(<<PrepP, Opt(L("D")), Star(L("A")), L("N"), Opt(InTurn(PrepPhrase \o <<Star(L("A"))>>))>>)
Regular(x, t) == LET s == [n \in DOMAIN t.k |-> t.k[n].l] IN Len(s) > 1 /\ (Len(s) + 1) \in Ends(x, s, {1})
RECURSIVE NPKids(_), AsPP(_)
AsPP(s) == New("PP", <<s[1]>> \o (IF Len(s) > 1 THEN <<New("NP", NPKids(Tail(s)))>> ELSE <<>>))
NPKids(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1].l \in {"D", "ET", "N"} THEN <<s[1]>> \o NPKids(Tail(s))
  ELSE IF s[1].l = "A" THEN
    IF Len(s) > 2 /\ s[2].l = "C" /\ s[3].l = "A"
    THEN <<New("AP", <<s[1], New("COORD", <<s[2], New("AP", <<s[3]>>)>>)>>)>> \o NPKids(Drop(s, 3))
    ELSE <<New("AP", <<s[1]>>)>> \o NPKids(Tail(s))
  ELSE IF s[1].l \in {"P", "P+D"} THEN <<AsPP(s)>>
  ELSE <<New("COORD", <<s[1], IF s[2].l \in {"P", "P+D"} THEN AsPP(Tail(s)) ELSE New("NP", NPKids(Tail(s)))>>)>>
RECURSIVE Undo(_)
Undo(t) == IF t.i >= 0 \/ IsWord(t) THEN t ELSE
  CASE t.l = "MWN" /\ Regular(PatN, t) -> [t EXCEPT !.l = "NP", !.k = NPKids(t.k)]
    [] t.l = "MWADV" /\ Regular(PatADV, t) -> [t EXCEPT !.l = "PP", !.k = AsPP(t.k).k]
    [] t.l = "MWV" /\ t.h /\ Regular(PatV, t) -> [t EXCEPT !.l = "VP", !.k = <<t.k[1]>> \o
         (IF t.k[2].l = "P" THEN <<AsPP(Tail(t.k))>>
          ELSE IF t.k[2].l \in {"D", "A", "N"} THEN <<New("NP", NPKids(Tail(t.k)))>> ELSE Tail(t.k))]
    [] OTHER -> With(t, [n \in DOMAIN t.k |-> Undo(t.k[n])])
\* French: detailed tags from morphology (ftbmakegoldpos)
RECURSIVE UpperS(_)
UpperS(s) == IF s = "" THEN "" ELSE
  LET n == Idx("abcdefghijklmnopqrstuvwxyz", TChr(s, 1), 1) IN
  (IF n = 0 THEN TChr(s, 1) ELSE TChr("ABCDEFGHIJKLMNOPQRSTUVWXYZ", n)) \o UpperS(SubSeq(s, 2, Len(s)))
FineTag(m) ==
  LET a == Part(UpperS(m), "-")
      c == a[1]
      x == IF Len(a) = 1 THEN "" ELSE Part(a[2], "-")[1] IN
  CASE c = "A" -> IF x = "INT" THEN "ADJWH" ELSE "ADJ"
    [] c = "ADV" -> IF x = "INT" THEN "ADVWH" ELSE "ADV"
    [] c = "C" -> IF x = "S" THEN "CS" ELSE "CC"
    [] c = "CL" -> IF x = "OBJ" THEN "CLO" ELSE IF x = "REFL" THEN "CLR" ELSE "CLS"
    [] c = "D" -> IF x = "IND" THEN "DETWH" ELSE "DET"
    [] c = "N" -> IF x = "P" THEN "NPP" ELSE "NC"
    [] c = "PRO" -> IF x = "INT" THEN "PROWH" ELSE IF x = "REL" THEN "PROREL" ELSE "PRO"
    [] c = "V" -> (CASE x = "G" -> "VPR" [] x = "K" -> "VPP" [] x = "S" -> "VS" [] x = "W" -> "VINF" [] x = "Y" -> "VIMP" [] OTHER -> "V")
    [] c \in {"ET", "I", "P", "PONCT", "PREF"} -> c
    [] OTHER -> ""
CoarseTag(l) == CASE l = "N" -> "NC" [] l = "D" -> "DET" [] l = "A" -> "ADJ" [] l = "C" -> "CC" [] l = "CL" -> "CLS" [] OTHER -> l
RECURSIVE GoldPos(_, _)
\* words of compounds have tags by default; mw: whether the parent is a compound
GoldPos(t, mw) == IF t.i >= 0 THEN t ELSE
  LET l == IF mw THEN CoarseTag(t.l) ELSE t.l IN
  [t EXCEPT !.l = IF HasPrefix(t.l, "MW") THEN l ELSE Orelse(FineTag(t.m), l),
            !.k = TLCEval([n \in DOMAIN @ |-> GoldPos(t.k[n], HasPrefix(t.l, "MW"))])]
RECURSIVE AddUnary(_, _)
AddUnary(t, p) == IF t.i >= 0 THEN t ELSE
  LET u == With(t, [n \in DOMAIN t.k |-> AddUnary(t.k[n], StripL(t.l))]) IN
  IF StripL(t.l) \in Nouns /\ p \in Clauses /\ ~(t.l = "PN" /\ Len(t.k) = 1)
  THEN [u EXCEPT !.l = "NP", !.m = "--", !.e = "--",
                 !.k = <<[u EXCEPT !.f = "HD", !.h = FALSE]>>] ELSE u
RECURSIVE NlAddUnary(_, _)
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
NlAddUnary(t, p) == IF t.i >= 0 THEN t ELSE
  LET u == With(t, [n \in DOMAIN t.k |-> NlAddUnary(t.k[n], StripL(t.l))]) IN
  IF StripL(t.l) \in {"n", "vnw"} /\ p \in {"SMAIN", "PP", "INF"}
  THEN [u EXCEPT !.l = "NP", !.m = "--", !.e = "--",
                 !.k = <<[u EXCEPT !.h = FALSE, !.f = IF Len(u.f) > 0 /\ TChr(u.f, 1) \in Upper THEN "HD" ELSE "hd"]>>] ELSE u
RECURSIVE NoNKCJ(_, _)
NoNKCJ(t, pf) == IF t.i >= 0 THEN t ELSE
  LET f == IF Fn(t) = "NK" THEN "HD" ELSE IF Fn(t) = "CJ" THEN pf ELSE t.f
      u == TLCEval([t EXCEPT !.f = f]) IN
  With(u, [n \in DOMAIN u.k |-> NoNKCJ(u.k[n], Fn(u))])
RECURSIVE NoCnj(_, _)
NoCnj(t, pf) == IF t.i >= 0 THEN t ELSE
  LET u == TLCEval(IF Fn(t) = "cnj" THEN [t EXCEPT !.f = pf] ELSE t) IN
  With(u, [n \in DOMAIN u.k |-> NoCnj(u.k[n], Fn(u))])
\* insertion of nodes
RECURSIVE Wrap(_, _)
Wrap(name, t) == IF t.i >= 0 THEN t ELSE
  LET u == With(t, [n \in DOMAIN t.k |-> Wrap(name, t.k[n])]) IN
  CASE name = "FUNC-NODE" /\ t.f # "" /\ ~HasSuffix(t.l, "-") ->
         [u EXCEPT !.l = "-" \o t.f, !.k = <<New(t.l, u.k)>>]
    [] name = "MORPH-NODE" /\ IsWord(t) -> With(u, <<New(Orelse(Square(t.m), "--"), u.k)>>)
    [] name = "LEMMA-NODE" /\ IsWord(t) -> With(u, <<New(Orelse(t.e, "--"), u.k)>>)
    [] OTHER -> u
\* relabelling; p is the parent's label, w the sentence
CaseIn(m) == LET parts == {p \in {"Nom", "Acc", "Gen", "Dat"} : \E n \in 1..(Len(m) - 2) :
                    /\ SubSeq(m, n, n + 2) = p
                    /\ (n = 1 \/ TChr(m, n - 1) \in {".", "*", "-", "(", "["})
                    /\ (n + 2 = Len(m) \/ TChr(m, n + 3) \in {".", "*", "-", ")", "]"})}
                 at(p) == Min({n \in 1..(Len(m) - 2) : SubSeq(m, n, n + 2) = p})
             IN IF parts = {} THEN "" ELSE CHOOSE p \in parts : \A q \in parts : at(p) <= at(q)
IsYear(s) == Len(s) = 4 /\ SubSeq(s, 1, 2) \in {"19", "20"} /\ \A n \in 3..4 : TChr(s, n) \in
   {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* words at the end of a sentence
Ending == {".", "?", "!", ".?", "?!", ".?!"}
PunctToken(s) == s \in {".", ",", "(", ")", ":", "-", "?", "!", "&", "--", "..."}
Suffix(name, t, p, w) ==
  LET word == IF IsWord(t) THEN w[t.k[1].i + 1] ELSE "" IN
  CASE name = "APPEND-FUNC" /\ t.f # "" /\ ~HasSuffix(t.l, "-") -> "-" \o t.f
    [] name = "APPEND-MORPH" /\ IsWord(t) -> "/" \o Orelse(Square(t.m), "--")
    [] name = "addCase" /\ IsWord(t) /\ CaseIn(t.m) # "" -> "/" \o CaseIn(t.m)
    [] name = "MARK-YEAR" /\ IsWord(t) /\ IsYear(word) -> "^year"
    [] name = "PUNCT" /\ IsWord(t) /\ word \in Ending -> "^" \o word
    [] name = "FANOUT" /\ FanOut(Yield(t)) > 1 /\ ~HasSuffix(t.l, "_" \o ToString(FanOut(Yield(t)))) -> "_" \o ToString(FanOut(Yield(t)))
    [] name = "PARENT" /\ ~IsWord(t) /\ p # "" -> "^" \o StripL(p)
    [] name = "TAGPA" /\ IsWord(t) /\ ~PunctToken(word) -> "^" \o StripL(p)
    [] name = "NP-PP" /\ t.l = "PP" /\ p = "NP" -> "^NP"
    [] name = "S-RC" /\ t.l = "S" /\ Fn(t) = "RC" -> "^RC"
    [] name = "NP" /\ t.l = "NP" -> "^" \o Fn(t)
    [] name = "VP-GF" /\ t.l = "VP" -> "^" \o Fn(t)
    [] name = "MARK-UNARY" /\ ~IsWord(t) /\ Len(t.k) = 1 -> "^U"
    [] OTHER -> ""
RECURSIVE Relab(_, _, _, _)
Relab(name, t, p, w) == IF t.i >= 0 THEN t ELSE
  [t EXCEPT !.l = @ \o Suffix(name, t, p, w), !.k = TLCEval([n \in DOMAIN @ |-> Relab(name, t.k[n], t.l, w)])]
Structural == {"PP-NP", "DP", "SBAR", "NEST", "POS-PART"}
Wrapping == {"FUNC-NODE", "MORPH-NODE", "LEMMA-NODE"}
Relabelling == {"APPEND-FUNC", "APPEND-MORPH", "addCase", "MARK-YEAR", "PUNCT", "FANOUT", "PARENT", "TAGPA", "NP-PP",
                "S-RC", "NP", "VP-GF", "MARK-UNARY"}
Functional == {"addUnary", "nladdunary", "elimNKCJ", "nlelimcnj"}
\* without an inverse
OneWay == {"ftbmakegoldpos", "ftbraisecompl", "ftbundocompounds"}
Names == OneWay \cup Structural \cup Wrapping \cup Relabelling \cup Functional \cup {"VP-FIN_NEGRA"}
Trans1(name, t, w) ==
  CASE name \in Structural -> Up(name, t)
    [] name \in Wrapping -> Wrap(name, t)
    [] name = "VP-FIN_NEGRA" -> FinVP(t)
    [] name = "addUnary" -> AddUnary(t, "")
    [] name = "nladdunary" -> NlAddUnary(t, "")
    [] name = "ftbraisecompl" -> Raise(t)
    [] name = "ftbmakegoldpos" -> GoldPos(t, FALSE)
    [] name = "ftbundocompounds" -> Undo(t)
    [] name = "elimNKCJ" -> NoNKCJ(t, "")
    [] name = "nlelimcnj" -> NoCnj(t, "")
    [] OTHER -> Relab(name, t, "", w)
Trans(names, t, w) == Canonical(FoldLeft(LAMBDA a, b : TLCEval(Trans1(b, a, w)), t, names))

-----------------------------------------------------------------------------
(* Inverses                                                                 *)
RECURSIVE Unsplit(_)
Unsplit(t) == IF t.i >= 0 THEN t ELSE
  LET c == Idx(t.l, "^", 2) IN
  [t EXCEPT !.l = IF c > 0 THEN SubSeq(@, 1, c - 1) ELSE @, !.k = TLCEval([n \in DOMAIN @ |-> Unsplit(t.k[n])])]
RECURSIVE RevDP(_), RevNest(_), RevPP(_), RevSBAR(_), RevFin(_), RevPart(_)
RevDP(t) == IF t.i >= 0 THEN t ELSE
  LET u == IF t.l # "DP" THEN t
           ELSE IF Len(t.k) > 1 /\ t.k[2].l = "NP" THEN [t EXCEPT !.l = "NP", !.k = <<t.k[1]>> \o t.k[2].k \o Drop(t.k, 2)]
           ELSE [t EXCEPT !.l = "NP"] IN
  With(u, [n \in DOMAIN u.k |-> RevDP(u.k[n])])
NKTags == {"PDAT", "CAP", "PPOSS", "PPOSAT", "ADJA", "FM", "PRF", "NM", "NN", "NE", "PIAT", "PRELS", "PN", "TRUNC", "CH",
           "CNP", "PWAT", "PDS", "VP", "CS", "CARD", "ART", "PWS", "PPER", "AP", "PIS"}
RevNest(t) == IF t.i >= 0 THEN t ELSE
  LET u == With(t, [n \in DOMAIN t.k |-> RevNest(t.k[n])])
      np == {n \in DOMAIN u.k : u.k[n].l = "NP"} IN
  IF u.l = "NP" /\ Len(u.k) = 2 /\ Cardinality(np) = 1 /\ LabelsOf(u.k) \cap NKTags = {}
  THEN LET n == CHOOSE x \in np : TRUE IN With(u, <<u.k[3 - n]>> \o u.k[n].k) ELSE u
RevPP(t) == IF t.i >= 0 THEN t ELSE
  LET np == {n \in DOMAIN t.k : t.k[n].l = "NP"}
      u == IF t.l = "PP" /\ np # {} /\ "NN" \notin LabelsOf(t.k)
           THEN LET x == Max(np)
                    srt == SelectSeq(t.k, LAMBDA a : a.l # "NP") \o SelectSeq(t.k, LAMBDA a : a.l = "NP") IN
                With(t, Front(srt) \o t.k[x].k)
           ELSE t IN
  With(u, [n \in DOMAIN u.k |-> RevPP(u.k[n])])
RevSBAR(t) == IF t.i >= 0 THEN t ELSE
  LET u == With(t, [n \in DOMAIN t.k |-> RevSBAR(t.k[n])]) IN
  IF t.l = "SBAR" \/ (t.l = "S" /\ Len(t.k) = 2 /\ t.k[1].l = "PTKANT" /\ t.k[2].l = "S")
  THEN LET n == IF u.k[1].l = "S" THEN 1 ELSE 2 IN
       [u EXCEPT !.l = "S", !.k = RemoveAt(u.k, n) \o u.k[n].k]
  ELSE u
\* VPs with a finite verb below S, from left to right
RECURSIVE MergeVP(_, _)
MergeVP(ks, n) == IF n > Len(ks) THEN ks ELSE
  IF ks[n].l = "VP" /\ \E x \in DOMAIN ks[n].k : ks[n].k[x].i < 0 /\ HasSuffix(ks[n].k[x].l, "FIN")
  THEN MergeVP(Take(ks, n - 1) \o ks[n].k \o Drop(ks, n), n + 1)
  ELSE MergeVP(ks, n + 1)
RevFin(t) == IF t.i >= 0 THEN t ELSE
  LET u == IF t.l = "S" /\ t.k[1].i < 0 THEN With(t, MergeVP(t.k, 1)) ELSE t IN
  With(u, [n \in DOMAIN u.k |-> RevFin(u.k[n])])
IsParticleVerb(b) == b.i < 0 /\ Len(b.k) = 2 /\ HasPrefix(b.l, "V") /\ "PTKVZ" \in LabelsOf(b.k) /\ b.l \in LabelsOf(b.k)
RevPart(t) == IF t.i >= 0 THEN t ELSE
  With(t, Cat([n \in DOMAIN t.k |-> IF IsParticleVerb(t.k[n])
                 THEN [x \in DOMAIN t.k[n].k |-> RevPart(t.k[n].k[x])] ELSE <<RevPart(t.k[n])>>]))
RECURSIVE RevUnary(_, _, _), RevFuncs(_, _), RevLab(_, _), Unwrap(_, _)
RevUnary(t, ps, tags) == IF t.i >= 0 THEN t ELSE
  LET undo(c) == IF c.i < 0 /\ Len(c.k) = 1 /\ c.k[1].i < 0 /\ BaseIs(c, "NP") /\ StripL(c.k[1].l) \in tags
                 THEN [c.k[1] EXCEPT !.f = c.f, !.h = c.h] ELSE c
      u == IF StripL(t.l) \in ps THEN With(t, [n \in DOMAIN t.k |-> undo(t.k[n])]) ELSE t IN
  With(u, [n \in DOMAIN u.k |-> RevUnary(u.k[n], ps, tags)])
RevFuncs(name, t) == IF t.i >= 0 THEN t ELSE
  LET f(c) == IF c.i >= 0 THEN c
        ELSE IF name = "elimNKCJ" /\ StripL(t.l) \in {"NP", "PP"} /\ Fn(c) = "HD" THEN [c EXCEPT !.f = "NK"]
        ELSE IF name = "elimNKCJ" /\ StripL(t.l) \in {"CS", "CNP", "CVP", "CAP", "CAVP", "CAC"} /\ Fn(c) \notin {"CD", ""} THEN [c EXCEPT !.f = "CJ"]
        ELSE IF name = "nlelimcnj" /\ BaseIs(t, "CONJ") /\ Fn(c) # "crd" /\ ~BaseIs(c, "let") THEN [c EXCEPT !.f = "cnj"]
        ELSE c
      u == With(t, [n \in DOMAIN t.k |-> f(t.k[n])]) IN
  With(u, [n \in DOMAIN u.k |-> RevFuncs(name, u.k[n])])
RECURSIVE FanMark(_)
\* labels without a final _n
FanMark(l) == LET n == LastIn([x \in 1..Len(l) |-> TChr(l, x)], LAMBDA c : c = "_") IN
  IF n > 0 /\ n < Len(l) /\ \A x \in (n + 1)..Len(l) : TChr(l, x) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
  THEN SubSeq(l, 1, n - 1) ELSE l
RevLab(name, t) == IF t.i >= 0 THEN t ELSE
  LET d == Idx(t.l, "-", 1) sl == Idx(t.l, "/", 1)
      u == CASE name = "APPEND-FUNC" /\ d > 1 /\ ~HasSuffix(t.l, "-") ->
                  [t EXCEPT !.l = SubSeq(@, 1, d - 1), !.f = SubSeq(t.l, d + 1, Len(t.l))]
             [] name \in {"APPEND-MORPH", "addCase"} /\ IsWord(t) /\ sl > 0 -> [t EXCEPT !.l = SubSeq(@, 1, sl - 1)]
             [] name = "FANOUT" -> [t EXCEPT !.l = FanMark(@)]
             [] OTHER -> t IN
  With(u, [n \in DOMAIN u.k |-> RevLab(name, u.k[n])])
Unwrap(name, t) == IF t.i >= 0 THEN t ELSE
  LET u == With(t, [n \in DOMAIN t.k |-> Unwrap(name, t.k[n])]) IN
  CASE name = "FUNC-NODE" /\ HasPrefix(t.l, "-") /\ ~HasSuffix(t.l, "-") /\ t.k[1].i < 0 ->
         [u EXCEPT !.f = SubSeq(t.l, 2, Len(t.l)), !.l = u.k[1].l, !.k = u.k[1].k]
    [] name \in {"MORPH-NODE", "LEMMA-NODE"} /\ t.k[1].i < 0 /\ IsWord(t.k[1]) -> With(u, u.k[1].k)
    [] OTHER -> u
Rev1(name, t) ==
  CASE name = "DP" -> RevDP(t) [] name = "NEST" -> RevNest(t) [] name = "PP-NP" -> RevPP(t)
    [] name = "SBAR" -> RevSBAR(t) [] name = "VP-FIN_NEGRA" -> RevFin(t) [] name = "POS-PART" -> RevPart(t)
    [] name = "addUnary" -> RevUnary(t, Clauses, Nouns)
    [] name = "nladdunary" -> RevUnary(t, {"SMAIN", "PP", "INF"}, {"n", "vnw"})
    [] name \in {"elimNKCJ", "nlelimcnj"} -> RevFuncs(name, t)
    [] name \in {"APPEND-FUNC", "APPEND-MORPH", "addCase", "FANOUT"} -> RevLab(name, t)
    [] name \in Wrapping -> Unwrap(name, t)
    [] OTHER -> t
RevTrans(names, t) == Canonical(FoldLeft(LAMBDA a, b : TLCEval(Rev1(b, a)), Canonical(Unsplit(t)), Reverse(names)))

-----------------------------------------------------------------------------
(* Trees for which a transformation can be undone.                          *)
All(t, p(_)) == \A x \in NodeSet(t) : p(x)
ConstKids(x) == {n \in DOMAIN x.k : x.k[n].i < 0}
Undoable(name, t) ==
  CASE name = "DP" -> All(t, LAMBDA x : x.l # "DP")
    [] name = "PP-NP" -> /\ All(t, LAMBDA x : x.l = "PP" => "NP" \notin LabelsOf(x.k))
                         /\ All(t, LAMBDA x : x.l = "PP" => \A n \in ConstKids(x) : x.k[n].l = "NN" => Fn(x.k[n]) = "NK")
                         \* nouns are within what moves to the NP
                         /\ All(t, LAMBDA x : x.l = "PP" => \A n \in PPOutside(x.k) : x.k[n].l # "NN")
    [] name = "SBAR" -> All(t, LAMBDA x : x.l # "SBAR" /\ ~(x.l = "S" /\ Len(x.k) = 2 /\ x.k[1].l = "PTKANT")
                            /\ (x.l = "S" => x.k[1].l # "S"))
    [] name = "NEST" -> All(t, LAMBDA x : x.l = "NP" => /\ \A n \in ConstKids(x) : Fn(x.k[n]) = "MO" => x.k[n].l \notin NKTags \cup {"NP"}
                               /\ "NP" \notin LabelsOf(x.k))
    [] name = "POS-PART" -> All(t, LAMBDA x : ~IsParticleVerb(x) /\ \A n \in ConstKids(x) :
                               /\ Fn(x.k[n]) = "SVP" => x.k[n].l = "PTKVZ" /\ ~x.k[n].h
                               /\ x.k[n].h => HasPrefix(x.k[n].l, "V"))
    [] name = "VP-FIN_NEGRA" -> /\ NoDM(t)
        /\ All(t, LAMBDA x : x.l = "VP" => \A n \in ConstKids(x) : ~HasSuffix(x.k[n].l, "FIN"))
        /\ All(t, LAMBDA x : \A n \in ConstKids(x) : HasPrefix(x.k[n].l, "V") /\ HasSuffix(x.k[n].l, "FIN") => Fn(x.k[n]) \in ToVP)
    [] name = "addUnary" -> All(t, LAMBDA x : x.l = "NP" /\ Len(x.k) = 1 /\ x.k[1].i < 0 => x.k[1].l \notin Nouns)
    [] name = "nladdunary" -> All(t, LAMBDA x : x.l = "NP" /\ Len(x.k) = 1 /\ x.k[1].i < 0 => x.k[1].l \notin {"n", "vnw"})
    [] name = "elimNKCJ" -> All(t, LAMBDA x : \A n \in ConstKids(x) :
           /\ Fn(x.k[n]) = "NK" <=> x.l \in {"NP", "PP"} /\ Fn(x.k[n]) \in {"NK", "HD"}
           /\ (Fn(x.k[n]) = "CJ" => x.l \in {"CS", "CNP", "CVP", "CAP", "CAVP", "CAC"} /\ Fn(x) \notin {"", "CD"})
           /\ (x.l \in {"CS", "CNP", "CVP", "CAP", "CAVP", "CAC"} => Fn(x.k[n]) \in {"CJ", "CD", ""}))
    [] name = "nlelimcnj" -> All(t, LAMBDA x : \A n \in ConstKids(x) :
           /\ (Fn(x.k[n]) = "cnj" => x.l = "CONJ")
           /\ (x.l = "CONJ" => /\ Fn(x) # "crd"
                               /\ IF x.k[n].l = "let" THEN Fn(x.k[n]) # "cnj" ELSE Fn(x.k[n]) \in {"cnj", "crd"}))
    [] name \in {"APPEND-FUNC", "FUNC-NODE"} -> All(t, LAMBDA x : Idx(x.l, "-", 1) = 0)
    [] name = "FANOUT" -> All(t, LAMBDA x : Idx(x.l, "_", 1) = 0)
    [] name \in {"APPEND-MORPH", "addCase"} -> All(t, LAMBDA x : Idx(x.l, "/", 1) = 0)
    [] name \in OneWay -> FALSE
    [] OTHER -> TRUE
\* what is compared: labels, structure and functions
RECURSIVE Shown(_)
Shown(t) == IF t.i >= 0 THEN <<t.i>> ELSE TLCEval(<<t.l, t.f, [n \in DOMAIN t.k |-> Shown(t.k[n])]>>)

-----------------------------------------------------------------------------
(* Relational-realizational transform; o: options                           *)
(*   adj, ignf, ignc, left, right; ord: all functions in sorted order       *)
(* Here t.f is the function as written ("--" for none).                     *)
Counts(o, c) == c.i < 0 /\ c.f # "" /\ c.f # o.adj /\ c.f \notin ToSet(o.ignf) /\ c.l \notin ToSet(o.ignc)
PrevF(o, ks, n) == LET s == {x \in 1..(n - 1) : Counts(o, ks[x])} IN IF s = {} THEN "" ELSE ks[Max(s)].f
NextF(o, ks, n) == LET s == {x \in (n + 1)..Len(ks) : Counts(o, ks[x])} IN IF s = {} THEN "" ELSE ks[Min(s)].f
RECURSIVE CommaJoin(_)
CommaJoin(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o CommaJoin(Tail(s))
\* morphological features are percolated o.ml levels up
RECURSIVE Feats(_, _), Lvl(_, _)
HasMorph(o, t) == t.i < 0 /\ Lvl(o, t) > 0 /\ (IsWord(t) \/ Feats(o, t) # {})
RECURSIVE PartsBy(_, _)
PartsBy(s, c) == LET d == Idx(s, c, 1) IN IF d = 0 THEN {s} ELSE {SubSeq(s, 1, d - 1)} \cup PartsBy(SubSeq(s, d + 1, Len(s)), c)
InBrackets(s) == LET a == Idx(s, "(", 1) b == Idx(s, ")", 1) IN IF a = 0 THEN s ELSE SubSeq(s, a + 1, b - 1)
Feats(o, t) ==
  LET cs == {n \in DOMAIN t.k : HasMorph(o, t.k[n])}
      sep == IF \E n \in cs : IsWord(t.k[n]) /\ Idx(t.k[n].m, ".", 1) > 0 THEN "." ELSE ","
      fs == UNION {IF IsWord(t.k[n]) THEN PartsBy(InBrackets(t.k[n].m), sep) ELSE Feats(o, t.k[n]) : n \in cs} IN
  TLCEval((IF o.perc = <<>> THEN fs ELSE fs \cap ToSet(o.perc)) \ {"*", "--"})
Lvl(o, t) == IF IsWord(t) THEN o.ml
  ELSE LET ls == {Lvl(o, t.k[n]) : n \in {x \in DOMAIN t.k : HasMorph(o, t.k[x])}} IN
       IF ls = {} \/ t.l = "ROOT" THEN 0 ELSE Max(ls) - 1
MorphSep(o, t) == IF \E n \in DOMAIN t.k : HasMorph(o, t.k[n]) /\ IsWord(t.k[n]) /\ Idx(t.k[n].m, ".", 1) > 0 THEN "." ELSE ","
RECURSIVE JoinBy(_, _)
JoinBy(s, c) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o c \o JoinBy(Tail(s), c)
MorphMark(o, t) == IF o.ml = 0 \/ t.l = "ROOT" \/ Feats(o, t) = {} THEN ""
  ELSE "-" \o JoinBy(SelectSeq(o.ordm, LAMBDA f : f \in Feats(o, t)), MorphSep(o, t))
RECURSIVE RR(_, _)
RR(o, t) ==
  IF IsWord(t) THEN New(t.l \o "/" \o Square(t.m), t.k)
  ELSE LET fs == Cat([x \in DOMAIN o.ord |-> LET c == SelectSeq(t.k, LAMBDA k : Counts(o, k) /\ k.f = o.ord[x]) IN
                          [y \in DOMAIN c |-> o.ord[x]]])
           real(n) == LET p == IF o.left THEN PrevF(o, t.k, n) ELSE ""
                          q == IF o.right THEN NextF(o, t.k, n) ELSE "" IN
                      IF t.k[n].f = o.adj /\ (p # "" \/ q # "") THEN p \o ":" \o q ELSE t.k[n].f
       IN New(t.l \o MorphMark(o, t), <<New(t.l \o "/<" \o CommaJoin(fs) \o ">",
            [n \in DOMAIN t.k |-> New(real(n) \o "/" \o t.l, <<RR(o, t.k[n])>>)])>>)
=============================================================================
