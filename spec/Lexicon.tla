------------------------------ MODULE Lexicon ------------------------------
(* Unknown word models.  A word is a sequence of characters; characters     *)
(* outside of ASCII are written as "uXXXX".                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Ch(s) == TLCEval([n \in 1..Len(s) |-> SubSeq(s, n, n)])
Acc == <<"u00E7", "u00E9", "u00E0", "u00EC", "u00F9", "u00E2", "u00EA", "u00EE", "u00F4", "u00FB", "u00EB", "u00EF", "u00FC", "u00FF", "u0153", "u00E6">>
AccUp == <<"u00C7", "u00C9", "u00C0", "u00CC", "u00D9", "u00C2", "u00CA", "u00CE", "u00D4", "u00DB", "u00CB", "u00CF", "u00DC", "u0178", "u0152", "u00C6">>
LowerSeq == Ch("abcdefghijklmnopqrstuvwxyz") \o Acc
UpperSeq == Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ") \o AccUp
Lowers == TLCEval(ToSet(LowerSeq))
Uppers == TLCEval(ToSet(UpperSeq))
\* other capitals do have a lower case form but do not count as letters
CaseUp == TLCEval(UpperSeq \o <<"u00D1", "u0393">>)
CaseLow == TLCEval(LowerSeq \o <<"u00F1", "u03B3">>)
LowMap == TLCEval([c \in ToSet(CaseUp) |-> CaseLow[CHOOSE n \in DOMAIN CaseUp : CaseUp[n] = c]])
Low(c) == IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c
Lower(w) == TLCEval([n \in DOMAIN w |-> Low(w[n])])
AsciiDigits == TLCEval(ToSet(Ch("0123456789")))
Digits == AsciiDigits \cup {"u0663"}
Dashes == {"-", "u2010", "u2011"}
Puncts == TLCEval(ToSet(Ch("!#$%&'()*+,-./:;<=>?@[]^_`{|}~")) \cup {"\\", "\"", "u00A1", "u00BF", "u2010", "u2011", "u2014", "u2019", "u20AC"})
Has(w, s) == \E n \in DOMAIN w : w[n] \in s
Count(w, s) == Cardinality({n \in DOMAIN w : w[n] \in s})
EndsIn(w, s) == Len(w) >= Len(s) /\ SubSeq(w, Len(w) - Len(s) + 1, Len(w)) = s
EndsAny(w, ss) == \E n \in DOMAIN ss : EndsIn(w, ss[n])
UNK == TLCEval(Ch("_UNK"))
Opt(c, s) == IF c THEN Ch(s) ELSE <<>>
---------------------------------------------------------------------------
Suffixes6 == TLCEval(<<Ch("ed"), Ch("ing"), Ch("ion"), Ch("er"), Ch("est"), Ch("ly"), Ch("ity"), Ch("y"), Ch("al")>>)
Sig6(w, loc, lex) ==
  LET caps == Count(w, Uppers) low == Lower(w)
      case == IF caps > 1 THEN Ch("-CAPS")
              ELSE IF caps = 1 THEN IF loc = 0 THEN Ch("-INITC") \o Opt(low \in lex, "-KNOWNLC") ELSE Ch("-CAP")
              ELSE Opt(Has(w, Lowers), "-LC")
      sufs == {n \in DOMAIN Suffixes6 : EndsIn(low, Suffixes6[n])}
      suf == IF EndsIn(low, <<"s">>) /\ Len(w) >= 3 THEN Opt(low[Len(low) - 1] \notin {"s", "i", "u"}, "-s")
             ELSE IF Len(w) >= 5 /\ ~Has(w, Dashes) /\ ~(Has(w, Digits) /\ caps > 0) /\ sufs # {}
                  THEN <<"-">> \o Suffixes6[Min(sufs)] ELSE <<>>
  IN UNK \o case \o Opt(Has(w, Digits), "-NUM") \o Opt(Has(w, Dashes), "-DASH") \o suf
Num4(w) == IF ~Has(w, Digits) THEN <<>> ELSE IF \E n \in DOMAIN w : w[n] \notin Digits THEN Ch("-n") ELSE Ch("-N")
Last2(w) == IF Len(w) > 3 /\ w[Len(w)] \in Lowers \cup Uppers
            THEN <<"-">> \o Lower(SubSeq(w, Len(w) - 1, Len(w))) ELSE <<>>
Sig4(w, loc) ==
  LET let == IF w[1] \in Uppers THEN IF ~Has(w, Lowers) THEN Ch("-AC") ELSE IF loc = 0 THEN Ch("-SC") ELSE Ch("-C")
             ELSE IF Has(w, Lowers) THEN Ch("-L") ELSE IF Has(w, Uppers) THEN Ch("-U") ELSE Ch("-S")
  IN UNK \o let \o Num4(w) \o Opt(Has(w, {"-"}), "-H") \o Opt(Has(w, {"."}), "-P") \o Opt(Has(w, {","}), "-C") \o Last2(w)
SigBase(w) == UNK \o (IF w[1] \in Uppers THEN Ch("-C") ELSE Ch("-c")) \o Num4(w) \o Opt(Has(w, {"-"}), "-H")
  \o Opt(w = <<".">>, "-P") \o Opt(w = <<",">>, "-C") \o Last2(w)
E1 == "u00E9"
E2 == "u00E8"
NounSuf == TLCEval([n \in 1..23 |-> Ch(<<"ier", "ion", "ison", "isme", "ysme", "iste", "esse", "eur", "euse", "ence", "eau", "erie", "ng", "ette", "age", "ade", "ance", "ude", "ogue", "aphe", "ate", "duc", "anthe">>[n])]
  \o [n \in 1..13 |-> Ch(<<"archie", "coque", "ergie", "ogie", "lithe", "odie", "pathie", "phie", "phone", "phore", "onyme", "scope", "some">>[n])]
  \o [n \in 1..3 |-> Ch(<<"pole", "chromie", "pie">>[n])]
  \o <<Ch("i") \o <<E2>> \o Ch("re"), Ch("it") \o <<E1>>, <<E1, "r", E2>> \o Ch("se"), Ch("m") \o <<E2>> \o Ch("tre"), Ch("m") \o <<E1>> \o Ch("trie"), Ch("th") \o <<E2>> \o Ch("que"), <<"u00F4", "m", "e">>>>)
AdjSuf == TLCEval([n \in 1..25 |-> Ch(<<"iste", "uple", "issime", "aire", "esque", "atoire", "ale", "al", "able", "ible", "atif", "ique", "if", "ive", "eux", "aise", "ent", "ois", "oise", "ante", "el", "elle", "ente", "oire", "ain">>[n])]
  \o <<Ch("aine"), Ch("i") \o <<E2>> \o Ch("me")>>)
VerbSuf == TLCEval([n \in 1..14 |-> Ch(<<"ir", "er", "re", "ez", "ont", "ent", "ant", "ais", "ait", "ra", "era", "eras", "isse", "it">>[n])]
  \o <<<<E1>>, <<E1, "s">>, <<E1, "e", "s">>>>)
AdvSuf == TLCEval(<<Ch("iment"), Ch("ement"), Ch("emment"), Ch("amment")>>)
Plural(ss) == TLCEval(ss \o [n \in DOMAIN ss |-> Append(ss[n], "s")])
SigFtb(w, loc) ==
  LET part == IF EndsAny(w, AdvSuf) THEN Ch("-ADV") ELSE IF EndsAny(w, VerbSuf) THEN Ch("-VB")
              ELSE Opt(EndsAny(w, Plural(NounSuf)), "-NN")
      punct == IF w[Len(w)] \in Puncts THEN Ch("-ISPUNC") ELSE Opt(Has(w, Puncts), "-HASPUNC")
  IN UNK \o part \o Opt(EndsAny(w, Plural(AdjSuf)), "-ADV") \o Opt(Has(w, Digits), "-NUM")
     \o Opt(EndsAny(w, <<<<"s">>, <<"u", "x">>>>), "-PL") \o punct \o Opt(loc > 0 /\ w[1] \in Uppers, "-UP")
Sig(m, w, loc, lex) == TLCEval(CASE m = "6" -> Sig6(w, loc, lex) [] m = "4" -> Sig4(w, loc)
  [] m = "base" -> SigBase(w) [] m = "ftb" -> SigFtb(w, loc))
---------------------------------------------------------------------------
AllDigits(w) == \A n \in DOMAIN w : w[n] \in AsciiDigits
IsYear(w) == Len(w) = 4 /\ SubSeq(w, 1, 2) \in {<<"1", "9">>, <<"2", "0">>} /\ AllDigits(w)
IsNumber(w) == LET no == {n \in DOMAIN w : w[n] \notin AsciiDigits}
  IN w # <<>> /\ (no = {} \/ (Cardinality(no) = 1 /\ w[Max(no)] \in {",", ".", "'"} /\ Max(no) < Len(w)))
YEAR == TLCEval(Ch("1970"))
NUM == TLCEval(Ch("000"))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
\* q: sents (sequences of [w, t, b], where b is the tag without function and morphology or ""), m, thr, open
Toks(q) == TLCEval(Concat([s \in DOMAIN q.sents |-> [n \in DOMAIN q.sents[s] |-> [w |-> q.sents[s][n].w, t |-> q.sents[s][n].t, b |-> q.sents[s][n].b, n |-> n - 1]]]))
Tally(xs) == LET s == ToSet(xs) IN {<<x, Cardinality({n \in DOMAIN xs : xs[n] = x})>> : x \in s}
Model(q) == TLCEval(
  LET ts == Toks(q) all == ToSet(ts)
      freq(w) == Cardinality({n \in DOMAIN ts : ts[n].w = w})
      alike(a, b) == IF b.b = "" THEN a.t = b.t ELSE a.b = b.b
      isopen(x) == Cardinality({Lower(a.w) : a \in {a \in all : alike(a, x)}}) >= q.open
      closed == IF q.open = 0 THEN {} ELSE {x.w : x \in {x \in all : ~isopen(x)}}
      lex == {x.w : x \in {x \in all : freq(x.w) > q.thr}} \cup closed
      rare == SelectSeq(ts, LAMBDA x : x.w \notin lex /\ ~IsYear(x.w) /\ ~IsNumber(x.w))
  IN [lex |-> lex, closed |-> closed, words |-> Tally([n \in DOMAIN ts |-> ts[n].w]), tags |-> Tally([n \in DOMAIN ts |-> ts[n].t]),
      wordtags |-> Tally([n \in DOMAIN ts |-> <<ts[n].w, ts[n].t>>]),
      sigs |-> Tally([n \in DOMAIN rare |-> Sig(q.m, rare[n].w, rare[n].n, lex)])])
TrainWord(q, m, w, n) == IF IsYear(w) THEN YEAR ELSE IF IsNumber(w) THEN NUM ELSE IF w \in m.lex THEN w ELSE Sig(q.m, w, n, m.lex)
Train(q, m) == TLCEval([s \in DOMAIN q.sents |-> [n \in DOMAIN q.sents[s] |-> TrainWord(q, m, q.sents[s][n].w, n - 1)]])
\* lexical rules <<tag, word, 100 * weight>>
Extra(m) == {<<x[1][2], x[1][1], 100 * x[2]>> : x \in {x \in m.wordtags : x[1][1] \notin m.lex}} \cup {<<t[1], UNK, 1>> : t \in m.tags}
SumW(xs, x) == FoldSet(LAMBDA a, b : a + b, 0, {y[3] : y \in {y \in xs : y[1] = x[1] /\ y[2] = x[2]}})
LexRules(q, m, tr) == TLCEval(
  LET obs == {<<x[1][1], x[1][2], 100 * x[2]>> : x \in Tally(Concat([s \in DOMAIN tr |-> [n \in DOMAIN tr[s] |-> <<q.sents[s][n].t, tr[s][n]>>]]))}
      ext == Extra(m)
  IN {<<x[1], x[2], SumW(obs, x) + SumW(ext, x)>> : x \in obs \cup ext})
IsSig(w) == Len(w) >= 4 /\ SubSeq(w, 1, 4) = UNK
\* words other than signatures that have a lexical rule
Known(rules) == TLCEval({w \in {x[2] : x \in rules} : ~IsSig(w)})
TestWord(q, m, known, w, n) ==
  LET e == w sig == Sig(q.m, w, n, known) IN
  IF IsYear(w) /\ YEAR \in known THEN YEAR ELSE IF IsNumber(w) /\ NUM \in known THEN NUM
  ELSE IF e \in known THEN e ELSE IF Lower(e) \in known THEN Lower(e)
  ELSE IF sig \in {x[1] : x \in m.sigs} THEN sig ELSE UNK
=============================================================================
