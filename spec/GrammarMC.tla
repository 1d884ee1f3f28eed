------------------------------ MODULE GrammarMC ------------------------------
(* Histories of a grammar object: rules are added in several batches,       *)
(* weights are switched, rules masked, copies made.  Whatever the history,  *)
(* counts are those of the texts read so far, and the default probabilities *)
(* of each label sum to one once normalised.                                *)
EXTENDS GrammarObj
CONSTANTS MaxOps, MaxBatch
R(l, r, yf, w) == [l |-> l, r |-> r, yf |-> yf, w |-> w]
CF == <<<<0, 1>>>>
Pool == <<R("S", <<"A", "B">>, CF, 1), R("S", <<"A">>, <<<<0>>>>, 2), R("A", <<"V", "B">>, <<<<0, 1, 0>>>>, 1),
          R("V", <<"B", "B">>, <<<<0>>, <<1>>>>, 2), R("A", <<"B">>, <<<<0>>>>, 1), R("S", <<"V", "V">>, <<<<0, 1, 0, 1>>>>, 1),
          R("V", <<"B">>, <<<<0>>>>, 1), R("A", <<"S">>, <<<<0>>>>, 1), R("A", <<"B", "B">>, <<<<0>>>>, 1)>>
LexPool == <<[word |-> "a", tags |-> <<[l |-> "B", w |-> 1]>>], [word |-> "b", tags |-> <<[l |-> "A", w |-> 2], [l |-> "B", w |-> 1]>>],
             [word |-> "c", tags |-> <<[l |-> "V", w |-> 1]>>]>>
Texts == {[rules |-> [n \in DOMAIN rs |-> Pool[rs[n]]], lex |-> [n \in DOMAIN ls |-> LexPool[ls[n]]]] :
           rs \in UNION {[1..k -> DOMAIN Pool] : k \in 0..MaxBatch}, ls \in {<<>>, <<1>>, <<2>>, <<1, 2>>, <<3>>, <<1, 1>>}}
Inits == {t \in {[rules |-> [n \in DOMAIN rs |-> Pool[rs[n]]], lex |-> [n \in DOMAIN ls |-> LexPool[ls[n]]]] :
           rs \in {<<1, 2, 5>>, <<2, 5, 2>>, <<1, 3, 4>>, <<6, 4>>, <<1, 5, 9>>}, ls \in {<<1>>, <<1, 2>>, <<2, 1>>}} : TRUE}
VARIABLES st, texts, ops
vars == <<st, texts, ops>>
Models(n) == [m |-> [k \in 1..n |-> k]]
Init == \E t \in Inits : /\ texts = <<t>> /\ ops = 0
                         /\ LET s == Compile("S", t, <<>>, [a \in {} |-> <<>>]) IN
                            st = IF IsBad(s) THEN s ELSE Compile("S", t, <<>>, Models(Len(s.rules) + Len(s.lex)))
Cat(ts) == [rules |-> FlattenSeq([n \in DOMAIN ts |-> ts[n].rules]), lex |-> FlattenSeq([n \in DOMAIN ts |-> ts[n].lex])]
Do(s, t) == st' = s /\ texts' = t
Next == /\ ops < MaxOps /\ ~IsBad(st) /\ ops' = ops + 1
        /\ \/ \E t \in Texts : Do(Add(st, t, <<>>, FALSE), Append(texts, t))
           \/ \E name \in {"default"} \cup DOMAIN st.models, lp \in BOOLEAN : Do(Switch(st, name, lp), texts)
           \/ \E S \in SUBSET (0..Len(st.rules) - 1) : Cardinality(S) <= 1 /\ Do(SetMask(st, SetToSeq(S), FALSE), texts)
           \/ Do(SetMask(st, <<>>, TRUE), texts)
           \/ Do(FromBin(st, [a \in {} |-> <<>>]), texts)
           \/ Do(Pickled(st), texts)
Spec == Init /\ [][Next]_vars
\* the history does not matter for rules, counts and labels
Whole == LET w == Add(Empty("S", [a \in {} |-> <<>>]), Cat(texts), <<>>, FALSE) IN
  ~IsBad(st) => ~IsBad(w) /\ st.rules = w.rules /\ st.lex = w.lex /\ ToSet(st.labels) = ToSet(w.labels)
Rejected == LET w == Add(Empty("S", [a \in {} |-> <<>>]), Cat(texts), <<>>, FALSE) IN
  IsBad(st) /\ Len(texts) = 1 => IsBad(w) \/ \E a, b \in DOMAIN texts[1].lex : a # b /\ texts[1].lex[a].word = texts[1].lex[b].word
Distinct == ~IsBad(st) => /\ \A a, b \in DOMAIN st.rules : SameRule(st.rules[a], st.rules[b]) => a = b
                          /\ Cardinality(ToSet(st.labels)) = Len(st.labels) /\ Len(st.back) = Len(st.rules)
                          /\ st.masked \subseteq 0..Len(st.rules) - 1
SumOver(s, l) == LET m == Mass(s, l) IN
   FoldLeft(LAMBDA a, n : IF s.rules[n].l = l THEN a + (s.prule[n][1] * m) \div s.prule[n][2] ELSE a, 0, [n \in DOMAIN s.rules |-> n])
   + FoldLeft(LAMBDA a, n : IF s.lex[n].l = l THEN a + (s.plex[n][1] * m) \div s.plex[n][2] ELSE a, 0, [n \in DOMAIN s.lex |-> n])
Sums == ~IsBad(st) /\ st.model = "default" => \A l \in ToSet(st.labels) : SumOver(st, l) = Mass(st, l)
Fans == ~IsBad(st) => \A n \in DOMAIN st.rules : LET f(l) == st.fan[Pos(st.labels, l)] r == st.rules[n] IN
   f(r.l) = Len(r.yf) /\ f(r.r[1]) = Count(r.yf, 0) /\ (Len(r.r) = 2 => f(r.r[2]) = Count(r.yf, 1))
\* a copy has all of the grammar except for the current choice of weights
Lossless == ~IsBad(st) => LET c == FromBin(st, st.models) IN
  /\ <<c.rules, c.lex, c.labels, c.fan, c.back>> = <<st.rules, st.lex, st.labels, st.fan, st.back>>
  /\ FromBin(c, st.models) = c /\ (st.model = "default" => c.prule = st.prule /\ c.plex = st.plex)
\* switching back and forth has no effect; probabilities do not depend on the history
Switching == ~IsBad(st) => \A lp \in BOOLEAN : LET d == Switch(st, "default", lp) IN
  /\ d = Switch(Switch(st, "default", ~lp), "default", lp)
  /\ d.prule = Normalized(st).prule /\ d.masked = st.masked
=============================================================================
