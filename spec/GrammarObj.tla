------------------------------ MODULE GrammarObj -----------------------------
(* A compiled grammar as a state machine.  A text t has                     *)
(*   t.rules  sequence of [l, r, yf, w]  (r: sequence of labels)            *)
(*   t.lex    sequence of [word, tags] where tags is a sequence of [l, w]   *)
(* A state has                                                              *)
(*   labels   sequence of labels in order of first use, start label first   *)
(*   fan      sequence with the fanout of each label                        *)
(*   rules    sequence of [l, r, yf, c]: distinct productions with counts   *)
(*   lex      sequence of [w, l, c]                                         *)
(*   prule, plex  the current probabilities of these, as <<num, den>>       *)
(*   model, models  name of the current weights; alternative weights        *)
(*   masked   set of numbers of rules that are not used (from 0)            *)
(*   back     sequence of strings: fragment that a rule stands for          *)
(* An operation that is not allowed gives the state Bad.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Wrong == [bad |-> TRUE]
IsBad(s) == "bad" \in DOMAIN s
Pos(seq, x) == IF \E n \in DOMAIN seq : seq[n] = x THEN CHOOSE n \in DOMAIN seq : seq[n] = x ELSE 0
\* ------------------------------------------------ what a text has to satisfy
Count(yf, b) == FoldLeft(LAMBDA a, part : a + Len(SelectSeq(part, LAMBDA x : x = b)), 0, yf)
Symbols(yf) == UNION {ToSet(yf[n]) : n \in DOMAIN yf}
Uses(r) == <<<<r.l, Len(r.yf)>>>> \o (IF Len(r.r) > 0 THEN <<<<r.r[1], Count(r.yf, 0)>>>> ELSE <<>>)
            \o (IF Len(r.r) > 1 THEN <<<<r.r[2], Count(r.yf, 1)>>>> ELSE <<>>)
LexUses(e) == [n \in DOMAIN e.tags |-> <<e.tags[n].l, 1>>]
AllUses(t) == FlattenSeq([n \in DOMAIN t.rules |-> Uses(t.rules[n])]) \o FlattenSeq([n \in DOMAIN t.lex |-> LexUses(t.lex[n])])
RuleOk(start, r) ==
  /\ Len(r.r) \in {1, 2}
  /\ Symbols(r.yf) = (IF Len(r.r) = 1 THEN {0} ELSE {0, 1})
  /\ r.w > 0
  /\ r.l # "Epsilon" /\ "Epsilon" \notin ToSet(r.r) /\ start \notin ToSet(r.r)
TagsOk(e) == e.tags # <<>> /\ \A n \in DOMAIN e.tags : e.tags[n].w > 0 /\ e.tags[n].l # "Epsilon"
\* ------------------------------------------------------------------- states
Empty(start, models) == [labels |-> <<start>>, fan |-> <<1>>, rules |-> <<>>, lex |-> <<>>, prule |-> <<>>, plex |-> <<>>,
   model |-> "default", logp |-> TRUE, models |-> models, masked |-> {}, back |-> <<>>]
NewLabels(s, us) == FoldLeft(LAMBDA q, u : IF Pos(q.labels, u[1]) = 0
      THEN [labels |-> Append(q.labels, u[1]), fan |-> Append(q.fan, u[2])] ELSE q, [labels |-> s.labels, fan |-> s.fan], us)
SameRule(a, r) == a.l = r.l /\ a.r = r.r /\ a.yf = r.yf
AddRule(q, r, b) ==
  IF \E n \in DOMAIN q.rules : SameRule(q.rules[n], r)
  THEN LET n == CHOOSE n \in DOMAIN q.rules : SameRule(q.rules[n], r) IN [q EXCEPT !.rules[n].c = @ + r.w]
  ELSE [q EXCEPT !.rules = Append(@, [l |-> r.l, r |-> r.r, yf |-> r.yf, c |-> r.w]), !.back = Append(@, b)]
AddLex(q, w, e) ==
  IF \E n \in DOMAIN q : q[n].w = w /\ q[n].l = e.l
  THEN LET n == CHOOSE n \in DOMAIN q : q[n].w = w /\ q[n].l = e.l IN [q EXCEPT ![n].c = @ + e.w]
  ELSE Append(q, [w |-> w, l |-> e.l, c |-> e.w])
Mass(s, l) == FoldLeft(LAMBDA a, r : IF r.l = l THEN a + r.c ELSE a, 0, s.rules)
              + FoldLeft(LAMBDA a, e : IF e.l = l THEN a + e.c ELSE a, 0, s.lex)
Masses(s) == TLCEval([l \in ToSet(s.labels) |-> Mass(s, l)])
\* probabilities: relative frequencies, or the given alternative weights
Normalized(s) == LET m == Masses(s) IN
   [s EXCEPT !.prule = [n \in DOMAIN s.rules |-> <<s.rules[n].c, m[s.rules[n].l]>>],
             !.plex = [n \in DOMAIN s.lex |-> <<s.lex[n].c, m[s.lex[n].l]>>]]
AltDen == 1024
Switch(s, name, logp) ==
  IF s.model = name /\ s.logp = logp THEN s
  ELSE IF name = "default" THEN [Normalized(s) EXCEPT !.model = name, !.logp = logp]
  ELSE IF name \notin DOMAIN s.models \/ Len(s.models[name]) # Len(s.rules) + Len(s.lex) THEN Wrong
  ELSE [s EXCEPT !.model = name, !.logp = logp,
         !.prule = [n \in DOMAIN s.rules |-> <<s.models[name][n], AltDen>>],
         !.plex = [n \in DOMAIN s.lex |-> <<s.models[name][Len(s.rules) + n], AltDen>>]]
\* first: the initial text; words may then occur only once
Add(s, t, backs, first) ==
  LET us == AllUses(t)
      q == NewLabels(s, us)
      known == ToSet(s.rules \o s.lex)
      lhs == {x.l : x \in known} \cup {t.rules[n].l : n \in DOMAIN t.rules}
             \cup UNION {{t.lex[n].tags[m].l : m \in DOMAIN t.lex[n].tags} : n \in DOMAIN t.lex}
      words == [n \in DOMAIN t.lex |-> t.lex[n].word]
      rb == FoldLeft(LAMBDA a, n : AddRule(a, t.rules[n], IF n \in DOMAIN backs THEN backs[n] ELSE ""),
                     [rules |-> s.rules, back |-> s.back], [n \in DOMAIN t.rules |-> n])
      lx == FoldLeft(LAMBDA a, e : FoldLeft(LAMBDA b, x : AddLex(b, e.word, x), a, e.tags), s.lex, t.lex)
      new == Normalized([s EXCEPT !.labels = q.labels, !.fan = q.fan, !.rules = rb.rules, !.back = rb.back, !.lex = lx,
                         !.model = "default", !.models = IF first THEN @ ELSE [a \in {} |-> <<>>]])
  IN IF /\ \A n \in DOMAIN t.rules : RuleOk(s.labels[1], t.rules[n])
        /\ \A n \in DOMAIN t.lex : TagsOk(t.lex[n])
        /\ \A n \in DOMAIN us : q.fan[Pos(q.labels, us[n][1])] = us[n][2]
        /\ first => Cardinality(ToSet(words)) = Len(words)
        /\ ToSet(q.labels) \subseteq lhs
        /\ rb.rules # <<>> /\ lx # <<>>
     THEN TLCEval(new) ELSE Wrong
Compile(start, t, backs, models) == Add(Empty(start, models), t, backs, TRUE)
SetMask(s, active, clear) == [s EXCEPT !.masked = IF clear THEN {} ELSE (0..Len(s.rules) - 1) \ ToSet(active)]
Incr(s, no, k) == [s EXCEPT !.rules[no + 1].c = @ + k]
\* copies: binary files do not have the current model nor the mask
Fresh(s) == [Normalized(s) EXCEPT !.model = "default", !.logp = TRUE, !.masked = {}]
FromBin(s, models) == [Fresh(s) EXCEPT !.models = models]
Pickled(s) == [(IF s.model = "default" THEN Normalized(s) ELSE s) EXCEPT !.masked = {}]
\* ------------------------------------------------------------------ queries
SumsToOne(s) == \A l \in ToSet(s.labels) :
  IF s.model = "default" THEN TRUE
  ELSE FoldLeft(LAMBDA a, n : IF s.rules[n].l = l THEN a + s.models[s.model][n] ELSE a, 0, [n \in DOMAIN s.rules |-> n])
       + FoldLeft(LAMBDA a, n : IF s.lex[n].l = l THEN a + s.models[s.model][Len(s.rules) + n] ELSE a, 0, [n \in DOMAIN s.lex |-> n]) = AltDen
RuleNo(s, x) == IF \E n \in DOMAIN s.rules : SameRule(s.rules[n], x)
                THEN (CHOOSE n \in DOMAIN s.rules : SameRule(s.rules[n], x)) - 1 ELSE -1
\* coarse rule that each rule is mapped to, given labels with their coarse labels
Proj(map, r) == [l |-> map[r.l], r |-> [n \in DOMAIN r.r |-> map[r.r[n]]], yf |-> r.yf]
RuleMapping(s, c, map) == [m \in DOMAIN c.rules |-> {n - 1 : n \in {n \in DOMAIN s.rules : SameRule(Proj(map, s.rules[n]), c.rules[m])}}]
=============================================================================
