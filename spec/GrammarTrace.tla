----------------------------- MODULE GrammarTrace ----------------------------
(* Histories of real grammar objects: after each operation, the contents    *)
(* of the object are compared with the state of the specification.          *)
EXTENDS TraceBase, GrammarObj
IsInit(o) == o.op = "new"
ModelsOf(ms) == [a \in {ms[n][1] : n \in DOMAIN ms} |-> ms[CHOOSE n \in DOMAIN ms : ms[n][1] = a][2]]
Apply(s, q, o) ==
  CASE o.op = "new" -> Compile(q.start, q.text, q.backs, ModelsOf(q.models))
    [] o.op = "add" -> Add(s, o.text, o.backs, FALSE)
    [] o.op = "switch" -> Switch(s, o.name, o.logp)
    [] o.op = "mask" -> SetMask(s, o.nos, o.clear)
    [] o.op = "incr" -> Incr(s, o.no, o.k)
    [] o.op = "bin" -> FromBin(s, ModelsOf(q.models))
    [] o.op = "pickle" -> Pickled(s)
    [] OTHER -> s
MapOf(ps) == LET names == [n \in DOMAIN ps |-> ps[n][1]] IN
   [l \in ToSet(names) |-> ps[CHOOSE n \in DOMAIN ps : ps[n][1] = l][2]]
SameP(a, b) == a[1] * b[2] = a[2] * b[1]
Ix(S) == {<<S[n][1], S[n][2]>> : n \in DOMAIN S}
BadDump(s, d) ==
  LET N == 0..Len(s.rules) - 1
      r(n) == s.rules[n + 1]
      ixok(S, want) == Len(S) = Cardinality(want) /\ Ix(S) = want /\ \A n \in DOMAIN S : SameP(S[n][3], s.prule[S[n][2] + 1]) IN
  Clause("labels", d.labels = s.labels /\ d.toid = s.labels /\ d.toidnos = [n \in 1..Len(s.labels) + 1 |-> n - 1])
  \cup Clause("fanouts", d.fan = s.fan)
  \cup (IF Len(d.rules) # Len(s.rules) THEN {"rules"} ELSE
        Clause("rules", \A n \in N : LET x == d.rules[n + 1] IN x.no = n /\ x.l = r(n).l /\ x.r = r(n).r /\ x.yf = r(n).yf)
        \cup Clause("counts", \A n \in N : d.rules[n + 1].c = r(n).c)
        \cup Clause("probabilities", \A n \in N : SameP(d.rules[n + 1].p, s.prule[n + 1]))
        \cup Clause("index", ixok(d.index.lhs, {<<r(n).l, n>> : n \in N})
              /\ ixok(d.index.un, {<<r(n).r[1], n>> : n \in {n \in N : Len(r(n).r) = 1}})
              /\ ixok(d.index.left, {<<r(n).r[1], n>> : n \in {n \in N : Len(r(n).r) = 2}})
              /\ ixok(d.index.right, {<<r(n).r[2], n>> : n \in {n \in N : Len(r(n).r) = 2}})))
  \cup Clause("mass", d.mass = [n \in DOMAIN s.labels |-> Mass(s, s.labels[n])])
  \cup Clause("lexicon", Len(d.lex) = Len(s.lex) /\ {<<d.lex[n].w, d.lex[n].l, d.lex[n].c>> : n \in DOMAIN d.lex} = {<<s.lex[n].w, s.lex[n].l, s.lex[n].c>> : n \in DOMAIN s.lex})
  \cup Clause("tag-probabilities", \A n \in DOMAIN d.lex : \E m \in DOMAIN s.lex :
          d.lex[n].w = s.lex[m].w /\ d.lex[n].l = s.lex[m].l /\ SameP(d.lex[n].p, s.plex[m]))
  \cup Clause("tags", Len(d.pos) = Cardinality(ToSet(d.pos)) /\ ToSet(d.pos) = {s.lex[n].l : n \in DOMAIN s.lex})
  \cup Clause("mask", ToSet(d.masked) = s.masked)
  \cup Clause("start", d.start = s.labels[1])
  \cup Clause("model", d.model = s.model /\ d.logp = s.logp)
  \cup Clause("backtransform", Len(d.back) <= Len(s.back)
         /\ \A n \in DOMAIN s.back : s.back[n] = (IF n \in DOMAIN d.back THEN d.back[n] ELSE ""))
  \* rulestr(n) describes the rule in position n of those sorted by label
  \cup Clause("listing", LET L == d.listing IN
         /\ Len(L) = Len(s.rules) /\ {L[n].no : n \in DOMAIN L} = N
         /\ \A n \in DOMAIN L : L[n].no \in N => /\ L[n].l = r(L[n].no).l /\ L[n].r = r(L[n].no).r /\ L[n].yf = r(L[n].no).yf
                                                 /\ L[n].c = r(L[n].no).c /\ L[n].mass = Mass(s, L[n].l))
  \cup Clause("test", d.sums = SumsToOne(s))
\* answers to questions
BadQuery(s, o, d) ==
  CASE o.op = "ruleno" -> Clause("ruleno", d = RuleNo(s, o.r))
    [] o.op = "words" -> Clause("words", Len(d.words) = Cardinality(ToSet(d.words)) /\ ToSet(d.words) = {s.lex[n].w : n \in DOMAIN s.lex}
           /\ \A n \in DOMAIN d.probs : LET E == {m \in DOMAIN s.lex : s.lex[m].w = d.probs[n][1]} IN
                 /\ Len(d.probs[n][2]) = Cardinality(E)
                 /\ \A m \in E : \E k \in DOMAIN d.probs[n][2] : SameP(d.probs[n][2][k], s.plex[m]))
    [] o.op = "rulemap" -> LET c == Compile(s.labels[1], o.coarse, <<>>, [a \in {} |-> <<>>])
                               m == RuleMapping(s, c, MapOf(o.map)) IN
           IF IsBad(c) THEN {"coarse-grammar"}
           ELSE Clause("rulemap", Len(d) = Len(m) /\ \A n \in DOMAIN m : Len(d[n]) = Cardinality(m[n]) /\ ToSet(d[n]) = m[n])
    [] o.op = "map" -> LET f == MapOf(o.map) IN
           Clause("map", Len(d) = Len(s.labels) + 1 /\ d[1] = "" /\ \A n \in DOMAIN s.labels : d[n + 1] = f[s.labels[n]])
IsQuery(o) == o.op \in {"ruleno", "words", "rulemap", "map"}
\* one step of a history
RECURSIVE Walk(_, _, _, _, _)
Walk(s, q, ops, outs, n) ==
  IF n > Len(ops) THEN {}
  ELSE IF n > Len(outs) THEN {"missing"}
  ELSE IF IsQuery(ops[n])
       THEN IF outs[n].err # "" THEN {"exception"} ELSE BadQuery(s, ops[n], outs[n].d) \cup Walk(s, q, ops, outs, n + 1)
       ELSE LET t == TLCEval(Apply(s, q, ops[n])) IN
            IF IsBad(t) THEN Clause("rejected", outs[n].err = "ValueError")
            ELSE IF outs[n].err # "" THEN {"exception"}
            ELSE BadDump(t, outs[n].d) \cup Walk(t, q, ops, outs, n + 1)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Walk(Wrong, r.inp, r.inp.ops, r.out.steps, 1)
TCheck == Report(Bad(Rec))
=============================================================================
