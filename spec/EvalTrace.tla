----------------------------- MODULE EvalTrace -----------------------------
(* op = "session": trees are added to an evaluator (cli: by the command     *)
(*                 line tool), parameters p                                 *)
(* others: auxiliary functions of the module                                *)
EXTENDS Eval, TraceBase
\* the same tree with another member of the class of each label
RECURSIVE Equal(_, _, _)
Equal(t, u, eq) == /\ t.i = u.i /\ t.f = u.f /\ Len(t.k) = Len(u.k)
   /\ Cls(t.l, eq) = Cls(u.l, eq)
   /\ \A n \in DOMAIN t.k : Equal(t.k[n], u.k[n], eq)
OBag(b, eq) == TLCEval([n \in DOMAIN b |-> <<IF b[n][1] = "" THEN {""} ELSE Cls(b[n][1], eq), ToSet(b[n][2])>>])
Trim(s) == CASE s = NaN -> "nan" [] s = ZeroDiv -> "0DIV!" [] SubSeq(s, 1, 1) # " " -> s
             [] SubSeq(s, 1, 2) = "  " -> SubSeq(s, 3, 6) [] OTHER -> SubSeq(s, 2, 6)

BadPair(x, e, o, p) ==
  LET eq == EqFun(p.EQL) k == Counts(<<e>>, p) IN
  Clause("transformed trees", Equal(e.g, o.g, eq) /\ Equal(e.c, o.c, eq))
  \cup Clause("remaining tags", o.gp = e.gp /\ o.cp = e.cp)
  \cup Clause("remaining words", [n \in DOMAIN o.words |-> Cls(o.words[n], EqFun(p.EQW))] = e.words)
  \cup Clause("sentence length", o.len = e.len)
  \cup Clause("brackets", SameBag(OBag(o.gb, eq), e.gb) /\ SameBag(OBag(o.cb, eq), e.cb))
  \cup Clause("scores of pair", SubSeq(o.sc, 1, 4) = <<Recall(k), Precision(k), F(k), PosAcc(k)>>)
  \cup Clause("function tags of pair", p.LABELED = 0 \/ o.sc[5] = Fun(k))
Near(a, b, eps) == a - b <= eps /\ b - a <= eps
\* other metrics of a pair
Dp(x) == IF Has(x) THEN [m |-> Cardinality(UDeps(x.g) \cap UDeps(x.c)), n |-> Len(x.gp)] ELSE [m |-> 0, n |-> 0]
La(x, p) == LeafAncestor(x.g, x.c, ToSet(p.DL), Len(x.gp))
OSet(d) == {<<d[n][1], d[n][2]>> : n \in DOMAIN d}
Diff(a, b) == {x \in ToSet(a) : Times(a, x) > Times(b, x)}
BadMore(e, o, p) ==
  LET eq == EqFun(p.EQL) IN
  Clause("leaf ancestor score", IF p.LA # 0 /\ Has(e) THEN Near(o.la, La(e, p), 12) ELSE o.la = -1)
  \cup Clause("leaf ancestor score of equal trees", p.LA = 0 \/ ~Has(e) \/ (o.la = Scale) =
          (\A n \in 0..(Len(e.gp) - 1) : Lineage(e.g, n, ToSet(p.DL)) = Lineage(e.c, n, ToSet(p.DL))))
  \cup Clause("tree distance", o.ted = IF p.TED # 0 /\ Has(e) THEN <<ToString(TedNum(e)), ToString(TedDen(e, p))>>
                    ELSE <<"NaN", "NaN">>)
  \cup Clause("dependencies", IF p.DEP # 0 /\ Has(e) THEN OSet(o.gdep) = UDeps(e.g) /\ OSet(o.cdep) = UDeps(e.c)
                    /\ Len(o.gdep) = Len(e.gp) /\ Len(o.cdep) = Len(e.gp) ELSE o.gdep = <<>> /\ o.cdep = <<>>)
  \cup Clause("differences", ToSet(OBag(o.cdiff, eq)) = Diff(e.cb, e.gb) /\ ToSet(OBag(o.gdiff, eq)) = Diff(e.gb, e.cb)
                    /\ Len(o.cdiff) = Cardinality(Diff(e.cb, e.gb)) /\ Len(o.gdiff) = Cardinality(Diff(e.gb, e.cb)))
Within(prs, cut) == SelectSeq(prs, LAMBDA x : x.len <= cut)
\* the summary: rows of name and values
Summary(prs, p) ==
  LET k == Counts(prs, p) short == Counts(Within(prs, p.CUT), p)
      all == k.max <= p.CUT
      disc == k.gd + k.cd > 0
      row(name, f(_)) == IF all THEN <<name, Trim(f(k))>> ELSE <<name, Trim(f(short)), Trim(f(k))>>
      num(name, f(_)) == IF all THEN <<name, ToString(f(k))>> ELSE <<name, ToString(f(short)), ToString(f(k))>>
      brack == IF all /\ disc THEN <<<<"gold brackets (disc.)", ToString(k.g), ToString(k.gd)>>,
                                     <<"cand. brackets (disc.)", ToString(k.c), ToString(k.cd)>>>>
               ELSE <<num("gold brackets", LAMBDA y : y.g), num("cand. brackets", LAMBDA y : y.c)>>
                    \o (IF ~all /\ disc THEN <<num("disc. gold brackets", LAMBDA y : y.gd),
                                               num("disc. cand. brackets", LAMBDA y : y.cd)>> ELSE <<>>)
  IN <<IF all THEN <<"ALL">> ELSE <<"<=", ToString(p.CUT)>>,
       num("number of sentences", LAMBDA y : y.n), num("longest sentence", LAMBDA y : y.max)>> \o brack
     \o <<row("labeled recall", Recall), row("labeled precision", Precision), row("labeled f-measure", F),
          row("exact match", Exact)>>
     \o (IF k.fc > 0 THEN <<row("function tags", Fun)>> ELSE <<>>) \o <<row("pos accuracy", PosAcc)>>
Extra == {"leaf-ancestor", "tree-dist (Dice micro avg)", "unlabeled dependencies"}
SumRows(s, p) == SelectSeq(s, LAMBDA x : x[1] \notin Extra /\ (p.LABELED # 0 \/ x[1] # "function tags"))
\* rows of the other metrics: hundredths or -1
ExtraRow(prs, p) ==
  LET some == SelectSeq(prs, Has)
      tn == Total(some, TedNum) td == Total(some, LAMBDA x : TedDen(x, p))
      dm == Total(prs, LAMBDA x : Dp(x).m) dn == Total(prs, LAMBDA x : Dp(x).n)
  IN [la |-> IF p.LA = 0 \/ some = <<>> THEN -1 ELSE Total(some, LAMBDA x : La(x, p)) \div Len(some),
      ted |-> IF p.TED = 0 THEN "" ELSE Trim(Frac(td - tn, td)),
      dep |-> IF p.DEP = 0 THEN "" ELSE Trim(Frac(dm, dn))]
\* o: rows as read: <<name, value>> or <<name, value, value>>
RowOf(o, name) == LET s == SelectSeq(o, LAMBDA x : x[1] = name) IN IF s = <<>> THEN <<>> ELSE s[1]
BadExtra(es, o, p, sum, hund) ==
  LET all == Counts(es, p).max <= p.CUT
      x == ExtraRow(es, p) y == IF all THEN x ELSE ExtraRow(Within(es, p.CUT), p)
      ted == RowOf(sum, "tree-dist (Dice micro avg)") dep == RowOf(sum, "unlabeled dependencies")
      row(name, a, b) == IF all THEN <<name, a>> ELSE <<name, b, a>>
      \* hundredths of percents, from 10^-7
      la(h, v) == IF v = -1 THEN h = -1 ELSE Near(h * 1000, v, 520)
  IN Clause("total tree distance", ted = IF p.TED = 0 THEN <<>> ELSE row("tree-dist (Dice micro avg)", x.ted, y.ted))
     \cup Clause("total dependencies", dep = IF p.DEP = 0 THEN <<>> ELSE row("unlabeled dependencies", x.dep, y.dep))
     \cup Clause("total leaf ancestor", IF p.LA = 0 THEN hund = <<>> ELSE
            IF all THEN Len(hund) = 1 /\ la(hund[1], x.la) ELSE Len(hund) = 2 /\ la(hund[1], y.la) /\ la(hund[2], x.la))
\* line of a sentence
InfoRow(n, e, p) == LET k == Counts(<<e>>, p) IN
   <<n, ToString(e.len), Trim(Recall(k)), Trim(Precision(k)), ToString(k.m), ToString(k.g), ToString(k.c),
     ToString(k.pn), ToString(k.pm), Trim(PosAcc(k))>>
   \o (IF k.fc > 0 /\ p.LABELED # 0 THEN <<Trim(Fun(k))>> ELSE <<>>)
   \o (IF p.LA # 0 THEN <<"LA">> ELSE <<>>)
   \o (IF p.TED = 0 THEN <<>> ELSE IF ~Has(e) THEN <<"nan">> ELSE
        <<Trim(Frac(TedDen(e, p) - TedNum(e), TedDen(e, p)))>>)
\* bags over all sentences: <<number, item>>
All(es, f(_)) == Cat([n \in DOMAIN es |-> LET b == f(es[n]) IN [m \in DOMAIN b |-> <<n, b[m]>>]])
\* table of scores per category; cat(item)
Rows(gold, cand, cat(_)) ==
  LET cats == {cat(x[2]) : x \in ToSet(gold) \cup ToSet(cand)} IN
  {LET g == SelectSeq(gold, LAMBDA x : cat(x[2]) = c) d == SelectSeq(cand, LAMBDA x : cat(x[2]) = c)
       m == Common(g, d) IN
    <<c, Trim(Frac(Len(g), Len(gold))), Trim(Pct(m, Len(g))), Trim(Pct(m, Len(d))), Trim(FScore(m, Len(g), Len(d)))>>
    : c \in cats}
More(s, u) == {x \in ToSet(s) : Times(s, x) > Times(u, x)}
\* confusions: items of the candidate only against items of the gold tree only with the same key;
\* {} when a key has several
Confusions(gold, cand, key(_), val(_)) ==
  LET og == More(gold, cand) oc == More(cand, gold) IN
  IF \E x, y \in og : x # y /\ key(x) = key(y) THEN [amb |-> TRUE] ELSE
  LET wrong == {y \in oc : \E x \in og : key(x) = key(y)}
      v(y) == <<val(y), val(CHOOSE x \in og : key(x) = key(y))>>
  IN [amb |-> FALSE, s |-> {<<c[1], c[2], Cardinality({y \in wrong : v(y) = c})>> : c \in {v(y) : y \in wrong}}]
Listed(c, rows, f(_)) == c.amb \/ {<<f(rows[n][1]), f(rows[n][2]), rows[n][3]>> : n \in DOMAIN rows} = c.s
\* constituents with their parents
RECURSIVE WithParents(_, _, _, _)
WithParents(t, par, p, eq) == IF t.k = <<>> \/ IsPre(t) THEN {} ELSE
  (IF t.l \notin ToSet(p.DL) /\ (p.DISC = 0 \/ FanOut(Yield(t)) > 1) THEN {<<Cls(t.l, eq), Yield(t), par>>} ELSE {})
  \cup UNION {WithParents(t.k[n], Cls(t.l, eq), p, eq) : n \in DOMAIN t.k}
Attach(es, f(_), p, eq) == UNION {{<<n>> \o x : x \in WithParents(f(es[n]), {""}, p, eq)} : n \in DOMAIN es}
\* rows [cat, cand parent, gold parent, count]
BadAtt(es, o, p, eq) ==
  LET g == Attach(es, LAMBDA x : x.g, p, eq) c == Attach(es, LAMBDA x : x.c, p, eq)
      og == g \ c oc == c \ g
      key(x) == <<x[1], x[2], x[3]>>
      wrong == {x \in oc : \E y \in og : key(x) = key(y)}
      v(x) == <<x[2], x[4], (CHOOSE y \in og : key(x) = key(y))[4]>>
      cl(s) == Cls(s, eq)
  IN IF \E x, y \in og : x # y /\ key(x) = key(y) THEN {}
     ELSE Clause("attachment errors", {<<cl(r[1]), cl(r[2]), cl(r[3]), r[4]>> : r \in ToSet(o.atts)}
                 = {<<w[1], w[2], w[3], Cardinality({x \in wrong : v(x) = w})>> : w \in {v(x) : x \in wrong}})
BadTables(es, o, p) ==
  LET eq == EqFun(p.EQL) cl(s) == Cls(s, eq)
      gb == All(es, LAMBDA x : x.gb) cb == All(es, LAMBDA x : x.cb)
      gf == All(es, LAMBDA x : x.gf) cf == All(es, LAMBDA x : x.cf)
      gp == All(es, LAMBDA x : x.gp) cp == All(es, LAMBDA x : x.cp)
      pos(s) == [n \in DOMAIN s |-> <<n, s[n][2]>>]
      k == Counts(es, p)
      oc == {<<cl(r[1]), r[2], r[3], r[4], r[5]>> : r \in ToSet(o.cats)}
      of == {<<r[1], r[2], r[3], r[4], r[5]>> : r \in ToSet(o.funs)}
      ot == {<<r[1], r[2], r[3], r[4], r[5]>> : r \in ToSet(o.tags)}
      tagrows == {r \in Rows(pos(gp), pos(cp), LAMBDA x : x) : \E n \in DOMAIN gp : gp[n][2] = r[1]}
      wrongtags == {n \in DOMAIN gp : gp[n] # cp[n]}
      te == {<<cp[n][2], gp[n][2]>> : n \in wrongtags}
      full == p.DEBUG >= 1
  IN Clause("category table", oc = Rows(gb, cb, LAMBDA x : x[1]))
     \cup Clause("function table", of = IF cf = <<>> THEN {} ELSE Rows(gf, cf, LAMBDA x : x[3]))
     \cup Clause("tag table", ot = IF k.pm = k.pn THEN {} ELSE tagrows)
     \cup (IF ~full THEN {} ELSE
        Clause("label confusions", Listed(Confusions(gb, cb, LAMBDA x : <<x[1], x[2][2]>>, LAMBDA x : x[2][1]), o.caterrs, cl))
        \cup Clause("function confusions", cf = <<>> \/ Listed(Confusions(gf, cf, LAMBDA x : <<x[1], x[2][1], x[2][2]>>,
                       LAMBDA x : x[2][3]), o.funerrs, LAMBDA s : s))
        \cup Clause("tag confusions", {<<r[1], r[2], r[3]>> : r \in ToSet(o.tagerrs)} =
              IF k.pm = k.pn THEN {} ELSE {<<t[1], t[2], Cardinality({n \in wrongtags : <<cp[n][2], gp[n][2]>> = t})>> : t \in te})
        \cup BadAtt(es, o, p, eq))
BadSession(q, o) ==
  LET p == q.p es == TLCEval([n \in DOMAIN q.prs |-> Pair(q.prs[n], p)])
      failed == \E n \in DOMAIN es : ~es[n].ok IN
  IF failed \/ o.err # "" THEN Clause("sentences match", failed /\ o.err # "")
  ELSE BadExtra(es, o, p, o.sum, o.hund) \cup Clause("summary", SumRows(o.sum, p) = SumRows(Summary(es, p), p))
   \cup (IF q.cli THEN
      Clause("scores of sentences", (IF p.LABELED = 0 THEN [n \in DOMAIN o.info |-> SubSeq(o.info[n], 1, 10)] ELSE o.info)
         = IF p.DEBUG < 1 THEN <<>> ELSE [n \in DOMAIN es |-> IF p.LABELED = 0 THEN SubSeq(InfoRow(q.prs[n].n, es[n], p), 1, 10) ELSE InfoRow(q.prs[n].n, es[n], p)])
      \cup Clause("leaf ancestor of sentences", p.LA = 0 \/ p.DEBUG < 1 \/ \A n \in DOMAIN es :
             IF Has(es[n]) THEN Near(o.las[n] * 1000, La(es[n], p), 520) ELSE o.las[n] = -1)
      \cup (IF p.LABELED = 0 \/ p.DEBUG = -1 THEN Clause("no tables", o.tables = 0) ELSE BadTables(es, o, p))
     ELSE
      Clause("running totals", \A n \in DOMAIN es : LET k == Counts(SubSeq(es, 1, n), p) IN
           /\ SubSeq(o.run[n], 1, 5) = <<Recall(k), Precision(k), F(k), Exact(k), PosAcc(k)>>
           /\ p.LABELED = 0 \/ o.run[n][6] = Fun(k))
      \cup UNION {BadPair(q.prs[n], es[n], o.prs[n], p) \cup BadMore(es[n], o.prs[n], p) : n \in DOMAIN es})
-----------------------------------------------------------------------------
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Join(s) == FoldLeft(LAMBDA a, n : IF n = 1 THEN s[1] ELSE a \o "," \o s[n], "", [n \in DOMAIN s |-> n])
Span(r) == IF r[1] = r[2] THEN ToString(r[1]) ELSE ToString(r[1]) \o "-" \o ToString(r[2])
StrBracket(b) == LET rs == Runs(ToSet(b[2])) IN b[1] \o "[" \o Join([n \in DOMAIN rs |-> Span(rs[n])]) \o "]"
BadUtil(q, o) ==
  CASE q.op = "edit" -> Clause("edit distance", o.d = Lev(q.a, q.b) /\ o.r = Lev(q.a, q.b))
                        \cup Clause("path score", Near(o.p, PathScore(q.a, q.b), 12))
    [] q.op = "mean" -> Clause("mean", IF q.s = <<>> THEN o.m = -1 ELSE Near(o.m, (SumSeq(q.s) * 10000) \div Len(q.s), 1))
         \cup Clause("harmonic mean", IF q.s = <<>> \/ 0 \in ToSet(q.s) THEN o.h = -1
               ELSE Near(o.h, (Len(q.s) * 60 * 10000) \div SumSeq([n \in DOMAIN q.s |-> 60 \div q.s[n]]), 1))
    [] q.op = "span" -> Clause("intervals", o.iv = Runs(ToSet(q.b[1][2])))
         \cup Clause("bracket notation", o.str = [n \in DOMAIN q.b |-> StrBracket(q.b[n])])
    [] q.op = "align" -> LET al == Align(q.c, q.g) IN
         Clause("alignment", ToSet(o.al) = {<<n - 1, "t" \o ToString(al[n])>> : n \in DOMAIN al})
    [] q.op = "closure" -> LET eq == EqFun(q.e) IN
         Clause("equivalence classes", {ToSet(o.c[n][2]) : n \in DOMAIN o.c} = {eq[x] : x \in DOMAIN eq}
            /\ \A n \in DOMAIN o.c : o.c[n][1] \in ToSet(o.c[n][2])
            /\ Len(o.c) = Cardinality({eq[x] : x \in DOMAIN eq}))
Bad(r) == IF r.err # "" THEN {"exception"} ELSE IF r.inp.op # "session" THEN BadUtil(r.inp, r.out) ELSE BadSession(r.inp, r.out)
TCheck == Report(Bad(Rec))
=============================================================================
