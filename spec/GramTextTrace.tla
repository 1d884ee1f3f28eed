--------------------------- MODULE GramTextTrace ---------------------------
(* Grammars as text.  Weights are compared as strings (exact values) where  *)
(* they are copied and as fractions where they are added.                   *)
(* A rule is [p |-> production, w |-> exact weight].                        *)
EXTENDS Gram, TraceBase
RECURSIVE Digits(_)
Digits(s) == IF s = <<>> THEN "" ELSE ToString(s[1]) \o Digits(Tail(s))
RECURSIVE YfStr(_)
YfStr(yf) == IF Len(yf) = 1 THEN Digits(yf[1]) ELSE Digits(yf[1]) \o "," \o YfStr(Tail(yf))
Phrasal(g) == SelectSeq(g, LAMBDA x : ~IsLex(x.p))
Lex(g) == SelectSeq(g, LAMBDA x : IsLex(x.p))
\* lines as <<fields, weight>>
RuleLine(x, bitpar) == <<IF bitpar THEN x.p.r ELSE x.p.r \o <<YfStr(x.p.yf)>>, x.w>>
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Uniq(SelectSeq(s, LAMBDA y : y # s[1]))
\* a parenthesis in a word is only escaped within the program
Unesc(w) == IF w = "#LRB#" THEN "(" ELSE IF w = "#RRB#" THEN ")" ELSE w
LexLines(g) == LET lx == Lex(g) ws == Uniq([n \in DOMAIN lx |-> lx[n].p.w]) IN
  [n \in DOMAIN ws |-> <<Unesc(ws[n]), LET xs == SelectSeq(lx, LAMBDA x : x.p.w = ws[n]) IN [m \in DOMAIN xs |-> <<xs[m].p.r[1], xs[m].w>>]>>]
UnescRule(x) == [p |-> [x.p EXCEPT !.w = Unesc(@)], w |-> x.w]
BadWrite(q, o) ==
  LET ph == Phrasal(q.g) IN
   Clause("rules file", o.rules = [n \in DOMAIN ph |-> RuleLine(ph[n], q.bitpar)])
   \cup Clause("lexicon file", o.lex = LexLines(q.g))
   \cup Clause("rules read by the generator", q.ints \/ ToSet(o.gen) = {UnescRule(x) : x \in ToSet(q.g)})
   \cup Clause("rules read by the parser", q.gram => ToSet(o.gram) = {UnescRule(x) : x \in ToSet(q.g)})
\* merging: q.files[f] is a sequence of [key, num, den]
KeySum(files, k) == FoldLeft(Plus, <<0, 1>>, Cat([f \in DOMAIN files |->
     LET s == SelectSeq(files[f], LAMBDA x : x.key = k) IN [n \in DOMAIN s |-> <<s[n].num, s[n].den>>]]))
RECURSIVE Subseq(_, _)
Subseq(s, u) == s = <<>> \/ (u # <<>> /\ IF s[1] = u[1] THEN Subseq(Tail(s), Tail(u)) ELSE Subseq(s, Tail(u)))
BadMerge(q, o) == LET ks == UNION {{x.key : x \in ToSet(q.files[f])} : f \in DOMAIN q.files}
                      outk == [n \in DOMAIN o.merged |-> o.merged[n].key] IN
   Clause("every rule once", ToSet(outk) = ks /\ IsInjective(outk))
   \cup Clause("weights averaged over files", \A x \in ToSet(o.merged) : x.key \in ks =>
          <<x.num, x.den>> = Times(KeySum(q.files, x.key), <<1, Len(q.files)>>))
   \cup Clause("order of files is kept", q.kind = "lexicon" \/ \A f \in DOMAIN q.files : Subseq(Uniq([n \in DOMAIN q.files[f] |-> q.files[f][n].key]), outk))
\* summary per run of rules with the same left-hand side
RECURSIVE RunsOf(_)
RunsOf(s) == IF s = <<>> THEN <<>> ELSE
  LET r == RunsOf(Tail(s)) x == s[1] IN
   IF r # <<>> /\ r[1][1] = x.lhs THEN <<<<x.lhs, r[1][2] + 1, Plus(<<x.num, x.den>>, r[1][3])>>>> \o Tail(r)
   ELSE <<<<x.lhs, 1, Frac(x.num, x.den)>>>> \o r
Bad(r) == IF r.err # "" THEN {"exception"} ELSE LET q == r.inp o == r.out IN
  IF q.op = "write" THEN BadWrite(q, o)
  ELSE IF q.op = "merge" THEN BadMerge(q, o)
  ELSE IF q.op = "info" THEN Clause("summary", o.info = RunsOf(q.lines))
  ELSE Clause("weight to text and back", o.back = o.w /\ o.split = o.w)
TCheck == Report(Bad(Rec))
=============================================================================
