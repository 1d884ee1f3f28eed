---------------------------- MODULE FormatsTrace ----------------------------
EXTENDS Formats, TraceBase
ProperA(t) == Proper(t) /\ \A x \in NodeSet(t) : \A n \in DOMAIN x.k : x.k[n].i >= 0 \/ "x" \in DOMAIN x.k[n]
Sorted(fmt) == fmt \notin {"bracket", "discbracket"}
Eq(fmt, a, b) == IF Sorted(fmt) THEN Norm(a) = Norm(b) ELSE NormKeep(a) = NormKeep(b)
\* words of tokens that are absent are kept as such in the bracket formats
BadStage(s, t, sent, key, cmt) ==
  LET want == Remain(s.fmt, t) IN
   (IF ~ProperA(s.t) THEN {"improper tree"} ELSE
     Clause("tree read back", Eq(s.fmt, s.t, want))
     \cup Clause("read back as written, in order", Sorted(s.fmt) => IsCanonical(s.t)))
   \cup Clause("tokens read back", s.sent = sent)
   \cup Clause("read incrementally", Len(s.inc) = 1 /\ s.inc[1].sent = sent /\ Proper(s.inc[1].t)
        /\ Plain(CanonA(s.inc[1].t)) = Plain(CanonA(want))
        /\ (s.fmt = "export" => Norm(s.inc[1].t) = Norm(want)))
   \cup (CASE s.fmt = "export" ->
            Clause("table", ExportShape(s.tab) /\ Words(s.tab) = sent /\ Norm(ReadExport(s.tab)) = Norm(want))
            \cup Clause("identifier and comment", s.head = <<"#BOS " \o key \o (IF cmt = "" THEN "" ELSE " %% " \o cmt), "#EOS " \o key, "">>
                                                  /\ s.key = key /\ s.comment = cmt)
        [] s.fmt = "alpino" ->
            Clause("spans", LET ns == Nodes(t) IN s.xml.nodes = [n \in DOMAIN ns |-> <<n - 1, First(ns[n]), Max(Yield(ns[n])) + 1>>])
            \cup Clause("sentence", s.xml.sent = Join(sent, " "))
            \cup Clause("identifier and comment", s.key = "d/" \o key /\ s.comment = (IF cmt = "" THEN key ELSE key \o "|" \o cmt))
        [] s.fmt = "bracket" -> Clause("text", s.text = Bracketed(Plain(t), sent)) \cup Clause("identifier", s.key = "1")
        [] s.fmt = "discbracket" ->
            Clause("text", s.text = (IF cmt = "" THEN DiscBracketed(Plain(t), sent)
                 ELSE LET d == DiscBracketed(Plain(t), sent) IN SubSeq(d, 1, Len(d) - 1) \o "\t" \o cmt \o "\n"))
            \cup Clause("identifier and comment", s.key = "1" /\ s.comment = cmt)
        [] OTHER -> {"unknown format"})
\* each stage starts from what was read in the previous stage, which equals
\* what the formats so far represent
RECURSIVE BadStages(_, _, _, _, _)
BadStages(ss, t, sent, key, cmt) == IF ss = <<>> THEN {}
  ELSE LET b == BadStage(ss[1], t, sent, key, cmt) IN
   IF b # {} THEN b ELSE BadStages(Tail(ss), ss[1].t, sent, key, cmt)
EmptyStr(s) == IF s = "None" THEN "" ELSE s
BadChain(q, o) == BadStages(o.stages, q.t, q.sent, q.key, q.comment)
  \cup Clause("whole chain", LET s == o.stages[Len(o.stages)] IN ProperA(s.t) /\ Norm(s.t) = Norm(Chain(q.fmts, q.t)))
  \cup Clause("tokens", o.tokens = "1|" \o Join(TLCEval([n \in DOMAIN q.sent |-> EmptyStr(q.sent[n])]), " ") \o "\n")
  \cup Clause("tokens with tags", LET c == Chain(q.fmts, q.t) IN o.wordpos =
         Join(TLCEval([n \in DOMAIN q.sent |-> EmptyStr(q.sent[n]) \o "/" \o PreOf(c, n - 1).l]), " ") \o "\n")
BadRead(q, o) == IF ~ProperA(o.t) THEN {"improper tree"} ELSE
   Clause("tree", LET t == Every(LAMBDA y : [y EXCEPT !.l = NoParens(@)], q.t) IN EdgesBag(Norm(o.t)) = EdgesBag(Norm(t)))
   \cup Clause("order", IsCanonical(o.t))
   \cup Clause("tokens", o.sent = q.sent)
   \cup Clause("identifier", o.key = (CASE q.fmt = "alpino" -> "x" [] q.fmt = "ftb" -> "x-s1" [] OTHER -> "s1"))
\* reading with functions, morphology and lemmas; canonical order of children
BadDec(q, o) == IF ~Proper(o.t) THEN {"improper tree"} ELSE
  LET t == IF q.fmt = "export" THEN AsRoot(Every(ExportNode, q.t)) ELSE q.t IN
   Clause("labels", Canonical(o.t) = Canonical(Decorate(t, q.fn, q.mo, q.le, TRUE, FALSE)))
   \cup Clause("tokens", o.sent = DecSent(q.t, q.sent, q.le))
BadFunc(q, o) == IF ~Proper(o.t) THEN {"improper tree"} ELSE
   Clause("labels", o.t = Decorate(q.t, q.fn, "no", "no", q.pos, q.root))
BadBrk(q, o) == IF ~ProperA(o.t) THEN {"improper tree"} ELSE
   LET w == Remain("bracket", q.t) IN
   Clause("labels and functions", NormKeep(o.t) = NormKeep(IF q.fn = "remove" THEN Every(LAMBDA y : [y EXCEPT !.l = CutLabel(@)], w) ELSE w))
\* writing labels with morphology in export format
BadWMorph(q, o) == LET rows == Tokens_(o.tab) IN
   Clause("tag and morphology", \A n \in DOMAIN rows : LET x == PreOf(q.t, n - 1) s == IndexOf(x.l, "/", 1) IN
       <<rows[n][3], rows[n][4]>> =
         (IF x.m # None THEN <<x.l, x.m>>
          ELSE IF q.mo = "replace" THEN <<x.l, x.l>>
          ELSE IF q.mo = "add" /\ s > 0 THEN <<SubSeq(x.l, 1, s - 1), SubSeq(x.l, s + 1, Len(x.l))>>
          ELSE <<x.l, None>>))
Bad(r) == IF r.err # "" THEN {"exception"} ELSE LET q == r.inp o == r.out IN
  CASE q.op = "chain" -> BadChain(q, o)
    [] q.op = "read" -> BadRead(q, o)
    [] q.op = "dec" -> BadDec(q, o)
    [] q.op = "func" -> BadFunc(q, o)
    [] q.op = "brk" -> BadBrk(q, o)
    [] q.op = "wmorph" -> BadWMorph(q, o)
    [] OTHER -> {"unknown op"}
TCheck == Report(Bad(Rec))
=============================================================================
