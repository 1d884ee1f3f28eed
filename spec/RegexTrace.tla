----------------------------- MODULE RegexTrace -----------------------------
(* Sessions of searching texts with regular expressions.  The state is the  *)
(* contents of the files and how they were opened; every answer is that of  *)
(* a scan of the sentences.                                                 *)
EXTENDS Regex, TraceBase
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN 0 ELSE s[1] + RSum(Tail(s))
RECURSIVE Contents(_, _)
Contents(q, n) == IF n = 1 THEN q.texts ELSE LET c == TLCEval(Contents(q, n - 1)) s == q.steps[n - 1] IN
  IF s.k = "write" THEN [c EXCEPT ![s.f + 1] = s.text] ELSE c
RECURSIVE Opening(_, _)
Opening(q, n) == IF q.steps[n - 1].k = "open" THEN q.steps[n - 1] ELSE Opening(q, n - 1)
Clipped(limit, s) == IF limit = 0 THEN s ELSE SubSeq(s, 1, Min({limit, Len(s)}))
BadStep(q, n, s, r) ==
  IF r.err # "" THEN {"no error: " \o s.k} ELSE
  IF s.k \in {"write", "open"} THEN {} ELSE
  LET c == TLCEval(Contents(q, n))
      o == Opening(q, n)
      subset == IF s.sub = <<>> THEN o.files ELSE s.sub
      S == TLCEval([f \in DOMAIN c |-> Sentences(c[f])])
      Found(m, f) == TLCEval(Scan(s.q[m], c[f + 1], s.start, s.stop, o.ic))
      Answer(m, f) == LET x == Clipped(s.limit, Found(m, f)) IN
        [y \in DOMAIN x |-> [n |-> x[y][1], s |-> S[f + 1][x[y][1]], m |-> [z \in 1..(x[y][3] - x[y][2]) |-> x[y][2] + z - 2]]]
      Strings(f) == LET x == Found(1, f) IN [y \in DOMAIN x |-> SubSeq(S[f + 1][x[y][1]], x[y][2], x[y][3] - 1)]
      Tally(b) == {<<b[y], Cardinality({z \in DOMAIN b : b[z] = b[y]})>> : y \in DOMAIN b}
  IN CASE s.k = "counts" -> Clause("counts", r.res = [m \in DOMAIN subset |-> <<subset[m], Len(Found(1, subset[m]))>>])
       [] s.k = "indices" -> Clause("indices", r.res = [m \in DOMAIN subset |-> <<subset[m], LET x == Found(1, subset[m]) IN [y \in DOMAIN x |-> x[y][1]]>>])
       [] s.k = "breakdown" -> Clause("files: breakdown", [m \in DOMAIN r.res |-> r.res[m][1]] = subset)
            \cup Clause("breakdown", \A m \in DOMAIN r.res : LET b == r.res[m][2] IN
                  ToSet(b) = Tally(Strings(r.res[m][1])) /\ Len(b) = Cardinality(ToSet(b)))
       [] s.k = "batchcounts" -> Clause("batch counts", r.res = [m \in DOMAIN subset |-> <<subset[m], [x \in DOMAIN s.q |-> Len(Found(x, subset[m]))]>>])
       [] s.k = "sents" -> Clause("matches", r.res = RCat([m \in DOMAIN subset |-> LET a == Answer(1, subset[m]) IN
            [x \in DOMAIN a |-> [f |-> subset[m], n |-> a[x].n, s |-> a[x].s, m |-> a[x].m]]]))
       [] s.k = "batchsents" -> Clause("batch: matches", r.res = [m \in DOMAIN subset |-> [f |-> subset[m], r |-> RCat([x \in DOMAIN s.q |-> Answer(x, subset[m])])]])
       [] s.k = "extract" -> Clause("extract", r.res = [m \in DOMAIN s.idx |-> S[s.f + 1][s.idx[m]]])
       [] s.k = "info" -> Clause("size of the corpus", r.res = <<Len(S[s.f + 1]),
            RSum([m \in DOMAIN S[s.f + 1] |-> 1 + Cardinality({x \in DOMAIN S[s.f + 1][m] : S[s.f + 1][m][x] = 32})])>>)
Bad(r) ==
  IF r.err # "" THEN {"raised exception"} ELSE
  LET q == r.inp o == r.out IN
  IF Len(o.steps) # Len(q.steps) THEN {"number of answers"} ELSE
  UNION {BadStep(q, n, q.steps[n], o.steps[n]) : n \in DOMAIN q.steps}
TCheck == Report(Bad(Rec))
=============================================================================
