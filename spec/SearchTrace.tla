----------------------------- MODULE SearchTrace -----------------------------
(* Sessions of searching treebanks for fragments.  The state consists of    *)
(* the contents of the files and the files opened; every answer is that of  *)
(* a scan of the current contents.                                          *)
EXTENDS Search, TraceBase
Bins(bank) == TLCEval([n \in DOMAIN bank |-> [t |-> DotBin(bank[n].t), sent |-> bank[n].sent]])
Idx(bank) == TLCEval([n \in DOMAIN bank |-> Index(bank[n].t, bank[n].sent)])
\* contents of the files before step n
RECURSIVE Contents(_, _)
Contents(q, n) == IF n = 1 THEN q.banks ELSE LET c == TLCEval(Contents(q, n - 1)) s == q.steps[n - 1] IN
  IF s.k = "write" THEN [c EXCEPT ![s.f + 1] = s.bank] ELSE c
RECURSIVE Opened(_, _)
Opened(q, n) == IF n = 1 THEN <<>> ELSE IF q.steps[n - 1].k = "open" THEN q.steps[n - 1].files ELSE Opened(q, n - 1)
\* labels without function tags and morphology; artificial labels are left
\* out of consideration
RECURSIVE Bar(_, _)
Bar(l, n) == IF n > Len(l) THEN 0 ELSE IF SubSeq(l, n, n) = "|" THEN n ELSE Bar(l, n + 1)
Cut(l) == IF Bar(l, 1) = 0 THEN l ELSE "|"
RECURSIVE CutAll(_)
CutAll(t) == IF IsTerm(t) THEN t ELSE TLCEval([l |-> Cut(t.l), i |-> t.i, k |-> [n \in DOMAIN t.k |-> CutAll(t.k[n])]])
Reduced(s, t) == IF s.nofunc \/ s.nomorph THEN CutAll(t) ELSE t
Strip(q, s, lab) == IF ~(s.nofunc \/ s.nomorph) THEN lab ELSE LET l == Cut(lab) e == {n \in DOMAIN q.labs : q.labs[n][1] = l} IN
  IF e = {} THEN l ELSE q.labs[CHOOSE n \in e : TRUE][IF s.nofunc /\ s.nomorph THEN 4 ELSE IF s.nofunc THEN 2 ELSE 3]
RECURSIVE Stripped(_, _, _)
Stripped(q, s, t) == IF IsTerm(t) THEN t ELSE TLCEval([l |-> Strip(q, s, t.l), i |-> t.i, k |-> [n \in DOMAIN t.k |-> Stripped(q, s, t.k[n])]])
\* words of sentences without escapes
Show(s) == [n \in DOMAIN s |-> IF s[n] = "-LRB-" THEN "(" ELSE IF s[n] = "-RRB-" THEN ")" ELSE s[n]]
\* words of a subtree, with positions from 0 up
Span(t, sent) == LET y == SetToSortSeq(Yield(t), <) IN [n \in DOMAIN y |-> sent[y[n] + 1]]
FragOf(f) == AsFrag(DotBin(f.t), f.sent)
\* views of a match of f at node x of tree b
DiscAt(q, n) == \E m \in ToSet(Opened(q, n)) : q.exts[m + 1] # "mrg"
View(q, s, k, f, num, n, b, x, disc) == LET u == NodeAt(b.t, x) IN TLCEval(
  CASE k = "trees" -> [f |-> num, n |-> n, t |-> Stripped(q, s, b.t), s |-> b.sent, at |-> x]
    [] k = "sents" -> [f |-> num, n |-> n, s |-> b.sent, m1 |-> SetToSortSeq(Matched(f, u), <), m2 |-> SetToSortSeq(Yield(u), <)]
    [] k = "brackets" -> IF disc THEN [f |-> num, n |-> n, t |-> b.t, s |-> b.sent, m |-> u, ms |-> Span(u, b.sent)]
         ELSE [f |-> num, n |-> n, t |-> b.t, s |-> b.sent, m |-> Renumber([y \in Yield(u) |-> y - Min(Yield(u))], u), ms |-> Span(u, b.sent)])
Views(q, s, k, gs, num, bank, disc) == [m \in DOMAIN gs |-> [x \in gs[m][3] |-> View(q, s, k, gs[m][1], num, gs[m][2], bank[gs[m][2]], x, disc)]]
ProperStep(s, r) == r.err # "" \/
  (IF s.k \in {"trees", "extract"} THEN \A n \in DOMAIN r.res : Proper(r.res[n].t)
   ELSE IF s.k = "brackets" THEN \A n \in DOMAIN r.res : Proper(r.res[n].t) /\ Proper(r.res[n].m)
   ELSE IF s.k = "batchbrackets" THEN \A n \in DOMAIN r.res : \A m \in DOMAIN r.res[n].r : Proper(r.res[n].r[m].t) /\ Proper(r.res[n].r[m].m)
   ELSE TRUE)
BadStep(q, n, s, r) ==
  IF r.err # "" THEN {"no error: " \o s.k} ELSE
  IF s.k \in {"write", "open"} THEN {} ELSE
  LET raw == Contents(q, n)
      c == TLCEval([f \in DOMAIN raw |-> Bins(raw[f])])
      subset == IF s.sub = <<>> THEN Opened(q, n) ELSE s.sub
      I == TLCEval([f \in DOMAIN c |-> IF f - 1 \in ToSet(subset) \cup {s.f} THEN Idx(c[f]) ELSE <<>>])
      Q == TLCEval([m \in DOMAIN s.q |-> [a \in DOMAIN s.q[m] |-> FragOf(s.q[m][a])]])
      All(num) == Groups(Q[1], I[num + 1], s.start, s.stop)
      Ind(num) == Cat([m \in DOMAIN All(num) |-> [a \in 1..Cardinality(All(num)[m][3]) |-> All(num)[m][2]]])
      Counts(num) == [m \in DOMAIN Q |-> SizeOf(Groups(Q[m], I[num + 1], s.start, s.stop))]
      \* part of the answer for a file
      Part(num) == SelectSeq([m \in DOMAIN r.res |-> IF s.k = "trees" THEN [r.res[m] EXCEPT !.t = Reduced(s, r.res[m].t)] ELSE r.res[m]], LAMBDA x : x.f = num)
      Nums == [m \in DOMAIN r.res |-> r.res[m].f]
      Place(f) == CHOOSE m \in DOMAIN subset : subset[m] = f
      Answer(k, x, m, num) == AnswerOk(x, Views(q, s, k, Groups(Q[m], I[num + 1], s.start, s.stop), num, c[num + 1], DiscAt(q, n)), s.limit)
      \* answers to several queries follow each other
      Total(m, num) == LimitTo(s.limit, SizeOf(Groups(Q[m], I[num + 1], s.start, s.stop)))
      Off(m, num) == SumSeq([a \in 1..(m - 1) |-> Total(a, num)])
  IN CASE s.k = "counts" -> Clause("counts", r.res = [m \in DOMAIN subset |-> <<subset[m], SizeOf(All(subset[m]))>>])
       [] s.k = "indices" -> Clause("indices", r.res = [m \in DOMAIN subset |-> <<subset[m], Ind(subset[m])>>])
       [] s.k \in {"breakdown", "batchcounts"} -> Clause(s.k, r.res = [m \in DOMAIN subset |-> <<subset[m], Counts(subset[m])>>])
       [] s.k \in {"trees", "sents", "brackets"} ->
            Clause("files in order: " \o s.k, \A m \in DOMAIN Nums : Nums[m] \in ToSet(subset) /\ (m > 1 => Place(Nums[m - 1]) <= Place(Nums[m])))
            \cup Clause("matches: " \o s.k, \A m \in DOMAIN subset : Answer(s.k, Part(subset[m]), 1, subset[m]))
       [] s.k \in {"batchsents", "batchbrackets"} -> Clause("files: " \o s.k, Nums = subset)
            \cup Clause("matches: " \o s.k, \A m \in DOMAIN r.res : LET num == r.res[m].f k == IF s.k = "batchsents" THEN "sents" ELSE "brackets" IN
                   /\ Len(r.res[m].r) = Off(Len(Q) + 1, num)
                   /\ \A a \in DOMAIN Q : Answer(k, SubSeq(r.res[m].r, Off(a, num) + 1, Off(a + 1, num)), a, num))
       [] s.k = "extract" -> Clause("extract", [m \in DOMAIN r.res |-> [r.res[m] EXCEPT !.t = Reduced(s, r.res[m].t)]] = [m \in DOMAIN s.idx |-> LET b == c[s.f + 1][s.idx[m]] IN [t |-> Stripped(q, s, b.t), s |-> b.sent]])
       [] s.k = "extractsents" -> Clause("extract sentences", r.res = [m \in DOMAIN s.idx |-> Show(c[s.f + 1][s.idx[m]].sent)])
       [] s.k = "info" -> LET b == c[s.f + 1] z == [m \in DOMAIN b |-> Cardinality(Paths(b[m].t))] IN
            Clause("size of the corpus", r.res = <<Len(b), SumSeq([m \in DOMAIN b |-> Len(b[m].sent)]), SumSeq(z), Max(ToSet(z))>>)
Bad(r) ==
  IF r.err # "" THEN {"raised exception"} ELSE
  LET q == r.inp o == r.out IN
  IF Len(o.steps) # Len(q.steps) THEN {"number of answers"} ELSE
  UNION {IF ~ProperStep(q.steps[n], o.steps[n]) THEN {"proper tree"} ELSE BadStep(q, n, q.steps[n], o.steps[n]) : n \in DOMAIN q.steps}
TCheck == Report(Bad(Rec))
=============================================================================
