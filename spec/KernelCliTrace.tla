--------------------------- MODULE KernelCliTrace ---------------------------
(* The command line tool for fragment extraction: trees are binarized when  *)
(* they are read; a run compares the first treebank with itself or with one *)
(* or more others.  o.runs: for every comparison the lines of output, as    *)
(* [t, s, n, d, x]: frequency n (relative frequency n/d), indices x.        *)
EXTENDS Kernel, Binarization, TraceBase
DotPar == [factor |-> "right", h |-> 999, v |-> 1, revh |-> 0, markhead |-> FALSE, ho |-> FALSE,
   tail |-> "", lmu |-> FALSE, rmu |-> FALSE, thr |-> 2, artpa |-> TRUE, dot |-> TRUE, dir |-> FALSE,
   filt |-> <<>>, lf |-> FALSE]
RECURSIVE WithHd(_)
WithHd(t) == TLCEval([l |-> t.l, i |-> t.i, hd |-> -1, k |-> [n \in DOMAIN t.k |-> WithHd(t.k[n])]])
DotBin(t) == Plain(Binarize(WithHd(t), DotPar))
Upto(q, s) == IF q.numtrees = 0 THEN s ELSE SubSeq(s, 1, Min({q.numtrees, Len(s)}))
Bank(q, n) == LET b == Upto(q, q.banks[n]) IN TLCEval([m \in DOMAIN b |-> [t |-> DotBin(b[m].t), s |-> b[m].sent]])
Idx(b) == TLCEval([n \in DOMAIN b |-> Index(b[n].t, b[n].s)])
FragsIn(res) == TLCEval([n \in DOMAIN res |-> AsFrag(res[n].t, res[n].s)])
WellFormedRes(res) == \A n \in DOMAIN res : Proper(res[n].t) /\ Yield(res[n].t) \subseteq 0..(Len(res[n].s) - 1)
Total(f, I) == SumSeq([n \in DOMAIN I |-> CountIn(f, I[n])])
Where(f, I) == Cat([n \in DOMAIN I |-> [m \in 1..CountIn(f, I[n]) |-> n - 1]])
Near(s) == SelectSeq(s, LAMBDA x : \E y \in ToSet(s) : y = x + 1 \/ y = x - 1)
Pairings(q, two, I, J) == {x \in (DOMAIN I) \X (DOMAIN J) : (two \/ x[1] < x[2]) /\ (q.adjacent => x[2] = x[1] + 1)}
BadRun(q, res, I, J, two) ==
  LET fs == TLCEval(FragsIn(res))
      all == TLCEval(IF q.complete THEN {} ELSE UNION {{<<x[1], y.i, y.f>> : y \in MaxFrags(I[x[1]], J[x[2]])} : x \in Pairings(q, two, I, J)})
      max == {x[3] : x \in all}
      cover == TLCEval(IF q.cover = <<>> THEN {} ELSE UNION {CoverFrags(I[n], q.cover[1], q.cover[2]) : n \in DOMAIN I})
      given == IF q.complete THEN {AsFrag(q.frags[n].t, q.frags[n].sent) : n \in DOMAIN q.frags} ELSE {}
      \* treebank that is counted
      K == IF two /\ (q.batch \/ q.complete) THEN J ELSE I
      cnt(f) == IF q.mode # "approx" \/ f \notin max THEN Total(f, K)
                ELSE Cardinality({<<x[1], x[2]>> : x \in {y \in all : y[3] = f}})
      want == IF q.complete THEN {f \in given : q.mode = "relfreq" \/ cnt(f) > 0} ELSE max \cup cover
      sum(f) == SumSeq([n \in DOMAIN fs |-> IF RootLab(fs[n]) = RootLab(f) THEN cnt(fs[n]) ELSE 0])
  IN Clause("no fragment twice", Cardinality(ToSet(fs)) = Len(fs))
     \cup Clause("the requested fragments", ToSet(fs) = want)
     \cup (IF q.mode = "nofreq" THEN {}
           ELSE IF q.mode = "indices" THEN Clause("indices", \A n \in DOMAIN fs : res[n].x = (IF q.adjacent THEN Near(Where(fs[n], K)) ELSE Where(fs[n], K)))
           ELSE IF q.mode = "relfreq" THEN Clause("relative frequencies", \A n \in DOMAIN fs : res[n].n = cnt(fs[n]) /\ res[n].d = sum(fs[n]))
           ELSE Clause("frequencies", \A n \in DOMAIN fs : res[n].n = cnt(fs[n])))
\* artificial nodes of incomplete constituents are kept
RECURSIVE Deb(_, _, _)
Deb(t, s, isroot) == IF IsTerm(t) THEN <<t>> ELSE
   LET kids == TLCEval(Cat([n \in DOMAIN t.k |-> Deb(t.k[n], s, FALSE)])) IN
   IF IsArt(t.l) /\ ~isroot /\ ~(IsTerm(t.k[1]) /\ s[t.k[1].i + 1] = "None") THEN kids ELSE <<Node(t.l, kids)>>
\* the same lines, without artificial nodes; frequencies as before
BadDeb(res, deb) == Clause("debinarized fragments", Len(res) = Len(deb) /\ \A n \in DOMAIN res :
   Proper(deb[n].t) /\ deb[n].s = res[n].s /\ deb[n].n = res[n].n /\ deb[n].x = res[n].x
   /\ deb[n].t = Deb(res[n].t, res[n].s, TRUE)[1])
\* double quotes are rewritten
AltWord(w) == IF w = "\"" THEN "''" ELSE w
BadAlt(res, alt) == Clause("alternative notation", Len(res) = Len(alt) /\ \A n \in DOMAIN res :
   alt[n].t = res[n].t /\ alt[n].n = res[n].n /\ alt[n].s = [m \in DOMAIN res[n].s |-> AltWord(res[n].s[m])])
Bad(r) == LET q == r.inp o == r.out IN
  IF r.err # "" THEN {"exception"}
  ELSE IF \E n \in DOMAIN o.runs : ~WellFormedRes(o.runs[n].res) THEN {"well-formed fragments"}
  ELSE LET I == TLCEval(IF q.complete THEN <<>> ELSE Idx(Bank(q, 1))) two == Len(q.banks) > 1 IN
    Clause("a result for each comparison", Len(o.runs) = (IF q.batch THEN Len(q.banks) - 1 ELSE 1))
    \cup UNION {BadRun(q, o.runs[n].res, I, IF two THEN Idx(Bank(q, n + 1)) ELSE I, two) : n \in DOMAIN o.runs}
    \cup (IF ~q.debin THEN {} ELSE UNION {BadDeb(o.runs[n].res, o.runs[n].deb) : n \in DOMAIN o.runs})
    \cup (IF ~q.alt THEN {} ELSE UNION {BadAlt(o.runs[n].res, o.runs[n].alt) : n \in DOMAIN o.runs})
TCheck == Report(Bad(Rec))
=============================================================================
