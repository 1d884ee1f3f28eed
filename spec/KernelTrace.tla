----------------------------- MODULE KernelTrace -----------------------------
(* Fragments extracted from treebanks.  Results are sequences of            *)
(* [t, s, n, x]: fragment as tree with words, count, and the trees (with    *)
(* nodes) in which it occurs.                                               *)
EXTENDS Kernel, TraceBase
Idx(bank) == TLCEval([n \in DOMAIN bank |-> Index(bank[n].t, bank[n].sent)])
FragsIn(res) == TLCEval([n \in DOMAIN res |-> AsFrag(res[n].t, res[n].s)])
WellFormedRes(res) == \A n \in DOMAIN res : Proper(res[n].t) /\ Yield(res[n].t) \subseteq 0..(Len(res[n].s) - 1)
\* pairs of trees that are compared
Pairings(q, I, J) == IF q.two THEN {<<n, m>> : n \in (q.a1 + 1)..Min({Len(I), q.b1}), m \in (q.a2 + 1)..Min({Len(J), q.b2})}
  ELSE {x \in ((q.a1 + 1)..Min({Len(I), q.b1})) \X ((q.a2 + 1)..Min({Len(I), q.b2})) : x[1] < x[2] /\ (q.adjacent => x[2] = x[1] + 1)}
\* <<tree, node, fragment>>
AllMax(q, I, J) == UNION {{<<x[1], y.i, y.f>> : y \in MaxFrags(I[x[1]], J[x[2]])} : x \in Pairings(q, I, J)}
Total(f, I) == SumSeq([n \in DOMAIN I |-> CountIn(f, I[n])])
\* tree numbers from 0, repeated for every occurrence
Where(f, I) == Cat([n \in DOMAIN I |-> [m \in 1..CountIn(f, I[n]) |-> n - 1]])
Distinct(fs) == Cardinality(ToSet(fs)) = Len(fs)
BadCounts(q, res, fs, I) ==
   (IF q.mode = "counts" THEN Clause("counts", \A n \in DOMAIN fs : res[n].n = Total(fs[n], I))
    ELSE IF q.mode \in {"indices", "nodes"} THEN Clause("trees in which fragments occur", \A n \in DOMAIN fs : res[n].x = Where(fs[n], I))
    ELSE {})
   \cup (IF q.mode # "nodes" THEN {} ELSE Clause("nodes at which fragments occur", \A n \in DOMAIN fs : Len(res[n].at) = Len(res[n].x) /\ IsInjective(res[n].nodes) /\
          \A m \in DOMAIN res[n].at : Proper(res[n].at[m].t) /\ \E u \in OccNodes(fs[n], I[res[n].x[m] + 1]) :
              AsFrag(res[n].at[m].t, res[n].at[m].s) = LET RECURSIVE Full(_) Full(y) == [p |-> I[res[n].x[m] + 1][y], k |-> [c \in 1..NumKids(I[res[n].x[m] + 1][y]) |-> Full(Append(y, c))]] IN Full(u)))
BadRec(q, o) ==
  LET I == TLCEval(Idx(q.bank)) fs == TLCEval(FragsIn(o.res))
      max == TLCEval({x[3] : x \in AllMax([two |-> FALSE, adjacent |-> FALSE, a1 |-> 0, b1 |-> Len(I), a2 |-> 0, b2 |-> Len(I)], I, I)})
      cover == TLCEval(UNION {CoverFrags(I[n], q.maxdepth, q.maxfrontier) : n \in DOMAIN I})
  IN Clause("no fragment twice", Distinct(fs))
     \cup Clause("exactly the recurring fragments and those up to the given depth", ToSet(fs) = max \cup cover)
     \cup BadCounts(q, o.res, fs, I)
\* two terms: fragments with two words, a matching one among them, are found;
\* no others than fragments with two words are
BadPair(q, o) ==
  LET I == TLCEval(Idx(q.bank)) J == TLCEval(Idx(q.bank2)) fs == TLCEval(FragsIn(o.res))
      all == TLCEval(AllMax(q, I, J)) max == TLCEval({x[3] : x \in all})
      two == {f \in max : Len(Terms(f)) >= 2}
      must == {f \in two : \E n \in DOMAIN Terms(f) : Terms(f)[n].r[1] \in ToSet(q.tags)}
  IN Clause("no fragment twice", Distinct(fs))
     \cup (IF q.tags = <<>> THEN Clause("exactly the maximal common fragments", ToSet(fs) = max)
           ELSE Clause("fragments with two words", must \subseteq ToSet(fs) /\ ToSet(fs) \subseteq two))
     \cup (IF q.mode = "approx" THEN (IF q.tags # <<>> THEN {} ELSE Clause("occurrences as maximal fragment", \A n \in DOMAIN fs : o.res[n].n = Cardinality({<<x[1], x[2]>> : x \in {y \in all : y[3] = fs[n]}})))
           ELSE BadCounts(q, o.res, fs, IF q.where = 1 THEN I ELSE J))
\* occurrences in a slice, with a limit on their number
Clip(k, s) == SubSeq(s, 1, Min({k, Len(s)}))
BadSlice(q, o) ==
  LET J == TLCEval(Idx(q.bank2)) fs == TLCEval(FragsIn(o.res))
      S == [n \in DOMAIN J |-> IF n > q.start /\ n <= q.stop THEN J[n] ELSE <<>> :> Prod(<<"">>, <<>>, "")]
      tot == TLCEval([n \in DOMAIN fs |-> Total(fs[n], S)])
      left(n) == q.limit - SumSeq(SubSeq(tot, 1, n - 1))
      exp(n) == IF q.limit = 0 THEN tot[n] ELSE Max({0, Min({tot[n], left(n)})})
  IN IF q.mode = "counts" THEN Clause("counts in slice", \A n \in DOMAIN fs : o.res[n].n = exp(n))
     ELSE Clause("indices in slice", \A n \in DOMAIN fs : o.res[n].x = Clip(exp(n), Where(fs[n], S)))
\* given fragments are looked up; these are the results, in the same order
BadComplete(q, o) ==
  LET J == TLCEval(Idx(q.bank2)) fs == TLCEval(FragsIn(o.res))
  IN Clause("fragments as given", fs = [n \in DOMAIN q.bank |-> AsFrag(q.bank[n].t, q.bank[n].sent)])
     \cup BadCounts(q, o.res, fs, J)
\* the intervals cover all trees once, in order
BadWork(q, o) == Clause("division of work", LET w == o.work IN w # <<>> /\ w[1][1] = 0 /\ w[Len(w)][2] = q.n
     /\ (\A n \in DOMAIN w : w[n][1] < w[n][2]) /\ \A n \in 1..(Len(w) - 1) : w[n][2] = w[n + 1][1])
Bad(r) == LET q == r.inp o == r.out IN
  IF r.err # "" THEN {"exception"}
  ELSE IF q.op = "work" THEN BadWork(q, o)
  ELSE IF ~WellFormedRes(o.res) THEN {"well-formed fragments"}
  ELSE CASE q.op = "rec" -> BadRec(q, o) [] q.op = "pair" -> BadPair(q, o)
         [] q.op = "slice" -> BadSlice(q, o) [] q.op = "complete" -> BadComplete(q, o)
TCheck == Report(Bad(Rec))
=============================================================================
