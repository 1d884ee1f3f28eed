----------------------------- MODULE YieldTrace -----------------------------
(* Yields, fan-outs, gaps, canonical order and fan-out markers.             *)
EXTENDS Disc, TraceBase
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SetOf(s) == {s[n] : n \in DOMAIN s}
\* the order of Alpino: children sorted by last terminal
RECURSIVE ByLast(_)
ByLast(t) == IF IsTerm(t) \/ IsTerm(t.k[1]) THEN t ELSE Node(t.l, SortSeq(TLCEval([n \in DOMAIN t.k |-> ByLast(t.k[n])]), LAMBDA a, b : Max(Yield(a)) < Max(Yield(b))))
RECURSIVE Renamed(_, _)
Renamed(t, m) == IF IsTerm(t) THEN Term(m[t.i]) ELSE Node(t.l, [n \in DOMAIN t.k |-> Renamed(t.k[n], m)])
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
 LET o == r.out q == r.inp IN
 IF q.op = "yield" THEN
   LET t == q.t ns == Nodes(t) n == Len(ns)
       ys == TLCEval([m \in 1..n |-> Yield(ns[m])])
       fs == TLCEval([m \in 1..n |-> FanOut(ys[m])]) IN
   Clause("one result per node", Len(o.bits) = n /\ Len(o.fan) = n /\ Len(o.disc) = n
          /\ Len(o.discimm) = n /\ Len(o.leaves) = n /\ Len(o.cont) = n /\ Len(o.cmplx) = n)
   \cup (IF Len(o.bits) # n \/ Len(o.fan) # n \/ Len(o.disc) # n \/ Len(o.discimm) # n
            \/ Len(o.leaves) # n \/ Len(o.cont) # n \/ Len(o.cmplx) # n THEN {} ELSE
     Clause("bit sets are the terminals dominated", \A m \in 1..n : o.bits[m] = Asc(ys[m]))
     \cup Clause("leaves", \A m \in 1..n : o.leaves[m] = Leaves(ns[m]))
     \cup Clause("leaves of immutable trees", \A m \in 1..n : o.immleaves[m] = Leaves(ns[m]))
     \cup Clause("fan-out", \A m \in 1..n : o.fan[m] = fs[m])
     \cup Clause("discontinuity", \A m \in 1..n : o.disc[m] = (fs[m] > 1) /\ o.discimm[m] = (fs[m] > 1))
     \cup Clause("continuous groups of children", \A m \in 1..n :
            IsPre(ns[m]) \/ (\E x \in DOMAIN ns[m].k : FanOut(Yield(ns[m].k[x])) > 1) \/ o.cont[m] = LET rs == RunSets(ys[m]) IN
              [x \in DOMAIN rs |-> LET g == In(ns[m].k, rs[x]) IN [y \in DOMAIN g |-> First(g[y])]])
     \cup Clause("complexity", \A m \in 1..n : LET c == fs[m] + FoldLeft(LAMBDA a, b : a + b, 0,
              TLCEval([x \in DOMAIN ns[m].k |-> IF IsTerm(ns[m].k[x]) THEN 1 ELSE FanOut(Yield(ns[m].k[x]))]))
            IN o.cmplx[m] = <<c, <<c, fs[m]>>, <<fs[m], c>>>>)
     \cup Clause("treebank fan-out", o.tbfan = Max({1} \cup {fs[m] : m \in {x \in 1..n : Len(ns[x].k) > 1}})))
 ELSE IF q.op = "groups" THEN \* any set of continuous or discontinuous nodes
   Clause("continuous groups of a forest", o.cont =
      LET all == UNION {Yield(q.k[n]) : n \in DOMAIN q.k} rs == RunSets(all) IN
      SelectSeq(TLCEval([x \in DOMAIN rs |-> LET g == In(q.k, rs[x]) IN [y \in DOMAIN g |-> First(g[y])]]),
                LAMBDA z : TRUE))
 ELSE IF q.op = "canon" THEN
   IF ~Proper(o.canon) THEN {"not a tree"} ELSE
   Clause("children sorted by first terminal", o.canon = Canonical(q.t))
   \cup Clause("dominance unchanged", LabelledYields(o.canon) = LabelledYields(q.t))
 ELSE IF q.op = "alpino" THEN
   IF ~Proper(o.canon) THEN {"not a tree"} ELSE
   Clause("children sorted by last terminal", o.canon = ByLast(q.t))
 ELSE IF q.op = "reorder" THEN
   IF ~Proper(o.canon) THEN {"not a tree"} ELSE
   LET b == TLCEval(ByLast(q.t)) ls == TLCEval(Leaves(b)) IN
   Clause("terminals numbered in order", o.canon = Renamed(b, [x \in ToSet(ls) |-> (CHOOSE n \in DOMAIN ls : ls[n] = x) - 1]))
   \cup Clause("words permuted along", o.sent = [n \in DOMAIN ls |-> "w" \o ToString(ls[n])])
   \cup Clause("same object", o.same)
   \cup Clause("continuous", AllContinuous(o.canon))
 ELSE IF q.op = "mark" THEN
   IF ~Proper(o.mark) \/ ~Proper(o.unmark) THEN {"not a tree"} ELSE
   Clause("markers on discontinuous nodes", o.mark = Mark(q.t))
   \cup Clause("marking twice changes nothing more", o.twice = o.mark)
   \cup Clause("removing markers restores labels", o.unmark = q.t)
 ELSE IF q.op = "yf" THEN
   Clause("yield function", o.yf = YieldFunction(SetOf(q.a), SetOf(q.b)))
 ELSE IF q.op = "yf1" THEN
   Clause("unary yield function", o.yf = YieldFunction(SetOf(q.a), {}))
 ELSE {"unknown op"}
TCheck == Report(Bad(Rec))
=============================================================================
