----------------------------- MODULE DiscTrace -----------------------------
EXTENDS Disc, TraceBase
\* with an index the n-th component of each sibling must come in the order of
\* the siblings to be identified; the merge specification decides
Restorable(t, mark) == Merge(Split(t, mark)) = t
RECURSIVE KeepHd(_)
KeepHd(t) == IF IsTerm(t) THEN Term(t.i)
             ELSE TLCEval([l |-> t.l, i |-> -1, hd |-> Hd(t), k |-> [n \in DOMAIN t.k |-> KeepHd(t.k[n])]])
\* the component with the lexical head is the head
RECURSIVE HeadWord(_)
HeadWord(t) == IF IsTerm(t.k[1]) THEN t.k[1].i ELSE HeadWord(t.k[Hd(t) + 1])
RECURSIVE HeadComps(_, _)
HeadComps(t, mark) == IF IsTerm(t) THEN {} ELSE
  UNION {HeadComps(t.k[n], mark) : n \in DOMAIN t.k}
  \cup (IF IsTerm(t.k[1]) \/ Hd(t) < 0 THEN {} ELSE
    LET x == t.k[Hd(t) + 1] rs == RunSets(Yield(x)) n == CHOOSE n \in DOMAIN rs : HeadWord(x) \in rs[n]
    IN {<<x.l \o (IF Len(rs) = 1 THEN "" ELSE "*" \o (IF mark THEN ToString(n - 1) ELSE "")), SetToSortSeq(rs[n], <)>>})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  LET t == Plain(r.inp.t) o == r.out IN
  IF \E f \in DOMAIN o \ {"hd", "heads"} : ~Proper(o[f]) THEN {"not a tree"}
  ELSE IF r.inp.op = "split" THEN
     LET s == Split(t, r.inp.mark) m == Merge(s) IN
     Clause("split: continuous", AllContinuous(o.split))
     \cup Clause("split: components of the constituents", o.split = s)
     \cup Clause("merge: components with the same label", Canonical(o.merged) = Canonical(m))
     \cup Clause("merge restores the tree", m = t => o.merged = t)
     \cup Clause("identified by labels", Identified(t) => o.merged = t)
     \cup Clause("split: heads", r.inp.hds => ToSet(o.heads) = HeadComps(r.inp.t, r.inp.mark))
     \cup Clause("heads restored", (o.merged = t /\ r.inp.hds) => o.hd = KeepHd(r.inp.t))
  ELSE IF r.inp.op = "raise" THEN
     Clause("raise: continuous", AllContinuous(o.raised))
     \cup Clause("raise: constituents keep the part with their head",
                 LabelledYields(o.raised) = LabelledYields(Raise(r.inp.t)))
     \cup Clause("raise: tree", Canonical(o.raised) = Raise(r.inp.t))
  ELSE {"unknown op"}
TCheck == Report(Bad(Rec))
=============================================================================
