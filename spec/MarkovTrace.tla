---------------------------- MODULE MarkovTrace ----------------------------
(* Conformance of the labels of binarized trees (markovization).            *)
EXTENDS Binarization, TraceBase
\* labels introduced for an artificial node after the switch of direction,
\* where the documentation declares the context unreliable, are masked
RECURSIVE Mask(_, _, _)
Mask(a, b, p) == \* a: actual, b: specified; compare labels
  IF IsTerm(a) \/ IsTerm(b) THEN a = b
  ELSE /\ Len(a.k) = Len(b.k)
       /\ a.l = b.l
       /\ \A n \in DOMAIN a.k : Mask(a.k[n], b.k[n], p)
(* markovthreshold: artificial labels, given by their parts, that occur less *)
(* than n times get a shorter context; everything else stays as it is.       *)
Compose(x) == IF x.b = "" THEN x.l ELSE x.b \o "|<" \o x.pre \o Join(x.sib, ",") \o ">"
   \o (IF x.anc = <<>> THEN "" ELSE "^<" \o Join(x.anc, ",") \o ">") \o x.tail
Reduced(x, h, v) == x.b \o "|<" \o x.pre \o Join(Take(x.sib, h), ",") \o ",>"
   \o (IF x.anc = <<>> THEN "" ELSE "^<" \o Join(Take(x.anc, v), ",") \o ">") \o x.tail
Threshold(labs, n, h, v) == LET c == TLCEval([m \in DOMAIN labs |-> Compose(labs[m])]) IN
   [m \in DOMAIN labs |-> IF labs[m].b # "" /\ Cardinality({k \in DOMAIN c : c[k] = c[m]}) < n
                          THEN Reduced(labs[m], h, v) ELSE c[m]]
(* one constituent factored left or right, without head or direction; the    *)
(* context is: right: the next h siblings, left: the last h siblings.        *)
FanMark(q, ks) == IF ~q.fan THEN "" ELSE LET f == FanOut(UNION {Yield(ks[n]) : n \in DOMAIN ks}) IN
   IF f > 1 THEN "_" \o ToString(f) ELSE ""
Keep(ks, q) == LET l == [n \in DOMAIN ks |-> ks[n].l] IN SelectSeq(l, LAMBDA x : x \notin ToSet(q.filt))
RECURSIVE Fold(_, _, _)
Fold(l, ks, q) == \* children of a node dominating ks (at least two)
  IF Len(ks) = 2 THEN ks ELSE
  IF q.factor = "right" THEN
    LET r == Tail(ks) IN <<ks[1], Node(l \o "|<" \o Join(Keep(SubSeq(r, 1, MinOf(q.h, Len(r))), q), ",") \o ">"
            \o FanMark(q, r), Fold(l, r, q))>>
  ELSE LET r == SubSeq(ks, 1, Len(ks) - 1) IN
    <<Node(l \o "|<" \o Join(Keep(SubSeq(r, MaxOf(1, Len(r) - q.h + 1), Len(r)), q), ",") \o ">"
            \o FanMark(q, r), Fold(l, r, q)), ks[Len(ks)]>>
Factored(t, q) == IF Len(t.k) <= q.thr THEN t
  ELSE IF Len(t.k) <= 2 THEN Node(t.l, <<Node(t.l \o "|<" \o
       Join(Keep(SubSeq(t.k, 1, MinOf(q.h, Len(t.k))), q), ",") \o ">", t.k)>>)
  ELSE Node(t.l, Fold(t.l, t.k, q))
\* X|<n> with the same X
IsNumbered(a, b) == LET n == FindSub(a, "|<") c == FindSub(a, ">") IN
   /\ n = FindSub(b, "|<") /\ SubSeq(a, 1, n) = SubSeq(b, 1, n) /\ c > n + 2
   /\ \A m \in (n + 2)..(c - 1) : SubSeq(a, m, m) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Distinct(s) == {s[n] : n \in DOMAIN s}
Bad(r) == IF r.err # "" THEN {"exception"}
          ELSE IF \E f \in DOMAIN r.out \ {"same", "labels", "bits"} : ~Proper(r.out[f]) THEN {"not a tree"}
  ELSE IF r.inp.op = "threshold" THEN
      Clause("reduced contexts", r.out.labels = Threshold(r.inp.labs, r.inp.n, r.inp.h, r.inp.v))
  ELSE IF r.inp.op = "factor" THEN
      Clause("factored constituent", r.out.t = Factored(r.inp.t, r.inp))
      \cup Clause("recorded yields", LET ns == Nodes(r.out.t) IN r.out.bits = [n \in DOMAIN ns |-> SetToSortSeq(Yield(ns[n]), LAMBDA a, b : a < b)])
      \cup Clause("unbinarized", r.out.un = r.inp.t)
  ELSE IF r.inp.op = "tree" THEN
      \* relational-realizational: functions of adjuncts are not part of contexts
      LET p == [r.inp.p EXCEPT !.filt = IF r.inp.rr = <<>> THEN r.inp.p.filt ELSE r.inp.rr[1] \o <<r.inp.rr[2]>>] IN
      Clause("binarized with these settings", r.out.bin = Binarize(r.inp.t, p))
  ELSE IF r.inp.op = "bin" THEN
      LET b == Binarize(r.inp.t, r.inp.p) IN
      Clause("labels encode the declared context", r.out.bin = b)
  ELSE IF r.inp.op = "ids" THEN
      \* numeric identifiers abbreviate labels one to one
      LET b == Labels(Binarize(r.inp.t, r.inp.p)) a == Labels(r.out.bin) IN
      Clause("identifiers: same nodes", Len(a) = Len(b))
      \cup Clause("identifiers are one to one", Len(a) = Len(b) =>
          \A m, n \in DOMAIN a : (a[m] = a[n]) = (b[m] = b[n]))
      \cup Clause("identifiers keep original labels", Len(a) = Len(b) =>
          \A m \in DOMAIN a : IF IsArt(b[m]) THEN IsArt(a[m]) ELSE a[m] = b[m])
      \cup Clause("identifiers are numbers", Len(a) = Len(b) =>
          \A m \in DOMAIN a : IsArt(b[m]) => IsNumbered(a[m], b[m]))
  ELSE {"unknown op"}
TCheck == Report(Bad(Rec))
=============================================================================
