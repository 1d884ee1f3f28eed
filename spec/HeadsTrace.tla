----------------------------- MODULE HeadsTrace -----------------------------
(* op = "mark":  readheadrules, applyheadrules, getheadpos, headstats,      *)
(*               dependencies, deplen, writedependencies                    *)
(* op = "save":  binarize head outward, forget heads, saveheads, unbinarize *)
EXTENDS Heads, TraceBase
RECURSIVE Strip(_)
Strip(x) == IF IsTerm(x) THEN [l |-> "", i |-> x.i, k |-> <<>>, ty |-> ""]
   ELSE TLCEval([l |-> x.l, i |-> -1, ty |-> x.ty, k |-> [c \in DOMAIN x.k |-> Strip(x.k[c])]])
RECURSIVE GetHead(_)
\* token of the lexical head as far as marked, or -1
GetHead(x) == IF x.k[1].i >= 0 THEN x.k[1].i
   ELSE LET hs == {c \in DOMAIN x.k : x.k[c].ty = "H"} IN IF hs = {} THEN -1 ELSE GetHead(x.k[Min(hs)])
HeadPoss(x) == LET ns == Nodes(x) IN [n \in DOMAIN ns |-> GetHead(ns[n])]
AbsD(n) == IF n < 0 THEN -n ELSE n
RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN AbsD(x[1] - x[3]) + SumOver(S \ {x})
SortedBy(arcs) == SetToSortSeq(arcs, LAMBDA a, b : a[1] < b[1])
TagOf(t, p) == (CHOOSE x \in NodeSet(t) : IsPre(x) /\ x.k[1].i = p).l
Conll(t, sent, arcs) == LET s == SortedBy(arcs) IN [n \in DOMAIN s |->
   <<ToString(n), sent[n], "_", TagOf(t, n - 1), TagOf(t, n - 1), "_", ToString(s[n][3]), s[n][2], "_", "_">>]
Mst(t, sent, arcs) == LET s == SortedBy(arcs) IN <<sent, [n \in DOMAIN s |-> TagOf(t, n - 1)],
   [n \in DOMAIN s |-> s[n][2]], [n \in DOMAIN s |-> ToString(s[n][3])]>>
\* <<label of parent, label of head, index of head>> with number of occurrences
Stats(x) == LET ns == Nodes(x)
                hs == {n \in DOMAIN ns : Len(ns[n].k) > 1 /\ \E c \in DOMAIN ns[n].k : ns[n].k[c].ty = "H"}
                it == [n \in hs |-> LET c == Min({d \in DOMAIN ns[n].k : ns[n].k[d].ty = "H"}) IN <<ns[n].l, ns[n].k[c].l, c - 1>>]
            IN {<<it[n][1], it[n][2], Cardinality({m \in hs : <<it[m][1], it[m][2]>> = <<it[n][1], it[n][2]>>})>> : n \in hs}
PosStats(x) == LET ns == Nodes(x)
                hs == {n \in DOMAIN ns : Len(ns[n].k) > 1 /\ \E c \in DOMAIN ns[n].k : ns[n].k[c].ty = "H"}
                it == [n \in hs |-> LET c == Min({d \in DOMAIN ns[n].k : ns[n].k[d].ty = "H"}) IN <<ns[n].l, ToString(c - 1)>>]
            IN {<<it[n][1], it[n][2], Cardinality({m \in hs : it[m] = it[n]})>> : n \in hs}

RECURSIVE Saved(_, _)
\* marks that survive: those on children of nodes that were binarized
Saved(x, ty) == IF IsTerm(x) THEN [l |-> "", i |-> x.i, k |-> <<>>, ty |-> ""]
   ELSE TLCEval([l |-> x.l, i |-> -1, ty |-> ty, k |-> [c \in DOMAIN x.k |->
       Saved(x.k[c], IF ~IsTerm(x.k[c]) /\ x.k[c].h /\ Len(x.k) > 2 THEN "H" ELSE "")]])
BadMark(q, o) ==
  LET mods == IF q.mods = <<>> THEN <<>> ELSE [lab \in {q.mods[n][1] : n \in DOMAIN q.mods} |->
                 (CHOOSE n \in {m \in DOMAIN q.mods : q.mods[m][1] = lab} : TRUE)]
      modf == IF q.mods = <<>> THEN <<>> ELSE [lab \in DOMAIN mods |-> q.mods[mods[lab]][2]]
      m == Mark(q.t, q.lines, modf, "") IN
  LET arcs == Deps(m) st == Strip(m) oarcs == ToSet(o.deps) n == Cardinality(Yield(q.t)) IN
   Clause("head rules", o.t = st)
   \cup Clause("lexical heads", o.pos = HeadPoss(st))
   \cup Clause("every token has one head", Len(o.deps) = n /\ IsDepTree(oarcs, n))
   \cup Clause("arcs agree with constituents", oarcs = arcs)
   \cup Clause("dependency length", o.len = <<SumOver({a \in arcs : a[3] # 0}), Cardinality({a \in arcs : a[3] # 0})>>)
   \cup Clause("conll output", o.conll = Conll(q.t, q.sent, arcs))
   \cup Clause("mst output", o.mst = Mst(q.t, q.sent, arcs))
   \cup Clause("head statistics", ToSet(o.heads) = Stats(st) /\ ToSet(o.pos1) = PosStats(st))
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  LET q == r.inp o == r.out IN
  IF q.op = "mark" THEN BadMark(q, o) ELSE Clause("heads saved from binarization", o.t = Saved(q.t, ""))
TCheck == Report(Bad(Rec))
=============================================================================
