------------------------------ MODULE DopTrace ------------------------------
(* op "dop": rules and weights obtained from a corpus;                      *)
(* op "dec": trees with addresses, counts of nodes and fragments            *)
EXTENDS DopReduction, TraceBase
Corp(q) == [n \in DOMAIN q.bank |-> [t |-> q.bank[n].t, s |-> q.bank[n].sent]]
BadDop(q, o) == LET C == TLCEval(Corp(q)) R == o.rules IN
  IF o.junk # <<>> THEN {"weights are not the expected fractions"} ELSE
  BadReduction(C, R, q.extra)
  \cup Clause("trees are not modified", o.same)
\* decorated trees: o.trees[n] mirrors the tree with addresses in field a
RECURSIVE SameShape(_, _)
SameShape(x, d) == IF IsTerm(x) THEN d.i = x.i ELSE d.i < 0 /\ d.l = x.l /\ Len(d.k) = Len(x.k) /\ \A n \in DOMAIN x.k : SameShape(x.k[n], d.k[n])
RECURSIVE DNodes(_)
DNodes(d) == IF d.i >= 0 THEN <<>> ELSE <<d>> \o Cat([n \in DOMAIN d.k |-> DNodes(d.k[n])])
BadDec(q, o) ==
  LET C == TLCEval(Corp(q)) ns == TLCEval(AllNodes(C))
      ds == TLCEval(Cat([n \in DOMAIN o.trees |-> DNodes(o.trees[n])]))
      full == TLCEval([n \in DOMAIN ns |-> FullFrag(ns[n].t, ns[n].s)])
      num == TLCEval([n \in DOMAIN ns |-> NumFrags(ns[n].t)])
      isopen(n) == \E m \in DOMAIN ns[n].t.k : ns[n].t.k[m].i >= 0 /\ ns[n].s[ns[n].t.k[m].i + 1] = "None"
  IN IF Len(o.trees) # Len(C) \/ \E n \in DOMAIN C : ~SameShape(C[n].t, o.trees[n]) THEN {"shape, labels and positions"} ELSE
     Clause("exactly the roots and open nodes have no address", \A n \in DOMAIN ds : (ds[n].a = "") <=> (q.roots[n] \/ isopen(n)))
     \cup Clause("nodes with the same address", \A n, m \in DOMAIN ds : n < m /\ ds[n].a # "" /\ ds[n].a = ds[m].a =>
              q.packed /\ full[n] = full[m])
     \cup Clause("equivalent nodes share their address", q.packed /\ ~q.spined => \A n, m \in DOMAIN ds : n < m /\ ds[n].a # "" /\ ds[m].a # "" /\ full[n] = full[m] => ds[n].a = ds[m].a)
     \cup (IF ~q.counts THEN {} ELSE
       LET names == {<<ds[n].l, ds[n].a>> : n \in DOMAIN ds} \cup {<<ds[n].l, "">> : n \in DOMAIN ds}
           at(x) == {n \in DOMAIN ds : ds[n].l = x[1] /\ (x[2] = "" \/ ds[n].a = x[2])}
           fdw(x) == IF x[2] # "" THEN num[CHOOSE n \in at(x) : TRUE] ELSE FoldSet(LAMBDA n, acc : acc + num[n], 0, at(x))
       IN Clause("number of fragments of each tree", \A n \in DOMAIN C : o.ret[n] = NumFrags(C[n].t))
          \cup Clause("fragments per nonterminal", Len(o.fd) = Cardinality(names) /\ ToSet(o.fd) = {<<x[1], x[2], fdw(x)>> : x \in names})
          \cup Clause("nodes per nonterminal", ToSet(o.ntfd) = {<<x[1], x[2], Cardinality(at(x))>> : x \in names}))
Bad(r) == LET q == r.inp o == r.out IN
  IF r.err # "" THEN {"exception"}
  ELSE IF q.op = "dop" THEN BadDop(q, o) ELSE BadDec(q, o)
TCheck == Report(Bad(Rec))
=============================================================================
