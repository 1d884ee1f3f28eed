----------------------------- MODULE LcfrsTrace -----------------------------
(* op = "prod": lcfrsproductions; op = "bad": rejected input;               *)
(* op = "bank": treebankgrammar, and Grammar with its relative frequencies  *)
EXTENDS Lcfrs, TraceBase
Esc(w) == IF w = "(" THEN "#LRB#" ELSE IF w = ")" THEN "#RRB#" ELSE w
WordFun(sent, p) == Esc(sent[p + 1])
ProdsOf(t, sent) == Productions(t, LAMBDA p : WordFun(sent, p))
NoFrontier(ps) == SelectSeq(ps, LAMBDA p : ~IsFrontier(p))
BadProd(q, o) == LET ps == ProdsOf(q.t, q.sent) exp == IF q.frontiers THEN ps ELSE NoFrontier(ps) IN
   Clause("one production per node, in order", Len(o.prods) = Len(exp) /\ \A n \in DOMAIN exp : o.prods[n].r = exp[n].r /\ o.prods[n].w = exp[n].w)
   \cup Clause("yield functions", o.prods = exp)
   \cup Clause("productions regenerate the tree and sentence",
         q.cover => Regenerates(o.prods, q.t, [n \in DOMAIN q.sent |-> Esc(q.sent[n])]))
   \cup Clause("argument is not modified", o.t = q.t)
\* all productions of a treebank, in order
Bank(q) == Cat([n \in DOMAIN q.bank |-> NoFrontier(ProdsOf(q.bank[n].t, q.bank[n].sent))])
Weighted(q) == LET ps == Bank(q) S == ToSet(ps) \cup {q.extra[n].p : n \in DOMAIN q.extra} IN
  TLCEval([p \in S |-> Cardinality({n \in DOMAIN ps : ps[n] = p}) +
       SumSeq([n \in DOMAIN q.extra |-> IF q.extra[n].p = p THEN q.extra[n].w ELSE 0])])
Mass(W, lhs) == FoldSet(LAMBDA p, acc : acc + W[p], 0, {p \in DOMAIN W : p.r[1] = lhs})
Grouped(s) == \A a, b \in DOMAIN s : a < b /\ s[a] = s[b] => \A c \in a..b : s[c] = s[a]
Keys(rs) == [n \in DOMAIN rs |-> IF IsLex(rs[n].p) THEN <<"lex", rs[n].p.w>> ELSE <<"rule", rs[n].p.r[1]>>]
\* prob: probability times 10000, rounded
ProbOK(x, W) == LET m == Mass(W, x.p.r[1]) d == x.prob * m - W[x.p] * 10000 IN -m <= d /\ d <= m
BadBank(q, o) == LET W == Weighted(q) IN
   Clause("rules of the treebank, each once", {x.p : x \in ToSet(o.rules)} = DOMAIN W /\ Len(o.rules) = Cardinality(DOMAIN W))
   \cup Clause("frequencies", \A n \in DOMAIN o.rules : o.rules[n].p \in DOMAIN W => o.rules[n].w = W[o.rules[n].p])
   \cup Clause("order of rules", Grouped(Keys(o.rules)) /\ \A a, b \in DOMAIN o.rules : a < b /\ IsLex(o.rules[a].p) => IsLex(o.rules[b].p))
   \cup (IF q.bin THEN
      Clause("rules of the grammar object", {x.p : x \in ToSet(o.gram)} = DOMAIN W /\ Len(o.gram) = Cardinality(DOMAIN W))
      \cup Clause("frequency and frequency mass", \A x \in ToSet(o.gram) : x.p \in DOMAIN W => x.w = W[x.p] /\ x.mass = Mass(W, x.p.r[1]))
      \cup Clause("relative frequencies", \A x \in ToSet(o.gram) : x.p \in DOMAIN W => ProbOK(x, W))
      \cup Clause("normalized", o.test) ELSE {})
Bad(r) == LET q == r.inp o == r.out IN
  IF q.op = "bad" THEN Clause("malformed tree rejected", r.err # "")
  ELSE IF r.err # "" THEN {"exception"}
  ELSE IF q.op = "prod" THEN BadProd(q, o) ELSE BadBank(q, o)
TCheck == Report(Bad(Rec))
=============================================================================
