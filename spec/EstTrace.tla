----------------------------- MODULE EstTrace -----------------------------
(* Tables of estimates recorded from the real code, and the charts of the   *)
(* parser when it uses them.  Sentences longer than the table covers are    *)
(* parsed as without estimates.                                             *)
EXTENDS TraceBase, Est
EnvOf(q) == LET n == Len(q.sent) IN TLCEval(
  [g |-> q.g, sent |-> q.sent, noexp |-> {<<q.root, <<<<0, n>>>>>>},
   use |-> FALSE, map |-> <<>>, split |-> 0, white |-> {}])
X(x) == <<x[1], x[2]>>
EdgesOf(items) == FlattenSeq([n \in DOMAIN items |-> [m \in DOMAIN items[n].edges |->
   LET e == items[n].edges[m] IN <<X(items[n].x), e.no, X(e.l), X(e.r)>>]])
RECURSIVE Reach(_, _, _)
Reach(E, done, todo) == IF todo = {} THEN done ELSE
   LET kids == UNION {{e[3], e[4]} : e \in {e \in E : e[1] \in todo}} \ {NoItem} IN
   Reach(E, done \cup todo, kids \ (done \cup todo))
TableOf(o) == TLCEval([k \in {o.table[n].k : n \in DOMAIN o.table} |-> (CHOOSE x \in ToSet(o.table) : x.k = k).w])
BadTable(q, o) == LET t == Table(q.est, q.g, q.root, q.max) u == TableOf(o) IN
   Clause("finite", DOMAIN t = DOMAIN u)
   \cup Clause("estimates", \A k \in DOMAIN t \cap DOMAIN u : t[k] = u[k])
BadSearch(q, o) ==
  LET env == EnvOf(q) C == Closure(env) goal == Goal(env) W == WeightOf(env)
      E == EdgesOf(o.items)
      best == [x \in {X(a.x) : a \in ToSet(o.items)} |-> (CHOOSE a \in ToSet(o.items) : X(a.x) = x).w]
      kept == IF goal \in DOMAIN C.best THEN Reach(C.edges, {}, {goal}) ELSE {}
      P == IF goal \in DOMAIN C.best /\ q.k > 0 THEN InsidePoly(env, C)[goal] ELSE Empty IN
  Clause("parsed", o.ok = (goal \in DOMAIN C.best))
  \cup Clause("items", DOMAIN best \subseteq DOMAIN C.best)
  \cup Clause("nodup-items", Len(o.items) = Cardinality(DOMAIN best))
  \cup Clause("edges", ToSet(E) \subseteq C.edges)
  \cup Clause("goal", goal \notin DOMAIN C.best \/ (goal \in DOMAIN best /\ best[goal] = C.best[goal]))
  \cup Clause("first", goal \notin DOMAIN C.best \/ (o.first.ok /\ o.first.w = C.best[goal]))
  \cup (IF Len(q.sent) > q.max THEN Clause("without", DOMAIN best = DOMAIN C.best) ELSE
        Clause("bound", Admissible(q.est, TableOf(o), env, C)))
  \cup Clause("derivation", ~o.first.ok \/ LET d == DerivOf(env, W, o.first.t) IN d.ok /\ d.x = goal /\ d.w = o.first.w)
  \cup Clause("kept", \A x \in kept : x \in DOMAIN best /\ best[x] = C.best[x])
  \cup Clause("kept-edges", {e \in C.edges : e[1] \in kept} \subseteq ToSet(E))
  \cup Clause("nodup-edges", Len(E) = Cardinality(ToSet(E)))
  \cup (IF q.k = 0 THEN {} ELSE
     Clause("k-best", [n \in DOMAIN o.derivs |-> o.derivs[n].w] = KBest(P, q.k))
     \cup Clause("distinct", \A n, m \in DOMAIN o.derivs : n = m \/ o.derivs[n].t # o.derivs[m].t))
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
   LET q == [r.inp EXCEPT !.g.start = r.inp.root] IN BadTable(q, r.out) \cup BadSearch(q, r.out)
TCheck == Report(Bad(Rec))
=============================================================================
