----------------------------- MODULE ChartTrace -----------------------------
(* Charts, derivations and lookups recorded from the parsers.               *)
EXTENDS TraceBase, Chart
Without(s, mask) == SelectSeq(s, LAMBDA r : r.no \notin mask)
EnvOf(q) == LET mask == ToSet(q.mask) IN TLCEval(
  [g |-> [start |-> q.start, bin |-> Without(q.g.bin, mask), un |-> Without(q.g.un, mask), lex |-> q.g.lex],
   sent |-> q.sent, noexp |-> {}, use |-> FALSE, map |-> <<>>, split |-> 0, white |-> {}])
Goalless(env) == [env EXCEPT !.noexp = {Goal(env)}]
X(x) == <<x[1], x[2]>>
EdgesOf(items) == FlattenSeq([n \in DOMAIN items |-> [m \in DOMAIN items[n].edges |->
   LET e == items[n].edges[m] IN <<X(items[n].x), e.no, X(e.l), X(e.r)>>]])
\* items reachable from the goal
RECURSIVE Reach(_, _, _)
Reach(E, done, todo) == IF todo = {} THEN done ELSE
   LET kids == UNION {{e[3], e[4]} : e \in {e \in E : e[1] \in todo}} \ {NoItem} IN
   Reach(E, done \cup todo, kids \ (done \cup todo))
LexOk(items) == \A n \in DOMAIN items : \A m \in DOMAIN items[n].edges :
   LET e == items[n].edges[m] IN e.no # -1 \/ items[n].x[2] = <<<<e.i, e.i + 1>>>>
Plain(l) == \A n \in 1..Len(l) : SubSeq(l, n, n) \notin {"*", "<"}
\* items with exactly this span and a label that is not from binarization
OnSpan(C, s, e) == {x \in DOMAIN C.best : x[2] = <<<<s, e>>>> /\ Plain(x[1])}
BestOn(C, S) == {x \in S : \A y \in S : C.best[x] <= C.best[y]}
BestOk(C, q, x) == LET S == BestOn(C, OnSpan(C, q[1], q[2])) IN IF S = {} THEN x = NoItem ELSE x \in S
\* cover an interval with the largest constituents, leftmost first
RECURSIVE PartOk(_, _, _, _)
PartOk(C, s, e, parts) == IF s = e THEN parts = <<>> ELSE
   LET fits == {x \in (s..e) \X (s..e) : x[1] < x[2] /\ OnSpan(C, x[1], x[2]) # {}} IN
   IF fits = {} THEN parts # <<>> /\ parts[1] = <<"NOPARSE", s, s + 1>> /\ PartOk(C, s + 1, e, Tail(parts))
   ELSE LET f == CHOOSE x \in fits : \A y \in fits : x[2] - x[1] > y[2] - y[1] \/ (x[2] - x[1] = y[2] - y[1] /\ x[1] <= y[1])
            ns == {n \in DOMAIN parts : parts[n][2] = f[1] /\ parts[n][3] = f[2]}
        IN Cardinality(ns) = 1 /\ LET n == CHOOSE n \in ns : TRUE IN
             /\ <<parts[n][1], <<<<f[1], f[2]>>>>>> \in BestOn(C, OnSpan(C, f[1], f[2]))
             /\ PartOk(C, s, f[1], SubSeq(parts, 1, n - 1))
             /\ PartOk(C, f[2], e, SubSeq(parts, n + 1, Len(parts)))
\* the contents of a chart o for env
BadChart(env, o) ==
  LET C == Closure(env) E == EdgesOf(o.items) goal == Goal(env)
      best == [n \in DOMAIN o.items |-> <<X(o.items[n].x), o.items[n].w>>] IN
  Clause("parsed", o.ok = (goal \in DOMAIN C.best))
  \cup (IF ~Covered(env) THEN {} ELSE
     Clause("items", {b[1] : b \in ToSet(best)} = DOMAIN C.best)
     \cup Clause("nodup-items", Len(o.items) = Cardinality({b[1] : b \in ToSet(best)}))
     \cup Clause("probabilities", \A b \in ToSet(best) : b[1] \notin DOMAIN C.best \/ b[2] = C.best[b[1]])
     \cup Clause("edges", ToSet(E) = C.edges)
     \cup Clause("nodup-edges", Len(E) = Cardinality(ToSet(E)))
     \cup Clause("lexical", LexOk(o.items))
     \cup Clause("lookup", \A n \in DOMAIN o.find :
            o.find[n].found = (X(o.find[n].x) \in DOMAIN C.best) /\ (o.find[n].found => o.find[n].x = o.find[n].y))
     \cup Clause("best", \A n \in DOMAIN o.best : BestOk(C, o.best[n].q, X(o.best[n].x)))
     \cup Clause("filter", ~o.ok \/ {X(x) : x \in ToSet(o.kept)} =
            IF goal \in DOMAIN C.best THEN Reach(C.edges, {}, {goal}) ELSE {}))
BadKbest(env, q, o) ==
  LET C == Closure(env) goal == Goal(env) W == WeightOf(env)
      P == IF goal \in DOMAIN C.best THEN InsidePoly(env, C)[goal] ELSE Empty IN
  IF goal \notin DOMAIN C.best THEN Clause("parsed", ~o.ok)
     \cup Clause("partition", ~Covered(env) \/ PartOk(C, 0, Len(env.sent), o.parts))
  ELSE Clause("parsed", o.ok)
     \cup Clause("weights", [n \in DOMAIN o.derivs |-> o.derivs[n].w] = KBest(P, q.k))
     \cup Clause("distinct", \A n, m \in DOMAIN o.derivs : n = m \/ o.derivs[n].t # o.derivs[m].t)
     \cup Clause("derivations", \A n \in DOMAIN o.derivs :
            LET d == DerivOf(env, W, o.derivs[n].t) IN d.ok /\ d.x = goal /\ d.w = o.derivs[n].w)
\* search stopped at the first complete derivation: a part of the chart, but
\* with the best derivation of the goal
BadFirst(env, o) ==
  LET C == Closure(env) E == ToSet(EdgesOf(o.items)) goal == Goal(env)
      done == {n \in DOMAIN o.items : o.items[n].w # -1} IN
  Clause("parsed", o.ok = (goal \in DOMAIN C.best))
  \cup (IF ~Covered(env) THEN {} ELSE
     Clause("items", {X(o.items[n].x) : n \in DOMAIN o.items} \subseteq DOMAIN C.best)
     \cup Clause("edges", E \subseteq C.edges)
     \cup Clause("probabilities", \A n \in done : LET x == X(o.items[n].x) IN x \notin DOMAIN C.best \/ o.items[n].w = C.best[x])
     \cup Clause("goal", goal \notin DOMAIN C.best \/ \E n \in done : X(o.items[n].x) = goal))
\* inside and outside scores, as sets of binary digits, and the posteriors
\* of items above a threshold
BadSums(env, q, o) ==
  LET C == Closure(env) goal == Goal(env) P == InsidePoly(env, C) O == OutsidePoly(env, C, P)
      x(n) == X(o.sums[n].x)
      known == {n \in DOMAIN o.sums : x(n) \in DOMAIN C.best}
      InOut == TLCEval([n \in known |-> Times(P[x(n)], O[x(n)])])
      bar == Norm(Shift(P[goal], q.t)) IN
  IF goal \notin DOMAIN C.best THEN Clause("parsed", ~o.ok)
  ELSE Clause("parsed", o.ok) \cup (IF ~o.ok THEN {} ELSE
     Clause("items", {x(n) : n \in DOMAIN o.sums} = DOMAIN C.best)
     \cup Clause("inside", \A n \in known : Exact(P[x(n)]) => ToSet(o.sums[n].i) = Norm(P[x(n)]))
     \cup Clause("outside", \A n \in known : (Exact(O[x(n)]) /\ Exact(P[goal])) => ToSet(o.sums[n].o) = Norm(O[x(n)]))
     \cup Clause("posterior", ~Exact(P[goal]) \/ \A n \in known : Exact(InOut[n]) =>
            (x(n) \in {X(y) : y \in ToSet(o.kept)}) = Greater(Norm(InOut[n]), bar))
     \cup Clause("kept", {X(y) : y \in ToSet(o.kept)} \subseteq {x(n) : n \in DOMAIN o.sums})
     \cup Clause("total", \A n \in known : ~Greater(Norm(InOut[n]), Norm(P[goal]))))
\* a whitelist made from the chart of a coarse grammar, given the recorded
\* edges of that chart and its k best derivations
Base(l) == LET us == {n \in 1..Len(l) : SubSeq(l, n, n) = "_"} IN
   IF us = {} \/ \E n \in 1..Len(l) : SubSeq(l, n, n) = "|" THEN l ELSE SubSeq(l, 1, MinW(us) - 1)
Matches(x, c) == Base(x[1]) = c[1] /\ x[2] = c[2]
Norm1(S) == {X(x) : x \in S}
WhiteOk(q, o) ==
  LET E == ToSet(EdgesOf(o.coarse)) reach == Reach(E, {}, {X(o.root)})
      white == Norm1(ToSet(o.white))
      blocked(x) == \E n \in DOMAIN q.block : Matches(x, q.block[n])
      free(S) == {x \in S : ~blocked(x)}
      D == [n \in DOMAIN o.derivs |-> Norm1(ToSet(o.derivs[n]))]
      good == {n \in DOMAIN D : \A m \in DOMAIN q.require : \E x \in D[n] : Matches(x, q.require[m])}
  IN CASE q.crit = "all" -> white = free(reach)
       [] q.crit = "kbest" /\ q.require = <<>> -> free(UNION {D[n] : n \in DOMAIN D}) \subseteq white /\ white \subseteq free(reach)
       [] q.crit = "kbest" -> white = free(UNION {D[n] : n \in good})
       [] OTHER -> white = free(Norm1(ToSet(o.kept)))
BadFine(env, o) ==
  LET C == Closure(env) E == EdgesOf(o.items) goal == Goal(env)
      best == [n \in DOMAIN o.items |-> <<X(o.items[n].x), o.items[n].w>>] IN
  Clause("parsed", o.ok = (goal \in DOMAIN C.best))
  \cup (IF ~Covered(env) THEN {} ELSE
     Clause("items", {b[1] : b \in ToSet(best)} = DOMAIN C.best)
     \cup Clause("probabilities", \A b \in ToSet(best) : b[1] \notin DOMAIN C.best \/ b[2] = C.best[b[1]])
     \cup Clause("edges", ToSet(E) = C.edges)
     \cup Clause("nodup-edges", Len(E) = Cardinality(ToSet(E))))
MapOf(ps) == [l \in {ps[n][1] : n \in DOMAIN ps} |-> (CHOOSE n \in DOMAIN ps : ps[n][1] = l)]
FineEnv(q, o) == LET e == EnvOf(q) idx == MapOf(q.map) IN TLCEval([e EXCEPT
   !.use = TRUE, !.map = TLCEval([l \in DOMAIN idx |-> q.map[idx[l]][2]]), !.split = q.split,
   !.white = Norm1(ToSet(o.white)), !.noexp = IF q.alg = "lcfrs" THEN {Goal(e)} ELSE {}])
BadPrune(q, o) == IF ~o.cok THEN {} ELSE
   IF o.white = <<>> /\ q.require # <<>> THEN {} ELSE
   Clause("whitelist", WhiteOk(q, o)) \cup BadFine(FineEnv(q, o), o.fine)
EnvFor(q) == IF q.alg = "lcfrs" THEN Goalless(EnvOf(q)) ELSE EnvOf(q)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE CASE r.inp.kind = "chart" -> BadChart(EnvFor(r.inp), r.out)
            [] r.inp.kind = "first" -> BadFirst(EnvFor(r.inp), r.out)
            [] r.inp.kind = "sums" -> BadSums(EnvFor(r.inp), r.inp, r.out)
            [] r.inp.kind = "prune" -> BadPrune(r.inp, r.out)
            [] r.inp.kind = "kbest" -> BadKbest(EnvFor(r.inp), r.inp, r.out)
TCheck == Report(Bad(Rec))
=============================================================================
