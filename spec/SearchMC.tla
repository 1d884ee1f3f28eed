------------------------------ MODULE SearchMC ------------------------------
(* A searcher answers queries on several files.  The part of the answer for *)
(* each file is taken from a cache of limited size or computed by one of    *)
(* several workers, in any order.  Every answer is that of a sequential     *)
(* scan: matches by file, in order, and a prefix of these for each file     *)
(* when there is a limit.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NF, NQ, MaxHits, MaxLimit, CacheSize, MaxOps, Workers
Files == 1..NF
Queries == 1..NQ
Inf == 999
\* matches: numbered by file and position
Hits(q, f, h) == [n \in 1..h[q, f] |-> <<q, f, n>>]
Min2(a, b) == IF a < b THEN a ELSE b
Clip(lim, s) == SubSeq(s, 1, Min2(lim, Len(s)))
Subsets == {s \in UNION {[1..n -> Files] : n \in 1..NF} : \A a, b \in DOMAIN s : a # b => s[a] # s[b]}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
VARIABLES h,      \* number of matches
  cache,          \* sequence of entries [q, f, val, lim], oldest first
  op,             \* current query [q, sub, lim] or NoOp
  todo, running,  \* files for which workers have to, or do compute matches
  parts,          \* answer for files that are done
  ans, ops
vars == <<h, cache, op, todo, running, parts, ans, ops>>
NoOp == [q |-> 0, sub |-> <<>>, lim |-> 0]
Init == /\ h \in [Queries \X Files -> 0..MaxHits]
        /\ cache = <<>> /\ op = NoOp /\ todo = {} /\ running = {} /\ parts = <<>> /\ ans = <<>> /\ ops = 0
Entry(q, f) == {n \in DOMAIN cache : cache[n].q = q /\ cache[n].f = f}
\* a cached answer is of use when at least as many matches were asked for
Usable(q, f, lim) == \E n \in Entry(q, f) : lim <= cache[n].lim
Cached(q, f) == cache[CHOOSE n \in Entry(q, f) : TRUE].val
Ask == /\ op = NoOp /\ ops < MaxOps
       /\ \E q \in Queries, sub \in Subsets, lim \in (1..MaxLimit) \cup {Inf} :
            LET hit == {f \in {sub[n] : n \in DOMAIN sub} : Usable(q, f, lim)} IN
            /\ op' = [q |-> q, sub |-> sub, lim |-> lim]
            /\ todo' = {sub[n] : n \in DOMAIN sub} \ hit
            /\ parts' = [f \in hit |-> Clip(lim, Cached(q, f))]
       /\ ops' = ops + 1 /\ ans' = <<>> /\ UNCHANGED <<h, cache, running>>
Start == \E f \in todo : /\ Cardinality(running) < Workers
                         /\ running' = running \cup {f} /\ todo' = todo \ {f}
                         /\ UNCHANGED <<h, cache, op, parts, ans, ops>>
\* the entry replaces an older one with the same key, or the oldest entry
Store(e) == LET c == SelectSeq(cache, LAMBDA x : ~(x.q = e.q /\ x.f = e.f)) IN
  IF CacheSize = 0 THEN cache ELSE IF Len(c) >= CacheSize THEN Append(Tail(c), e) ELSE Append(c, e)
Complete == \E f \in running : LET val == Clip(op.lim, Hits(op.q, f, h)) IN
  /\ cache' = Store([q |-> op.q, f |-> f, val |-> val, lim |-> op.lim])
  /\ parts' = [g \in DOMAIN parts \cup {f} |-> IF g = f THEN val ELSE parts[g]]
  /\ running' = running \ {f} /\ UNCHANGED <<h, op, todo, ans, ops>>
Answer == /\ op # NoOp /\ todo = {} /\ running = {}
          /\ ans' = <<op, Flat([n \in DOMAIN op.sub |-> parts[op.sub[n]]])>>
          /\ op' = NoOp /\ parts' = <<>> /\ UNCHANGED <<h, cache, todo, running, ops>>
Next == Ask \/ Start \/ Complete \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Complete) /\ WF_vars(Answer)
-----------------------------------------------------------------------------
Scan(o) == Flat([n \in DOMAIN o.sub |-> Clip(o.lim, Hits(o.q, o.sub[n], h))])
Correct == ans # <<>> => ans[2] = Scan(ans[1])
CacheOk == /\ Len(cache) <= CacheSize
           /\ \A n \in DOMAIN cache : cache[n].val = Clip(cache[n].lim, Hits(cache[n].q, cache[n].f, h))
           /\ \A n, m \in DOMAIN cache : n # m => <<cache[n].q, cache[n].f>> # <<cache[m].q, cache[m].f>>
\* every query is answered
Answered == [](op # NoOp => <>(op = NoOp))
=============================================================================
