-------------------------------- MODULE Est --------------------------------
(* Outside estimates for best-first parsing.  An estimate is a lower bound  *)
(* on the weight needed to complete a derivation, given a summary of the    *)
(* position of an item in the sentence:                                     *)
(*  SX  (context-free grammars): the numbers of words left and right of the *)
(*      item; the estimate is the best weight over all sentences in which   *)
(*      an item with that label can appear with such a context.             *)
(*  LR: the number of words in the item, the number of words before its     *)
(*      start and after its end, and the number of words in its gaps; the   *)
(*      estimate ignores where the words of a sibling are, except for what  *)
(*      the yield function requires.                                        *)
(* Tables are functions on the summaries with a finite estimate; summaries  *)
(* with more than max words are not considered.                             *)
EXTENDS Chart
Lows(f, cand) == TLCEval([x \in DOMAIN f \cup {c[1] : c \in cand} |->
    LET ws == {c[2] : c \in {c \in cand : c[1] = x}} IN
    IF x \notin DOMAIN f THEN MinW(ws) ELSE IF ws = {} \/ f[x] <= MinW(ws) THEN f[x] ELSE MinW(ws)])
-----------------------------------------------------------------------------
\* best weight of a label with n words, whichever they are: <<label, n>>
RECURSIVE InUn(_, _, _)
InUn(g, f, n) == LET h == Lows(f, {<<<<r.l, n>>, r.w + f[<<r.r1, n>>]>> : r \in {r \in ToSet(g.un) : <<r.r1, n>> \in DOMAIN f}}) IN
   IF h = f THEN f ELSE InUn(g, h, n)
InStep(g, f, n) ==
   LET lex == IF n > 1 THEN {} ELSE {<<<<r.l, 1>>, r.w>> : r \in ToSet(g.lex)}
       split == {p \in ToSet(g.bin) \X (1..(n - 1)) : <<p[1].r1, p[2]>> \in DOMAIN f /\ <<p[1].r2, n - p[2]>> \in DOMAIN f}
       bin == {<<<<p[1].l, n>>, p[1].w + f[<<p[1].r1, p[2]>>] + f[<<p[1].r2, n - p[2]>>]>> : p \in split}
   IN InUn(g, Lows(f, lex \cup bin), n)
Insides(g, max) == FoldLeft(LAMBDA f, n : InStep(g, f, n), Empty, [n \in 1..max |-> n])
-----------------------------------------------------------------------------
\* <<label, left, right>>; S: the keys from which to apply unary rules
RECURSIVE OutUn(_, _, _)
OutUn(g, f, S) ==
   LET cand == UNION {{<<<<r.r1>> \o Tail(k), r.w + f[k]>> : k \in {k \in S \cap DOMAIN f : k[1] = r.l}} : r \in ToSet(g.un)}
       h == Lows(f, cand) IN
   IF h = f THEN f ELSE OutUn(g, h, S \cup {c[1] : c \in cand})
SXStep(g, in, f, max, t) ==
   LET cand == UNION {UNION {
         LET left == IF <<r.r2, s>> \in DOMAIN in
                     THEN {<<<<r.r1, k[2], k[3] + s>>, r.w + f[k] + in[<<r.r2, s>>]>> : k \in {k \in DOMAIN f : k[1] = r.l /\ k[2] + k[3] = t - s}}
                     ELSE {}
             right == IF <<r.r1, s>> \in DOMAIN in
                     THEN {<<<<r.r2, k[2] + s, k[3]>>, r.w + f[k] + in[<<r.r1, s>>]>> : k \in {k \in DOMAIN f : k[1] = r.l /\ k[2] + k[3] = t - s}}
                     ELSE {}
         IN left \cup right : s \in 1..t} : r \in ToSet(g.bin)}
       h == Lows(f, cand)
   IN OutUn(g, h, {k \in DOMAIN h : k[2] + k[3] = t})
SXTable(g, root, max) == LET in == Insides(g, max) IN
   FoldLeft(LAMBDA f, t : SXStep(g, in, f, max, t), OutUn(g, (<<root, 0, 0>> :> 0), {<<root, 0, 0>>}), [t \in 1..(max - 1) |-> t])
-----------------------------------------------------------------------------
\* <<label, length, words outside, words in gaps>>
\* for child c of a rule: the number of components of its sibling that are
\* outside of it, and the number in its gaps
Comps(r) == FlattenSeq(r.yf)
Outer(r, c) == LET s == Comps(r) own == {n \in DOMAIN s : s[n] = c} IN
   Cardinality({n \in DOMAIN s : s[n] # c /\ ((\A m \in own : n < m) \/ (\A m \in own : n > m))})
Inner(r, c) == LET s == Comps(r) IN Cardinality({n \in DOMAIN s : s[n] # c}) - Outer(r, c)
Fan(r, c) == LET s == Comps(r) IN Cardinality({n \in DOMAIN s : s[n] = c})
\* a parent <<l, len, lr, ga>> and one child with n words: the possible
\* values of the words outside of the child
LrRange(r, c, k, n) == LET total == k[2] + k[3] + k[4]
      ga == IF Inner(r, c) > Fan(r, c) - 1 THEN Inner(r, c) ELSE Fan(r, c) - 1 IN
   IF Outer(r, c) = 0 THEN {lr \in {k[3]} : total - n - lr >= ga}
   ELSE {lr \in k[3]..(total - n) : total - n - lr >= ga}
LRStep(g, in, f, len) ==
   LET cand == UNION {UNION {UNION {
           LET me == IF c = 0 THEN r.r1 ELSE r.r2 sib == IF c = 0 THEN r.r2 ELSE r.r1 n == k[2] - s IN
           {<<<<me, n, lr, k[2] + k[3] + k[4] - n - lr>>, r.w + f[k] + in[<<sib, s>>]>> : lr \in LrRange(r, c, k, n)}
           : s \in {s \in Fan(r, 1 - c)..(k[2] - Fan(r, c)) : <<IF c = 0 THEN r.r2 ELSE r.r1, s>> \in DOMAIN in}}
         : k \in {k \in DOMAIN f : k[1] = r.l /\ k[2] = len}} : <<r, c>> \in ToSet(g.bin) \X {0, 1}}
   IN Lows(f, cand)
LRTable(g, root, max) == LET in == Insides(g, max) IN
   FoldLeft(LAMBDA f, n : LET len == max + 1 - n h == OutUn(g, f, {k \in DOMAIN f : k[2] = len}) IN LRStep(g, in, h, len),
            TLCEval([k \in {<<root, n, 0, 0>> : n \in 1..max} |-> 0]), [n \in 1..max |-> n])
-----------------------------------------------------------------------------
Table(kind, g, root, max) == IF kind = "SX" THEN SXTable(g, root, max) ELSE LRTable(g, root, max)
Summary(kind, n, x) == LET s == x[2] first == s[1][1] last == s[Len(s)][2] IN
   IF kind = "SX" THEN <<x[1], first, n - last>>
   ELSE <<x[1], SizeOf(x), n - (last - first), last - first - SizeOf(x)>>
\* actual weight needed to complete a derivation, for items of the chart C
RECURSIVE OutR(_, _, _)
OutR(W, C, o) ==
   LET cand == UNION {LET w == o[e[1]] + W[e[2]] IN
        IF e[4] = NoItem THEN {<<e[3], w>>} ELSE {<<e[3], w + C.best[e[4]]>>, <<e[4], w + C.best[e[3]]>>}
        : e \in {e \in C.edges : e[2] # -1 /\ e[1] \in DOMAIN o}}
       h == Lows(o, cand)
   IN IF h = o THEN o ELSE OutR(W, C, h)
Outsides(env, C) == IF Goal(env) \notin DOMAIN C.best THEN Empty ELSE OutR(WeightOf(env), C, (Goal(env) :> 0))
Admissible(kind, table, env, C) == LET o == Outsides(env, C) IN
   \A x \in DOMAIN o : LET k == Summary(kind, Len(env.sent), x) IN k \in DOMAIN table /\ table[k] <= o[x]
=============================================================================
