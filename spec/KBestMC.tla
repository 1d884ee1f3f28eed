------------------------------ MODULE KBestMC ------------------------------
(* Lazy enumeration of k-best derivations: every item has a sequence of     *)
(* derivations found so far and a set of candidates; a candidate is an edge *)
(* with the ranks of the derivations of its children.  Requests for the     *)
(* next derivation of any item are made in any order; whatever the order,   *)
(* the derivations found are the best ones, each found once, and all are    *)
(* found eventually.                                                        *)
EXTENDS Chart
CONSTANTS MaxLen, MaxReq
B(no, l, r1, r2, yf, w) == [no |-> no, l |-> l, r1 |-> r1, r2 |-> r2, yf |-> yf, w |-> w]
U(no, l, r1, w) == [no |-> no, l |-> l, r1 |-> r1, w |-> w]
L(l, word, w) == [l |-> l, word |-> word, w |-> w]
CF == <<<<0, 1>>>>
Grammars == <<
 [start |-> "R", bin |-> <<B(0, "R", "A", "A", CF, 1), B(1, "A", "A", "A", CF, 2), B(2, "A", "A", "P", CF, 3)>>,
  un |-> <<U(3, "R", "A", 1), U(4, "A", "P", 2)>>, lex |-> <<L("A", "a", 1), L("P", "a", 0), L("P", "b", 1)>>],
 [start |-> "R", bin |-> <<B(0, "R", "A", "R", CF, 1), B(1, "A", "P", "P", CF, 1), B(2, "R", "A", "A", CF, 1)>>,
  un |-> <<U(3, "R", "A", 1), U(4, "A", "P", 1), U(5, "R", "P", 2)>>, lex |-> <<L("R", "a", 4), L("P", "a", 1), L("P", "b", 1)>>],
 [start |-> "R", bin |-> <<B(0, "R", "V", "V", <<<<0, 1, 0, 1>>>>, 2), B(1, "V", "P", "P", <<<<0>>, <<1>>>>, 0),
     B(2, "R", "R2", "R2", CF, 1), B(3, "R2", "R2", "R2", CF, 0)>>,
  un |-> <<U(4, "V", "V2", 1), U(5, "R", "R2", 0), U(6, "R2", "P", 1)>>, lex |-> <<L("P", "a", 0), L("P", "b", 1), L("R2", "b", 0)>>]
>>
Tok(w) == [w |-> w, lw |-> w, tag |-> ""]
VARIABLES env, C, D, cand, done, req
vars == <<env, C, D, cand, done, req>>
P == InsidePoly(env, C)
W == WeightOf(env)
LexWeight(x) == LexW(env, x)
\* st = [d, c, x]: derivations, candidates, explored
Initial(x) == {[e |-> e, a |-> IF e[2] = -1 THEN 0 ELSE 1, b |-> IF e[2] = -1 \/ e[4] = NoItem THEN 0 ELSE 1,
    w |-> IF e[2] = -1 THEN LexWeight(x) ELSE EdgeW(W, C.best, e)] : e \in {e \in C.edges : e[1] = x}}
MinCand(S) == CHOOSE c \in S : \A d \in S : c.w <= d.w
RECURSIVE Lazy(_, _, _)
Succ(st, x, last, side) ==
   LET child == IF side = 1 THEN last.e[3] ELSE last.e[4]
       r == (IF side = 1 THEN last.a ELSE last.b) + 1
       na == IF side = 1 THEN r ELSE last.a
       nb == IF side = 1 THEN last.b ELSE r
       st1 == Lazy(st, child, r)
       key == <<x, last.e, na, nb>>
   IN IF r > Len(st1.d[child]) \/ key \in st1.x THEN st1
      ELSE LET other == IF side = 1 THEN last.e[4] ELSE last.e[3]
               ro == IF side = 1 THEN nb ELSE na
               \* the other child may have rank one without having been visited
               wo == IF ro = 0 THEN 0 ELSE IF ro = 1 THEN C.best[other] ELSE st1.d[other][ro].w
               w == W[last.e[2]] + st1.d[child][r].w + wo
           IN [st1 EXCEPT !.c[x] = @ \cup {[e |-> last.e, a |-> na, b |-> nb, w |-> w]}, !.x = @ \cup {key}]
Lazy(st0, x, k) ==
   LET st == IF x \in st0.v THEN st0 ELSE [st0 EXCEPT !.c[x] = Initial(x), !.v = @ \cup {x}] IN
   IF Len(st.d[x]) >= k THEN st ELSE
   LET last == IF st.d[x] = <<>> THEN [a |-> 0, b |-> 0, e |-> <<>>, w |-> 0] ELSE st.d[x][Len(st.d[x])]
       s1 == IF last.a = 0 THEN st ELSE Succ(st, x, last, 1)
       s2 == TLCEval(IF last.b = 0 THEN s1 ELSE Succ(s1, x, last, 2))
   IN IF s2.c[x] = {} THEN s2
      ELSE LET m == MinCand(s2.c[x])
           IN Lazy([s2 EXCEPT !.c[x] = @ \ {m}, !.d[x] = Append(@, m)], x, k)
Init == /\ \E n \in DOMAIN Grammars : \E len \in 1..MaxLen : \E s \in [1..len -> {"a", "b"}] :
            env = [g |-> Grammars[n], sent |-> [m \in 1..len |-> Tok(s[m])], noexp |-> {},
                   use |-> FALSE, map |-> [l \in {} |-> ""], split |-> 0, white |-> {}]
        /\ C = Closure(env)
        /\ D = [x \in DOMAIN C.best |-> <<>>]
        /\ cand = [x \in DOMAIN C.best |-> {}]
        /\ done = [v |-> {}, x |-> {}]
        /\ req = 0
\* ask for one more derivation of an item
Request(x) == LET st == Lazy([d |-> D, c |-> cand, v |-> done.v, x |-> done.x], x, Len(D[x]) + 1) IN
   /\ D' = st.d /\ cand' = st.c /\ done' = [v |-> st.v, x |-> st.x]
   /\ req' = req + 1
   /\ UNCHANGED <<env, C>>
Large == {x \in DOMAIN C.best : SizeOf(x) = Len(env.sent) \/ SizeOf(x) = 2}
Next == req < MaxReq /\ \E x \in Large : Request(x)
Spec == Init /\ [][Next]_vars
Ordered == LET p == P IN \A x \in DOMAIN D : [n \in DOMAIN D[x] |-> D[x][n].w] = KBest(p[x], Len(D[x]))
Distinct == \A x \in DOMAIN D : \A n, m \in DOMAIN D[x] : n = m \/ <<D[x][n].e, D[x][n].a, D[x][n].b>> # <<D[x][m].e, D[x][m].a, D[x][m].b>>
\* a request that yields nothing means that there are no more derivations
Exhaustive == [][\A x \in Large : (req' # req /\ Request(x) /\ D'[x] = D[x]) => Len(D[x]) = CountAll(P[x])]_vars
=============================================================================
