------------------------------- MODULE EstMC -------------------------------
(* Best-first search with an estimate of what remains: an item is taken     *)
(* from the agenda when its weight plus its estimate is the lowest (ties    *)
(* broken arbitrarily); items without an estimate are dropped; an item is   *)
(* taken again when a better weight is found later.  The estimates are      *)
(* lower bounds, so that the first derivation of the goal is a best one,    *)
(* everything that is part of a complete derivation is found, and with the  *)
(* SX estimate no item is taken twice.                                      *)
EXTENDS Est
CONSTANTS MaxLen
B(no, l, r1, r2, yf, w) == [no |-> no, l |-> l, r1 |-> r1, r2 |-> r2, yf |-> yf, w |-> w]
U(no, l, r1, w) == [no |-> no, l |-> l, r1 |-> r1, w |-> w]
L(l, word, w) == [l |-> l, word |-> word, w |-> w]
CF == <<<<0, 1>>>>
Grammars == <<
 [kind |-> "SX", g |-> [start |-> "R", bin |-> <<B(0, "R", "A", "A", CF, 1), B(1, "A", "A", "A", CF, 2), B(2, "A", "A", "P", CF, 3)>>,
  un |-> <<U(3, "R", "A", 1), U(4, "A", "P", 2)>>, lex |-> <<L("A", "a", 1), L("P", "a", 0), L("P", "b", 1)>>]],
 [kind |-> "SX", g |-> [start |-> "R", bin |-> <<B(0, "A", "A", "B", CF, 1), B(6, "D", "C", "D", CF, 1)>>,
  un |-> <<U(1, "R", "A", 0), U(2, "B", "A", 1), U(3, "A", "B", 2), U(4, "B", "C", 1), U(5, "C", "B", 1)>>,
  lex |-> <<L("A", "a", 2), L("C", "b", 1), L("C", "a", 3), L("D", "b", 0)>>]],
 [kind |-> "LR", g |-> [start |-> "R", bin |-> <<B(0, "R", "V", "P", <<<<0, 1, 0>>>>, 0), B(1, "V", "V", "Q", <<<<0>>, <<0, 1>>>>, 1),
     B(2, "V", "P", "Q", <<<<0>>, <<1>>>>, 1), B(3, "R", "V", "V", <<<<0, 1, 0, 1>>>>, 1)>>, un |-> <<>>,
  lex |-> <<L("P", "a", 0), L("P", "b", 1), L("Q", "b", 1), L("Q", "a", 2)>>]],
 [kind |-> "LR", g |-> [start |-> "R", bin |-> <<B(0, "R", "V", "R", <<<<0, 1, 0>>>>, 0), B(1, "V", "P", "Q", <<<<0>>, <<1>>>>, 0),
     B(2, "R", "P", "R", CF, 1), B(6, "R", "V", "P", <<<<0, 1, 0>>>>, 2)>>,
  un |-> <<U(3, "V", "V2", 1), U(4, "R", "Q", 3), U(5, "Q", "P", 1)>>, lex |-> <<L("P", "a", 0), L("P", "b", 1), L("Q", "b", 0)>>]],
 [kind |-> "LR", g |-> [start |-> "R", bin |-> <<B(0, "R", "A", "A", CF, 1), B(1, "A", "A", "A", CF, 2), B(2, "A", "A", "P", CF, 3)>>,
  un |-> <<U(3, "R", "A", 1), U(4, "A", "P", 2)>>, lex |-> <<L("A", "a", 1), L("P", "a", 0), L("P", "b", 1)>>]]
>>
Words == {"a", "b"}
Tok(w) == [w |-> w, lw |-> w, tag |-> ""]
Tables == [n \in DOMAIN Grammars |-> Table(Grammars[n].kind, Grammars[n].g, "R", MaxLen)]
ASSUME TLCSet(1, Tables)
Env(g, s) == [g |-> g, sent |-> [m \in DOMAIN s |-> Tok(s[m])], noexp |-> {},
              use |-> FALSE, map |-> [l \in {} |-> ""], split |-> 0, white |-> {}]
\* the SX estimate is the lowest of the actual weights in any sentence, for
\* every label that can appear in such a context
Actual(g) == TLCEval(UNION {LET env == Env(g, s) C == Closure(env) o == Outsides(env, C) IN
     {<<Summary("SX", Len(s), x), o[x]>> : x \in DOMAIN o} : s \in UNION {[1..n -> Words] : n \in 1..MaxLen}})
ASSUME \A n \in DOMAIN Grammars : Grammars[n].kind = "SX" =>
   LET t == TLCGet(1)[n] act == Actual(Grammars[n].g) in == Insides(Grammars[n].g, MaxLen)
       live == {k \in DOMAIN t : \E m \in 1..(MaxLen - k[2] - k[3]) : <<k[1], m>> \in DOMAIN in} IN
   /\ {a[1] : a \in act} = live
   /\ \A k \in live : t[k] = MinW({a[2] : a \in {a \in act : a[1] = k}})
VARIABLES env, kind, est, full, agenda, chart, edges, again
vars == <<env, kind, est, full, agenda, chart, edges, again>>
W == WeightOf(env)
Has(x) == Summary(kind, Len(env.sent), x) \in DOMAIN est
Est(x) == est[Summary(kind, Len(env.sent), x)]
Init == /\ \E n \in DOMAIN Grammars : \E len \in 1..MaxLen : \E s \in [1..len -> Words] :
            /\ env = [g |-> Grammars[n].g, sent |-> [m \in 1..len |-> Tok(s[m])],
                   noexp |-> {<<"R", <<<<0, len>>>>>>}, use |-> FALSE, map |-> [l \in {} |-> ""], split |-> 0, white |-> {}]
            /\ kind = Grammars[n].kind
            /\ est = TLCGet(1)[n]
        /\ full = Closure(env)
        /\ agenda = IF ~Covered(env) THEN Empty ELSE
             LET S == UNION {LexItems(env, p) : p \in 0..(Len(env.sent) - 1)}
                 T == {y[1] : y \in {y \in S : Has(y[1])}} IN
             [x \in T |-> MinW({y[2] : y \in {y \in S : y[1] = x}})]
        /\ chart = Empty
        /\ edges = IF Covered(env) THEN {e \in LexEdges(env) : Has(e[1])} ELSE {}
        /\ again = FALSE
New(x, c) == IF x = Goal(env) THEN {} ELSE {e \in UnEdges(env, {x}) \cup
   UNION {LET r == env.g.bin[n] IN
       (IF r.r1 # x[1] THEN {} ELSE {<<<<r.l, Comb(x[2], b[2]).spans>>, r.no, x, b>> :
            b \in {b \in DOMAIN c : b[1] = r.r2 /\ Fits(r, x, b) /\ b # Goal(env)}})
       \cup (IF r.r2 # x[1] THEN {} ELSE {<<<<r.l, Comb(a[2], x[2]).spans>>, r.no, a, x>> :
            a \in {a \in DOMAIN c : a[1] = r.r1 /\ Fits(r, a, x) /\ a # Goal(env)}})
     : n \in DOMAIN env.g.bin} : Has(e[1])}
Pop == \E x \in DOMAIN agenda :
   /\ \A y \in DOMAIN agenda : agenda[x] + Est(x) <= agenda[y] + Est(y)
   /\ LET c == (x :> agenda[x]) @@ chart
          E == New(x, c)
          rest == [y \in DOMAIN agenda \ {x} |-> agenda[y]]
          heads == {e[1] : e \in E}
          lower(y) == MinW({EdgeW(W, c, e) : e \in {e \in E : e[1] = y}})
          add == {y \in heads : y \in DOMAIN rest \/ y \notin DOMAIN c \/ lower(y) < c[y]}
      IN /\ chart' = c
         /\ agenda' = TLCEval([y \in DOMAIN rest \cup add |-> IF y \notin DOMAIN rest THEN lower(y)
                 ELSE IF y \in heads /\ lower(y) < rest[y] THEN lower(y) ELSE rest[y]])
         /\ again' = (again \/ x \in DOMAIN chart)
         /\ edges' = edges \cup E
   /\ UNCHANGED <<env, kind, est, full>>
Next == Pop
Spec == Init /\ [][Next]_vars
RECURSIVE Reach(_, _, _)
Reach(E, done, todo) == IF todo = {} THEN done ELSE
   LET kids == UNION {{e[3], e[4]} : e \in {e \in E : e[1] \in todo}} \ {NoItem} IN
   Reach(E, done \cup todo, kids \ (done \cup todo))
\* the estimates are lower bounds
Bound == chart = Empty => Admissible(kind, est, env, full)
Sound == DOMAIN chart \cup DOMAIN agenda \subseteq DOMAIN full.best /\ edges \subseteq full.edges
      /\ \A x \in DOMAIN chart : chart[x] >= full.best[x]
GoalFirst == Goal(env) \in DOMAIN chart => chart[Goal(env)] = full.best[Goal(env)]
NoneTwice == kind = "SX" => ~again
Complete == agenda = Empty => LET goal == Goal(env) IN
   /\ (goal \in DOMAIN chart) = (goal \in DOMAIN full.best)
   /\ goal \in DOMAIN chart => LET kept == Reach(full.edges, {}, {goal}) IN
        /\ \A x \in kept : x \in DOMAIN chart /\ chart[x] = full.best[x]
        /\ {e \in edges : e[1] \in kept} = {e \in full.edges : e[1] \in kept}
Terminates == <>(agenda = Empty)
=============================================================================
