------------------------------ MODULE OptBinMC ------------------------------
(* The agenda search for an optimal binarization as a state machine: the    *)
(* best partial binarization not explored yet is combined with every        *)
(* disjoint partial binarization known so far.  Ties between items may be   *)
(* broken in any way.  When the complete constituent is dequeued, its score *)
(* is minimal among all binarizations.                                      *)
EXTENDS OptBin
CONSTANTS MaxLen, MaxKids
VARIABLES ys, cf, head, work, done, result
vars == <<ys, cf, head, work, done, result>>
\* arrangements: strings over child numbers (0 = gap), numbered by first use
RECURSIVE Arrangements(_)
Arrangements(n) == IF n = 0 THEN {<<>>} ELSE
   UNION {{Append(a, x) : x \in 0..Min({MaxKids, 1 + Max({0} \cup ToSet(a))})} : a \in Arrangements(n - 1)}
Proper2(a) == Cardinality(ToSet(a) \ {0}) >= 3 /\ a[1] # 0 /\ a[Len(a)] # 0
Yields(a) == [c \in 1..Max(ToSet(a)) |-> {n \in DOMAIN a : a[n] = c}]
K == DOMAIN ys
BaseOf == [n \in K |-> LET f == FanOut(ys[n]) IN IF cf THEN <<f + Cardinality(ys[n]), f>>
                                                       ELSE <<f, f + Cardinality(ys[n])>>]
\* items: [x |-> maximal score so far, s |-> sum of complexities]
LexLE3(a, b) == (a.x # b.x /\ LexLE(a.x, b.x)) \/ (a.x = b.x /\ a.s <= b.s)
Less3(a, b) == LexLE3(a, b) /\ a # b
Prod(S, T) == Score(cf, YieldOf(ys, S \cup T), <<YieldOf(ys, S), YieldOf(ys, T)>>)
Init == \E a \in {b \in Arrangements(MaxLen) : Proper2(b)} :
  /\ ys = Yields(a) /\ cf \in BOOLEAN /\ head \in 0..Len(ys) /\ done = {} /\ result = <<>>
  /\ LET item(n) == [x |-> BaseOf[n], s |-> 0]
     IN work = IF head = 0 THEN [S \in {{n} : n \in K} |-> item(Min(S))]
        ELSE [S \in {{n} : n \in K \ {head}} \cup {{n, head} : n \in K \ {head}} |->
              IF Cardinality(S) = 1 THEN item(Min(S))
              ELSE LET p == Prod(S \ {head}, {head}) IN [x |-> p, s |-> p[1]]]
Agenda == {S \in DOMAIN work \ done : head = 0 \/ head \in S}
Pop(S) ==
  /\ S \in Agenda /\ \A T \in Agenda : LexLE3(work[S], work[T])
  /\ done' = done \cup {S}
  /\ IF S = K THEN result' = <<work[S].x>> /\ UNCHANGED work
     ELSE /\ UNCHANGED result
          /\ LET comb == {T \in DOMAIN work : T \cap S = {} /\ (head = 0 \/ Cardinality(T) = 1)}
                 new(T) == LET p == Prod(S, T) IN
                    [x |-> Worst(p, Worst(work[S].x, work[T].x)), s |-> p[1] + work[S].s + work[T].s]
             IN work' = [U \in DOMAIN work \cup {S \cup T : T \in comb} |->
                 LET T == U \ S IN
                 IF ~(S \subseteq U /\ T \in comb) THEN work[U]
                 ELSE IF U \in DOMAIN work /\ ~Less3(new(T), work[U]) THEN work[U] ELSE new(T)]
  /\ UNCHANGED <<ys, cf, head>>
Next == result = <<>> /\ \E S \in DOMAIN work : Pop(S)
Spec == Init /\ [][Next]_vars
\* maximum with the scores of the children, which are the same for all
AllBase == LET b == BaseOf IN
   [n \in K |-> b[n]]
RECURSIVE WorstOf(_)
WorstOf(s) == IF Len(s) = 1 THEN s[1] ELSE Worst(s[1], WorstOf(Tail(s)))
Optimal == result # <<>> =>
   Worst(result[1], WorstOf(AllBase)) = MinScore(cf, ys, BaseOf, head)
NeverExhausted == result = <<>> => Agenda # {}
\* an explored item is never improved afterwards, up to the sum of complexities
Settled == [][\A S \in done : S \in DOMAIN work' /\ work'[S].x = work[S].x]_vars
DPAgrees == done = {} => Best(cf, ys, BaseOf, head) = MinScore(cf, ys, BaseOf, head)
=============================================================================
