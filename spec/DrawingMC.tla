----------------------------- MODULE DrawingMC -----------------------------
(* Every valid placement of every small tree renders to a picture from      *)
(* which the tree is read back.                                             *)
EXTENDS Drawing
CONSTANTS N, Scale, U, MaxRows
Y == <<"-", "<", ">", "!", "t", "u", "x">>
Word(n) == CASE n = 0 -> "A" [] n = 1 -> "BBBB" [] n = 2 -> "CC" [] n = 3 -> "D"
Sent(n) == [m \in 1..n |-> Word(m - 1)]
VARIABLES t, at, done
vars == <<t, at, done>>
Nds(x) == Number(x, 0, Sent(N), <<>>)
RECURSIVE Place(_, _, _, _)
\* place nodes bottom up: children have higher numbers
Place(ns, n, rows, acc) == IF n = 0 THEN {acc}
  ELSE LET kids == {m \in DOMAIN ns : ns[m].par = n}
           cells == IF ns[n].tm >= 0 THEN {<<rows, Scale * ns[n].tm>>}
             ELSE LET lo == Min({acc[m][2] : m \in kids}) hi == Max({acc[m][2] : m \in kids}) top == Min({acc[m][1] : m \in kids}) IN
               {<<r, c>> \in (0..(top - 1)) \X (lo..hi) : lo <= c /\ c <= hi}
       IN UNION {Place(ns, n - 1, rows, TLCEval(acc @@ (n :> c))) : c \in cells}
Init == /\ t \in {x \in TreesOver(0..(N - 1), {"S"}, U, TRUE) : ~IsPre(x)} /\ at = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ LET ns == Nds(t) IN \E rows \in 1..MaxRows :
            \E a \in Place(ns, Len(ns), rows, <<>>) : at' = a
Spec == Init /\ [][Next]_vars
Par == [n \in DOMAIN at |-> Nds(t)[n].par]
Tm == [n \in DOMAIN at |-> Nds(t)[n].tm]
Lab == [n \in DOMAIN at |-> Nds(t)[n].lab]
Valid == BadPlacement(TLCEval(Par), TLCEval(Tm), at) = {}
Pic == Render(Y, TLCEval(Par), TLCEval(Tm), at, TLCEval(Lab))
ReadBack == done /\ Valid => LET p == TLCEval(Pic) r == TLCEval(ReadPicture(Y, p)) IN
   /\ r.ok /\ r.t = Canonical(t) /\ r.words = Sent(N) /\ ~Dangling(Y, p)
Sometimes == ~(done /\ Valid)
=============================================================================
