------------------------------- MODULE BitsMC -------------------------------
(* The word-wise algorithms on arrays of words, with words of W bits, as    *)
(* state machines refining the operations on sets of positions.  A word is  *)
(* the set of its one bits.                                                 *)
EXTENDS Bits, TLC
CONSTANTS W, Slots
VARIABLES S, pos, alg, a, x, out, done
vars == <<S, pos, alg, a, x, out, done>>
Univ == 0..(W * Slots - 1)
Word(T, n) == {b \in 0..(W - 1) : (n * W + b) \in T}
Full == 0..(W - 1)
Ctz(w) == Min(w)
Shr(w, n) == {b - n : b \in {c \in w : c >= n}}
Init == /\ S \in SUBSET Univ /\ pos \in Univ
        /\ alg \in {"nextset", "nextunset", "iterate", "fanout", "fanoutbig"}
        /\ a = 0 /\ x = {} /\ out = <<>> /\ done = "start"
Begin == done = "start" /\ done' = "run" /\ UNCHANGED <<S, pos, alg, out>> /\
   CASE alg = "nextset" -> a' = pos \div W /\ x' = {b \in Word(S, pos \div W) : b >= pos % W}
     [] alg = "nextunset" -> a' = pos \div W /\ x' = Word(S, pos \div W) \cup 0..((pos % W) - 1)
     [] alg = "iterate" -> a' = 0 /\ x' = Word(S, 0)
     \* one unbounded word; a counts components
     [] OTHER -> a' = 0 /\ x' = S
Finish(v) == out' = Append(out, v) /\ done' = "done" /\ UNCHANGED <<a, x>>
Step == done = "run" /\ UNCHANGED <<S, pos, alg>> /\
  CASE alg = "nextset" ->
        IF x # {} THEN Finish(a * W + Ctz(x))
        ELSE IF a + 1 = Slots THEN Finish(-1)
        ELSE a' = a + 1 /\ x' = Word(S, a + 1) /\ UNCHANGED <<out, done>>
    [] alg = "nextunset" ->
        IF x # Full THEN Finish(a * W + Ctz(Full \ x))
        ELSE IF a + 1 = Slots THEN Finish((a + 1) * W)
        ELSE a' = a + 1 /\ x' = Word(S, a + 1) /\ UNCHANGED <<out, done>>
    [] alg = "iterate" ->
        IF x # {} THEN /\ out' = Append(out, a * W + Ctz(x)) /\ x' = x \ {Ctz(x)}
                       /\ UNCHANGED <<a, done>>
        ELSE IF a + 1 = Slots THEN done' = "done" /\ UNCHANGED <<a, x, out>>
        ELSE a' = a + 1 /\ x' = Word(S, a + 1) /\ UNCHANGED <<out, done>>
    [] alg = "fanout" -> \* skip zeros, skip ones
        IF x = {} THEN Finish(a)
        ELSE LET y == Shr(x, Ctz(x)) z == NextOut(y, 0, W * Slots + 1)
             IN a' = a + 1 /\ x' = Shr(y, z) /\ UNCHANGED <<out, done>>
    [] OTHER -> \* remove lowest bit; it ends a component unless followed by a bit
        IF x = {} THEN Finish(a)
        ELSE LET m == Min(x) IN x' = x \ {m} /\ a' = (IF (m + 1) \in x THEN a ELSE a + 1)
                                /\ UNCHANGED <<out, done>>
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == done = "done" =>
  CASE alg = "nextset" -> out = <<NextIn(S, pos, -1)>>
    [] alg = "nextunset" -> out = <<NextOut(S, pos, W * Slots)>>
    [] alg = "iterate" -> out = Ascending(S)
    [] OTHER -> out = <<Components(S)>>
Terminates == <>(done = "done")
=============================================================================
