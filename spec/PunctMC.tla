------------------------------ MODULE PunctMC ------------------------------
(* Trees over sentences with words and paired punctuation undergo sequences *)
(* of strategies.                                                           *)
EXTENDS Punct
CONSTANTS MaxN, MaxSteps
VARIABLES t, sent, last, t0, s0, steps
vars == <<t, sent, last, t0, s0, steps>>
Words == {"w", "\"", ".", "(", ")"}
TagOf(w) == IF w = "w" THEN "N" ELSE w
RECURSIVE Tag(_, _)
Tag(x, s) == IF IsTerm(x) THEN x ELSE IF IsPre(x) THEN Node(TagOf(s[x.k[1].i + 1]), x.k)
             ELSE Node(x.l, [n \in DOMAIN x.k |-> Tag(x.k[n], s)])
\* root with any number of subtrees
Shapes(n) == Rooted(TreesOver(0..(n - 1), {"A"}, 0, TRUE))
Init == \E n \in 1..MaxN : \E s \in [1..n -> Words] : \E x \in Shapes(n) :
   sent = s /\ t = Tag(x, s) /\ last = "none" /\ t0 = t /\ s0 = sent /\ steps = 0
Methods == {"move", "root", "raise", "balance", "lower", "remove", "removeall", "prune"}
Next == steps < MaxSteps /\ t.k # <<>> /\ \E m \in Methods :
   LET r == Apply(m, t, sent) IN
   t' = r.t /\ sent' = r.sent /\ last' = m /\ t0' = t /\ s0' = sent /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars
P0 == PunctOf(t0, s0)
Moves == last \in {"move", "root", "raise", "balance", "lower"}
Tokens == Moves => KeepsTokens(t0, t) /\ NoEmpty(t)
KeepsConstituents == Moves => Skeleton(t, P0) = Skeleton(t0, P0)
Removes == last \in {"remove", "removeall", "prune"} =>
   /\ Yield(t) = 0..(Len(sent) - 1) /\ (t.k # <<>> => NoEmpty(t))
   /\ last = "remove" => PunctOf(t, sent) = {}
   /\ last # "removeall" => Len(SelectSeq(sent, LAMBDA w : w = "w")) = Len(SelectSeq(s0, LAMBDA w : w = "w"))
RootHasPunct == last = "root" => \A x \in PunctOf(t, sent) : Len(PathTo(t, x)) = 1
\* moving does not make non-punctuation constituents more discontinuous than
\* they are without punctuation; moving twice changes nothing
Idempotent == (last \in {"root", "remove"}) => Canonical(Apply(last, t, sent).t) = Canonical(t)
=============================================================================
