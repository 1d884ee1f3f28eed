-------------------------------- MODULE Gram --------------------------------
(* Weighted grammars and the derivations they allow.  A grammar is a        *)
(* sequence of [p |-> production, w |-> weight]; probabilities are relative *)
(* frequencies, as reduced fractions <<numerator, denominator>>.            *)
EXTENDS Lcfrs
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(a, b) == LET g == Gcd(a, b) IN <<a \div g, b \div g>>
Times(x, y) == LET g == Gcd(x[1], y[2]) h == Gcd(y[1], x[2]) IN
   <<(x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g)>>
Plus(x, y) == LET g == Gcd(x[2], y[2]) IN Frac(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
MassOf(g, lhs) == SumSeq([n \in DOMAIN g |-> IF g[n].p.r[1] = lhs THEN g[n].w ELSE 0])
ProbOf(g, n) == Frac(g[n].w, MassOf(g, g[n].p.r[1]))
\* all derivations of nonterminal x in a grammar without recursion:
\* components as sequences of words, probability, rules used (in preorder)
RECURSIVE Derivs(_, _)
Derivs(g, x) == UNION {LET p == g[n].p pr == ProbOf(g, n) IN
   IF p.r[1] # x THEN {}
   ELSE IF IsLex(p) THEN {[parts |-> <<<<p.w>>>>, pr |-> pr, d |-> <<n>>]}
   ELSE IF Len(p.r) = 2 THEN {TLCEval([parts |-> ApplyYF(p.yf, <<a.parts>>), pr |-> Times(pr, a.pr), d |-> <<n>> \o a.d]) : a \in Derivs(g, p.r[2])}
   ELSE {TLCEval([parts |-> ApplyYF(p.yf, <<a.parts, b.parts>>), pr |-> Times(pr, Times(a.pr, b.pr)), d |-> <<n>> \o a.d \o b.d]) :
            a \in Derivs(g, p.r[2]), b \in Derivs(g, p.r[3])} : n \in DOMAIN g}
=============================================================================
