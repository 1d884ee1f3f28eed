------------------------------ MODULE DLevelMC ------------------------------
(* State machine: a clause grows by one word or phrase at a time.            *)
EXTENDS DLevel
CONSTANT MaxN
VARIABLES t, last
vars == <<t, last>>
W(l, f, m, e, n) == [l |-> l, i |-> -1, f |-> f, m |-> m, e |-> e, h |-> FALSE, d |-> "", s |-> <<>>,
                     k |-> <<[l |-> "", i |-> n, k |-> <<>>]>>]
P(l, f, d, s, k) == [l |-> l, i |-> -1, f |-> f, m |-> "--", e |-> "--", h |-> FALSE, d |-> d, s |-> s, k |-> k]
n0 == Cardinality(Yield(t))
Words == {W("ww", "hd", "WW(pv,tgw)", "is", n0), W("ww", "mod", "WW(vd,vrij)", "ga", n0), W("vg", "crd", "VG(neven)", "en", n0),
          W("vg", "cmp", "VG(onder)", "als", n0), W("vg", "cmp", "VG(onder)", "dat", n0), W("n", "su", "N(soort)", "x", n0)}
Phrases == {P("NP", f, "501", s, <<w>>) : f \in {"su", "obj1"}, s \in {<<>>, <<<<"su", "502">>>>}, w \in Words}
  \cup {P("INF", "vc", "502", <<>>, <<w>>) : w \in Words}
  \cup {P("REL", "mod", "503", <<>>, <<w>>) : w \in Words} \cup {P("CP", "sup", "504", <<>>, <<w>>) : w \in Words}
Init == t = P("ROOT", "", "500", <<>>, <<W("ww", "hd", "WW(pv,tgw)", "is", 0)>>) /\ last = "start"
Grow(x) == n0 < MaxN /\ t' = TLCEval([t EXCEPT !.k = Append(@, x)]) /\ last' = IF \E y \in NodeSet(x) : Coordinating(y) THEN "coordination" ELSE "other"
Next == \E x \in Words \cup Phrases : Grow(x)
Spec == Init /\ [][Next]_vars
InRange == Level(t) \in 0..7
\* material other than coordination does not make a sentence simpler
Monotone == [][last' = "other" => Level(t') >= Level(t)]_vars
\* coordination matters only for the highest level
NeverSimpler == [][Level(t) < 7 => Level(t') >= Level(t)]_vars
==============================================================================
