------------------------------- MODULE Disamb -------------------------------
(* Selecting parse trees given derivations.  A derivation is a tree built by *)
(* substituting fragments; several derivations can produce the same tree.    *)
(*                                                                           *)
(* Reading a tree as a sequence of fragments (top down, substitution sites   *)
(* from left to right) is done here from the tree alone: the ways to tile it *)
EXTENDS FragGrammar, Objectives
RECURSIVE UnitPairs(_, _, _)
Fail == [ok |-> FALSE, us |-> <<>>]
\* align node x of fragment f with node v of a tree; us: pairs of nodes
UnitPairs(f, x, v) ==
  IF IsTerm(v) \/ v.l # x.l THEN Fail
  ELSE IF IsUnit(x) THEN IF Lexical(f, x) /\ ~IsPre(v) THEN Fail ELSE [ok |-> TRUE, us |-> <<<<x, v>>>>]
  ELSE IF Len(x.k) # Len(v.k) THEN Fail
  ELSE LET ms == TLCEval([n \in DOMAIN x.k |-> UnitPairs(f, x.k[n], v.k[n])])
       IN IF \E n \in DOMAIN ms : ~ms[n].ok THEN Fail
          ELSE [ok |-> TRUE, us |-> Cat([n \in DOMAIN ms |-> ms[n].us])]
\* how the components of several yields alternate; 0 is a gap
Owner(ys, p) == CHOOSE n \in DOMAIN ys : p \in ys[n]
Pattern(ys) ==
  LET all == UNION {ys[n] : n \in DOMAIN ys}
      ps == TLCEval(SetToSortSeq(all, LAMBDA a, b : a < b))
  IN Cat([n \in DOMAIN ps |->
       IF n = 1 THEN <<Owner(ys, ps[n])>>
       ELSE IF ps[n] > ps[n - 1] + 1 THEN <<0, Owner(ys, ps[n])>>
       ELSE IF Owner(ys, ps[n]) = Owner(ys, ps[n - 1]) THEN <<>> ELSE <<Owner(ys, ps[n])>>])
ByFirst(vs) == SortSeq(vs, LAMBDA a, b : First(a) < First(b))
\* the open nodes of a tree when fragment f is used at node v; or fails
UseAt(f, v, ws) ==
  LET m == TLCEval(UnitPairs(f, f.t, v)) IN
  IF ~m.ok THEN Fail
  ELSE IF \E n \in DOMAIN m.us : Lexical(f, m.us[n][1]) /\ ws[m.us[n][2].k[1].i + 1] # WordOf(f, m.us[n][1]) THEN Fail
  ELSE IF Pattern([n \in DOMAIN m.us |-> Yield(m.us[n][1])]) # Pattern([n \in DOMAIN m.us |-> Yield(m.us[n][2])]) THEN Fail
  ELSE [ok |-> TRUE, us |-> ByFirst(LET o == SelectSeq(m.us, LAMBDA p : ~Lexical(f, p[1])) IN [n \in DOMAIN o |-> o[n][2]])]
RECURSIVE Tilings(_, _, _), Combine(_)
Combine(ss) == IF ss = <<>> THEN <<<<>>>>
  ELSE LET r == Combine(Tail(ss)) IN TLCEval(Cat([n \in DOMAIN ss[1] |-> [m \in DOMAIN r |-> ss[1][n] \o r[m]]]))
\* all sequences of (numbers of) fragments that derive v
Tilings(F, v, ws) ==
  Cat([n \in DOMAIN F |->
    LET m == TLCEval(UseAt(F[n].f, v, ws))
    IN IF ~m.ok THEN <<>>
       ELSE LET c == Combine([j \in DOMAIN m.us |-> Tilings(F, m.us[j], ws)])
            IN [j \in DOMAIN c |-> <<n>> \o c[j]]])
TileW(F, s) == FoldLeft(LAMBDA a, n : a + F[n].w, 0, s)
=============================================================================
