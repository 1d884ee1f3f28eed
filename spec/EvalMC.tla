------------------------------- MODULE EvalMC -------------------------------
(* All pairs of small trees over one sentence under several parameters:     *)
(* scores are bounded, symmetric, perfect for identical trees, and do not   *)
(* depend on the order of sentences; the trees that remain cover the        *)
(* remaining tokens; restricting to discontinuous constituents and ignoring *)
(* labels behave as sub- and superset.                                      *)
EXTENDS Eval
CONSTANTS NTok, Un, Labs, Params
VARIABLES gt, ct
RECURSIVE WithF(_)
WithF(t) == IF IsTerm(t) THEN ETerm(t.i)
  ELSE IF IsPre(t) THEN ENode(IF t.k[1].i = 1 THEN "q" ELSE "p", <<>>, FALSE, <<ETerm(t.k[1].i)>>)
  ELSE ENode(t.l, <<>>, FALSE, [n \in DOMAIN t.k |-> WithF(t.k[n])])
AllTrees == TLCEval({WithF(t) : t \in Rooted(TreesOver(0..(NTok - 1), Labs, Un, TRUE))})
Init == gt \in AllTrees /\ ct = <<>>
Next == ct = <<>> /\ ct' \in AllTrees /\ UNCHANGED gt
Sent == [n \in 1..NTok |-> IF n = 1 THEN "w" ELSE "x"]
Base == [LABELED |-> 1, DISC |-> 0, DRP |-> 0, CUT |-> 40, DL |-> <<"ROOT">>, DLL |-> <<>>,
         DW |-> <<>>, EQL |-> <<>>, EQW |-> <<>>]
Par == [std |-> Base, all |-> [Base EXCEPT !.DL = <<>>], unl |-> [Base EXCEPT !.LABELED = 0],
        disc |-> [Base EXCEPT !.DISC = 1], del |-> [Base EXCEPT !.DL = <<"ROOT", "q">>],
        delB |-> [Base EXCEPT !.DL = <<"B">>], eq |-> [Base EXCEPT !.EQL = <<<<"A", "B">>>>],
        drp |-> [Base EXCEPT !.DRP = 1], dw |-> [Base EXCEPT !.DW = <<"w">>]]
X(g, c) == [gt |-> g, ct |-> c, gs |-> Sent, cs |-> Sent]
R(nm) == Pair(X(gt, ct), Par[nm])
Done == ct # <<>>
K(x, nm) == Counts(<<x>>, Par[nm])
Bounded == Done => \A nm \in Params : LET x == TLCEval(R(nm)) k == K(x, nm) IN
   /\ x.ok /\ k.m <= k.g /\ k.m <= k.c /\ k.pm <= k.pn /\ k.ex <= k.n
   /\ (k.g = k.c /\ k.m = k.g) <=> SameBag(x.gb, x.cb)
   /\ Len(x.gp) = Len(x.words) /\ Yield(x.g) = 0..(Len(x.words) - 1) /\ Yield(x.c) = Yield(x.g)
   /\ \A y \in NodeSet(x.g) : y.k = <<>> => y = x.g
   /\ \A y \in NodeSet(x.g) \ {x.g} : y.l \notin ToSet(Par[nm].DL)
Identical == Done /\ gt = ct => \A nm \in Params : LET x == TLCEval(R(nm)) k == K(x, nm) IN
   k.m = k.g /\ k.m = k.c /\ k.ex = k.n /\ k.pm = k.pn
\* exchanging the roles exchanges precision and recall (unless tokens are removed by their gold parents)
Symmetric == Done => \A nm \in Params \ {"drp"} : LET x == TLCEval(R(nm)) y == TLCEval(Pair(X(ct, gt), Par[nm])) IN
   x.gb = y.cb /\ x.cb = y.gb /\ Common(x.gb, x.cb) = Common(y.gb, y.cb)
Related == Done /\ {"std", "unl", "disc", "eq"} \subseteq Params =>
   LET s == K(R("std"), "std") u == K(R("unl"), "unl") d == K(R("disc"), "disc") e == K(R("eq"), "eq") IN
   /\ s.m <= e.m /\ e.m <= u.m /\ s.g = u.g /\ s.c = e.c /\ d.m <= s.m /\ d.g = s.gd /\ d.c = s.cd
\* leaf ancestor: the symbols tell whether spans are the same without discontinuity
LaExact == Done => LET x == TLCEval(R("std")) n == Len(x.words) la == LeafAncestor(x.g, x.c, {"ROOT"}, n) IN
   /\ la >= 0 /\ la <= Scale
   /\ (la = Scale) <=> \A q \in 0..(n - 1) : Lineage(x.g, q, {"ROOT"}) = Lineage(x.c, q, {"ROOT"})
   /\ SameBag(x.gb, x.cb) => la > Scale \div 3
   /\ (la = Scale /\ AllContinuous(x.g) /\ AllContinuous(x.c)) => SameBag(x.gb, x.cb)
   /\ LeafAncestor(x.c, x.g, {"ROOT"}, n) = la
Order == Done => LET a == R("std") b == TLCEval(Pair(X(gt, gt), Par["std"])) IN
   Counts(<<a, b>>, Base) = Counts(<<b, a>>, Base)
=============================================================================
