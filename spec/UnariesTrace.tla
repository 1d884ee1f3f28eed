---------------------------- MODULE UnariesTrace ----------------------------
EXTENDS Unaries, TraceBase
Collapsed(r) == LET c == r.out.col t == r.inp.t IN
   Clause("collapse as specified", c = Collapse(t, r.inp.pos, r.inp.root))
   \cup Clause("no unary chains left", NoChains(c, r.inp.pos, r.inp.root))
   \cup Clause("terminals kept in order", Leaves(c) = Leaves(t))
   \cup Clause("expansion restores the tree", r.out.exp = t)
Intro(r) == LET p == r.out.pre t == r.inp.t IN
   Clause("every terminal has its own preterminal", AllPre(p))
   \cup Clause("terminals kept in order", Leaves(p) = Leaves(t))
   \cup Clause("preterminals as specified", p = IntroPre(t, r.inp.sent))
\* with identifiers: the same tree up to the names after "/", all different
IntroIds(r) == LET p == r.out.pre s == TLCEval(IntroPre(r.inp.t, [n \in 1..30 |-> "x"]))
                   a == TLCEval(Labels(p)) b == TLCEval(Labels(s))
                   new == {n \in DOMAIN b : FindSub(b[n], "/x") > 0} IN
   Clause("preterminals as specified", SameShape(p, s))
   \cup Clause("other labels kept", Len(a) = Len(b) => \A n \in DOMAIN a :
          IF n \in new THEN SubSeq(a[n], 1, Len(b[n]) - 1) = SubSeq(b[n], 1, Len(b[n]) - 1)
          ELSE a[n] = b[n])
   \cup Clause("identifiers are the first ones, each used once", Len(a) = Len(b) =>
          {SubSeq(a[n], Len(b[n]), Len(a[n])) : n \in new} = {ToString(m) : m \in 0..(Cardinality(new) - 1)})
Bad(r) == IF r.err # "" THEN {"exception"}
  ELSE IF \E f \in DOMAIN r.out : ~Proper(r.out[f]) THEN {"not a tree"}
  ELSE CASE r.inp.op = "collapse" -> Collapsed(r)
    [] r.inp.op = "intropre" -> Intro(r)
    [] r.inp.op = "intropreids" -> IntroIds(r)
    [] r.inp.op = "handledisc" -> LET h == r.out.hd IN
         Clause("handledisc as specified", h = HandleDisc(r.inp.t))
         \cup Clause("terminals kept in order", Leaves(h) = Leaves(r.inp.t))
TCheck == Report(Bad(Rec))
=============================================================================
