---------------------------- MODULE OptBinTrace ----------------------------
EXTENDS OptBin, TraceBase
RECURSIVE JoinC(_)
JoinC(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o JoinC(Tail(s))
Prefix(p, s) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Art(o, l) == ~IsTerm(o) /\ Prefix(l \o Rec.inp.sep \o "<", o.l)
\* nodes of the binarization of one constituent
RECURSIVE Inner(_, _)
Inner(o, l) == <<o>> \o Cat([n \in DOMAIN o.k |-> IF Art(o.k[n], l) THEN Inner(o.k[n], l) ELSE <<>>])
\* the original children below them, left to right
RECURSIVE Parts(_, _)
Parts(o, l) == Cat([n \in DOMAIN o.k |-> IF Art(o.k[n], l) THEN Parts(o.k[n], l) ELSE <<o.k[n]>>])
ScoreOf(cf, o) == Score(cf, Yield(o), [n \in DOMAIN o.k |-> Yield(o.k[n])])
RECURSIVE WorstOf(_)
WorstOf(s) == IF Len(s) = 1 THEN s[1] ELSE Worst(s[1], WorstOf(Tail(s)))
Idx(t, y) == CHOOSE n \in DOMAIN t.k : Yield(t.k[n]) = y
Cont(t) == Continuous(t) /\ \A n \in DOMAIN t.k : Continuous(t.k[n])
(* the binarization o of the constituent t; head: index of head child or 0  *)
Constituent(o, t, head, cf, h, par) ==
  LET l == o.l
      inner == Inner(o, l)
      parts == Parts(o, l)
      ys == [n \in DOMAIN t.k |-> Yield(t.k[n])]
      match == {Yield(parts[n]) : n \in DOMAIN parts} = {ys[n] : n \in DOMAIN ys} /\ Len(parts) = Len(t.k)
      Bin == \A n \in DOMAIN inner : Len(inner[n].k) = Min({2, Len(t.k)})
  IN IF ~match THEN {"constituents"}
     ELSE IF ~Bin THEN {"not binary"}
     ELSE IF Len(t.k) <= 2 THEN {} ELSE
     LET byidx == [n \in DOMAIN t.k |-> CHOOSE p \in DOMAIN parts : Yield(parts[p]) = ys[n]]
         base == [n \in DOMAIN t.k |-> IF IsTerm(t.k[n]) THEN <<0, 0>> ELSE ScoreOf(cf, parts[byidx[n]])]
         got == Worst(WorstOf([n \in DOMAIN inner |-> ScoreOf(cf, inner[n])]), WorstOf(base))
         want == Best(cf, ys, base, head)
         covered(x) == \* labels of the siblings below x
           LET p == Parts(x, l) IN
           IF head > 0 \/ Cont(t) THEN [n \in 1..Min({h, Len(p)}) |-> p[n].l]
           ELSE LET s == SetToSortSeq({Idx(t, Yield(p[n])) : n \in DOMAIN p}, LAMBDA a, b : a < b)
                IN [n \in DOMAIN s |-> parts[byidx[s[n]]].l]
     IN Clause("not minimal", got = Worst(want, WorstOf(base)))
        \cup Clause("form of head-driven binarization", (head > 0 /\ ~Cont(t)) => \A n \in DOMAIN inner :
               \E m \in {1, 2} : ~Art(inner[n].k[m], l)
               /\ (~Art(inner[n].k[3 - m], l) => ys[head] \in {Yield(inner[n].k[1]), Yield(inner[n].k[2])}))
        \cup Clause("labels of new nodes", \A n \in 2..Len(inner) :
               inner[n].l = l \o Rec.inp.sep \o "<" \o JoinC(covered(inner[n])) \o ">" \o (IF Cont(t) THEN "" ELSE par))
RECURSIVE Whole(_, _, _, _, _, _, _)
Whole(o, t, hd, cf, h, v, anc) ==
  IF IsTerm(t) THEN Clause("terminals", o = t)
  ELSE IF IsTerm(o) THEN {"terminals"} ELSE
  LET par == TLCEval(IF v > 1 THEN "^<" \o JoinC(SubSeq(anc, 1, Min({Len(anc), v - 1}))) \o ">" ELSE "")
      c == Constituent(o, t, IF hd THEN Len(t.k) ELSE 0, cf, h, par)
      lab == t.l \o par
      parts == Parts(o, o.l)
  IN IF o.l # lab THEN {"label of constituent"}
     ELSE IF c # {} THEN c ELSE
     UNION {Whole(parts[n], t.k[Idx(t, Yield(parts[n]))], hd, cf, h, v, <<t.l>> \o anc) : n \in DOMAIN parts}
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  LET o == r.out q == r.inp IN
  IF ~Proper(o.t) THEN {"no tree"} ELSE
  Clause("terminals", Yield(o.t) = Yield(q.t) /\ IsInjective(Leaves(o.t)))
  \cup Clause("recorded yields", o.bits = [n \in DOMAIN Nodes(o.t) |-> SetToSortSeq(Yield(Nodes(o.t)[n]), LAMBDA a, b : a < b)])
  \cup Clause("undone by unbinarize", Canonical(o.un) = Canonical(q.t))
  \cup IF q.op = "min"
       THEN Constituent(o.t, q.t, q.head, q.cf, q.h, "")
            \cup Clause("children unchanged", \A n \in DOMAIN Parts(o.t, q.t.l) : Parts(o.t, q.t.l)[n] \in ToSet(q.t.k))
       ELSE Whole(o.t, q.t, q.hd, q.cf, q.h, q.v, <<>>)
TCheck == Report(Bad(Rec))
=============================================================================
