----------------------------- MODULE FormatsMC -----------------------------
(* Writing the table row by row in any order of numbers, reading it back.   *)
EXTENDS Formats
CONSTANTS MaxN
VARIABLES t, num
vars == <<t, num>>
Ids == <<"p", "q", "r", "s", "u", "v", "w", "y", "z">>
\* name the constituents; the last one has a secondary edge to the first
Annot(tr) == LET lst == Listing(tr.k, 0, <<>>)
   RECURSIVE An(_, _)
   An(u, c) == IF IsTerm(u) THEN <<u, c>> ELSE
      LET RECURSIVE Ks(_, _, _)
          Ks(ks, d, acc) == IF ks = <<>> THEN <<acc, d>> ELSE LET r == An(ks[1], d) IN Ks(Tail(ks), r[2], Append(acc, r[1]))
          r == Ks(u.k, c + 1, <<>>)
      IN <<ANode(u.l, r[1], "F", IF IsPre(u) THEN "M" ELSE None, IF IsPre(u) THEN "L" ELSE None, IF IsPre(u) THEN "" ELSE Ids[c],
             IF IsPre(u) THEN <<<<"S", Ids[1]>>>> ELSE <<>>), r[2]>>
   kids == LET RECURSIVE Ks2(_, _, _)
               Ks2(ks, d, acc) == IF ks = <<>> THEN acc ELSE LET r == An(ks[1], d) IN Ks2(Tail(ks), r[2], Append(acc, r[1]))
           IN Ks2(tr.k, 1, <<>>)
  IN ANode("ROOT", kids, None, None, None, "", <<>>)
Phr(tr) == Len(SelectSeq(Nodes(tr), LAMBDA y : ~IsPre(y))) - 1
\* the preterminals refer to the first constituent: it has to exist
HasFirst(tr) == ~IsPre(tr.k[1])
Trees0 == UNION {{x \in {Node("ROOT", IF y.l = "X" THEN <<y>> ELSE y.k) : y \in TreesOver(0..(m - 1), {"A"}, 1, TRUE)} :
              (\A z \in DOMAIN x.k : ~IsTerm(x.k[z])) /\ HasFirst(x) /\ Phr(x) \in 1..4} : m \in 1..MaxN}
Init == t \in {Annot(x) : x \in Trees0} /\ num = <<>>
\* choose the row number of the next constituent
Next == /\ Len(num) < Phr(t)
        /\ \E r \in 1..Phr(t) \ ToSet(num) : num' = Append(num, r)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Sent == [m \in 1..Cardinality(Yield(t)) |-> "w"]
Complete == Len(num) = Phr(t)
RoundTrip == Complete => LET tab == TLCEval(WriteExport(t, Sent, num)) IN
   /\ ExportShape(tab) /\ Words(tab) = Sent
   /\ Norm(ReadExport(tab)) = Norm(t)
\* formats lose nothing the second time
Idempotent == \A f \in {"bracket", "discbracket", "export", "alpino"} : Norm(Remain(f, Remain(f, t))) = Norm(Remain(f, t))
\* going through a poorer format never adds anything
RECURSIVE Info(_)
Info(u) == IF IsTerm(u) THEN 0 ELSE Len(u.x) + (IF u.f = None THEN 0 ELSE 1) + (IF u.m = None THEN 0 ELSE 1) + (IF u.e = None THEN 0 ELSE 1)
             + FoldLeft(LAMBDA a, b : a + b, 0, [c \in DOMAIN u.k |-> Info(u.k[c])])
Monotone == \A f \in {"bracket", "discbracket", "export", "alpino"}, g \in {"bracket", "discbracket", "export", "alpino"} :
   Info(Chain(<<f, g>>, t)) <= Info(Chain(<<f>>, t))
\* decoration keeps what is asked
Recover == \A pos \in BOOLEAN :
   /\ Decorate(t, "no", "no", "no", pos, FALSE) = Plain(t)
   /\ Decorate(Every(LAMBDA y : [y EXCEPT !.l = @ \o "-" \o y.f], t), "remove", "no", "no", pos, TRUE).k = Plain(t).k
=============================================================================
