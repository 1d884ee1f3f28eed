------------------------------ MODULE Formats ------------------------------
(* Treebank formats.  Annotated trees: constituents carry                   *)
(*   f  function    m  morphology    e  lemma    ("--" for none)            *)
(*   id a name for the constituent, or ""                                   *)
(*   x  secondary edges: a sequence of <<relation, name of constituent>>    *)
EXTENDS Brackets
ANode(l, k, f, m, e, id, x) == TLCEval([l |-> l, i |-> -1, k |-> k, f |-> f, m |-> m, e |-> e, id |-> id, x |-> x])
None == "--"
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE ReplChr(_, _, _, _)
ReplChr(s, n, a, b) == IF n > Len(s) THEN "" ELSE (IF Chr(s, n) = a THEN b ELSE Chr(s, n)) \o ReplChr(s, n + 1, a, b)
NoParens(s) == ReplChr(ReplChr(s, 1, "(", "["), 1, ")", "]")
RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, n) == IF n > Len(s) THEN 0 ELSE IF Chr(s, n) = c THEN n ELSE IndexOf(s, c, n + 1)
\* everything before the first c, except at the start
Before(s, c) == LET n == IndexOf(s, c, 1) IN IF n > 1 THEN SubSeq(s, 1, n - 1) ELSE s

-----------------------------------------------------------------------------
(* Export format: a table with one line of fields                           *)
(*   <<word, lemma, tag, morph, func, parent, (rel, node)*>>                *)
(* per token, followed by one for every constituent below the root          *)
(* (word = "#500", ...).  The root has number 0 and is not listed.          *)
IsNT(w) == Len(w) = 4 /\ Chr(w, 1) = "#" /\ Chr(w, 2) \in {"5", "6", "7", "8", "9"} /\ Chr(w, 3) \in Digit /\ Chr(w, 4) \in Digit
NTName(w) == SubSeq(w, 2, 4)
Tokens_(tab) == SelectSeq(tab, LAMBDA r : ~IsNT(r[1]))
Words(tab) == LET ts == Tokens_(tab) IN [n \in DOMAIN ts |-> ts[n][1]]
Pairs(r) == [n \in 1..((Len(r) - 6) \div 2) |-> <<r[5 + 2 * n], r[6 + 2 * n]>>]
\* rows of the children of a constituent
Under(tab, p) == SelectSeq([n \in DOMAIN tab |-> n], LAMBDA n : tab[n][6] = p)
RECURSIVE FromRow(_, _)
FromRow(tab, n) == LET r == tab[n] nt == IsNT(r[1]) us == IF nt THEN Under(tab, NTName(r[1])) ELSE <<>> IN
  ANode(NoParens(r[3]), IF nt THEN TLCEval([c \in DOMAIN us |-> FromRow(tab, us[c])]) ELSE <<Term(n - 1)>>,
        r[5], r[4], r[2], IF nt THEN NTName(r[1]) ELSE "", Pairs(r))
ReadExport(tab) == LET us == Under(tab, "0") IN
  ANode("ROOT", TLCEval([c \in DOMAIN us |-> FromRow(tab, us[c])]), None, None, None, "", <<>>)
\* the shape of a table
ExportShape(tab) ==
  LET nts == SelectSeq(tab, LAMBDA r : IsNT(r[1])) nw == Len(tab) - Len(nts) IN
   /\ \A n \in DOMAIN tab : Len(tab[n]) >= 6 /\ Len(tab[n]) % 2 = 0 /\ (IsNT(tab[n][1]) <=> n > nw)
   /\ \A n \in DOMAIN nts : nts[n][1] = "#" \o ToString(499 + n)
   /\ \A n \in DOMAIN tab : tab[n][6] = "0" \/ \E m \in DOMAIN nts : nts[m][1] = "#" \o tab[n][6]
\* writing, with an arbitrary numbering of the constituents: num[n] is the
\* row of the n-th constituent (top down); path numbering by position in Nodes
RECURSIVE Listing(_, _, _)
\* acc: sequence of [t, p]: constituents in preorder with the position of the parent
Listing(ks, p, acc) == IF ks = <<>> THEN acc
  ELSE IF IsTerm(ks[1]) THEN Listing(Tail(ks), p, acc)
  ELSE LET a == TLCEval(Append(acc, [t |-> ks[1], p |-> p])) IN
       Listing(Tail(ks), p, Listing(ks[1].k, Len(a), a))
WriteExport(t, sent, num) ==
  LET lst == TLCEval(Listing(t.k, 0, <<>>))
      ph == SelectSeq([n \in DOMAIN lst |-> n], LAMBDA n : ~IsPre(lst[n].t))
      nr(n) == IF n = 0 THEN "0" ELSE ToString(499 + num[CHOOSE m \in DOMAIN ph : ph[m] = n])
      secs(x) == Cat([n \in DOMAIN x |-> <<x[n][1], nr(CHOOSE m \in DOMAIN lst : lst[m].t.id = x[n][2])>>])
      row(w, y) == <<w, y.t.e, y.t.l, y.t.m, y.t.f, nr(y.p)>> \o secs(y.t.x)
  IN [n \in DOMAIN sent |-> row(sent[n], lst[CHOOSE m \in DOMAIN lst : lst[m].t.k = <<Term(n - 1)>>])]
     \o [n \in DOMAIN ph |-> LET m == ph[CHOOSE c \in DOMAIN ph : num[c] = n] IN row("#" \o nr(m), lst[m])]

-----------------------------------------------------------------------------
(* Equality up to the names of constituents and the order of children.      *)
RECURSIVE CanonA(_)
CanonA(t) == IF IsTerm(t) THEN t
  ELSE TLCEval([t EXCEPT !.k = SortSeq(TLCEval([n \in DOMAIN t.k |-> CanonA(t.k[n])]), LAMBDA a, b : First(a) < First(b))])
\* secondary edges by the position of the target instead of its name
IdxIn(s, y) == IF \E n \in DOMAIN s : s[n] = y THEN Min({n \in DOMAIN s : s[n] = y}) ELSE 0
RECURSIVE Resolve(_, _)
Resolve(t, ids) == IF IsTerm(t) THEN t ELSE
  [l |-> t.l, i |-> -1, k |-> TLCEval([n \in DOMAIN t.k |-> Resolve(t.k[n], ids)]), f |-> t.f, m |-> t.m, e |-> t.e,
   x |-> TLCEval([n \in DOMAIN t.x |-> <<t.x[n][1], IdxIn(ids, t.x[n][2])>>])]
Norm(t) == LET c == CanonA(t) ns == Nodes(c) IN TLCEval(Resolve(c, TLCEval([n \in DOMAIN ns |-> ns[n].id])))
NormKeep(t) == LET ns == Nodes(t) IN TLCEval(Resolve(t, TLCEval([n \in DOMAIN ns |-> ns[n].id])))
\* the order of the secondary edges of a constituent is immaterial
RECURSIVE EdgesBag(_)
EdgesBag(t) == IF IsTerm(t) THEN t ELSE TLCEval([t EXCEPT !.k = TLCEval([n \in DOMAIN t.k |-> EdgesBag(t.k[n])]),
   !.x = [y \in ToSet(t.x) |-> Cardinality({n \in DOMAIN t.x : t.x[n] = y})]])
RECURSIVE Plain(_)
Plain(t) == IF IsTerm(t) THEN t ELSE Node(t.l, [n \in DOMAIN t.k |-> Plain(t.k[n])])

-----------------------------------------------------------------------------
(* What survives in a format.                                               *)
RECURSIVE Every(_, _)
Every(g(_), t) == IF IsTerm(t) THEN t ELSE TLCEval(g([t EXCEPT !.k = TLCEval([n \in DOMAIN t.k |-> Every(g, t.k[n])])]))
Bare(t) == ANode(t.l, t.k, None, None, None, "", <<>>)
RECURSIVE RStripIdx(_)
RStripIdx(s) == IF s = "" THEN "" ELSE IF Chr(s, Len(s)) \in Digit \cup {"=", "-"} THEN RStripIdx(SubSeq(s, 1, Len(s) - 1)) ELSE s
AllDigits(s) == Len(s) > 0 /\ \A n \in 1..Len(s) : Chr(s, n) \in Digit
\* the function in a label such as NP-SBJ or NP-SBJ-1
LabelFunc(l) == LET n == IndexOf(l, "-", 1) r == SubSeq(l, n + 1, Len(l)) IN
  IF n <= 1 \/ AllDigits(r) THEN None ELSE RStripIdx(r)
OrNone(s) == IF s = "" THEN None ELSE s
FuncFromLabel(t) == ANode(t.l, t.k, OrNone(LabelFunc(t.l)), None, None, "", <<>>)
ExportNode(t) == IF IsPre(t) THEN [t EXCEPT !.l = NoParens(@)] ELSE [t EXCEPT !.e = None, !.l = NoParens(@)]
AlpinoNode(t) == IF IsPre(t) THEN [t EXCEPT !.x = <<>>, !.id = ""] ELSE [t EXCEPT !.e = None, !.m = None, !.x = <<>>, !.id = ""]
AsRoot(t) == ANode("ROOT", t.k, None, None, None, "", <<>>)
Remain(fmt, t) ==
  IF fmt \in {"bracket", "discbracket"} THEN Every(FuncFromLabel, t)
  ELSE IF fmt = "export" THEN AsRoot(CanonA(Every(ExportNode, t)))
  ELSE IF fmt = "alpino" THEN CanonA(Every(AlpinoNode, t))
  ELSE t
RECURSIVE Chain(_, _)
Chain(fmts, t) == IF fmts = <<>> THEN t ELSE Chain(Tail(fmts), TLCEval(Remain(fmts[1], t)))

-----------------------------------------------------------------------------
(* Handling of morphology, lemmas and functions.                            *)
CutLabel(s) == Before(Before(s, "-"), "=")
\* fn, mo, le: "no", "add", "replace", "between" (and "remove" for fn)
DecLabel(t, fn) == IF fn = "remove" THEN CutLabel(t.l)
  ELSE IF fn = "add" /\ t.f # None THEN t.l \o "-" \o t.f
  ELSE IF fn = "replace" THEN t.f ELSE t.l
Above(t, f, fn) == IF fn = "between" THEN Node("-" \o f, <<t>>) ELSE t
\* the label of a preterminal with its morphology
MorphTag(t, mo) == IF mo = "add" THEN NoParens(t.l) \o "/" \o NoParens(t.m) ELSE IF mo = "replace" THEN NoParens(t.m) ELSE NoParens(t.l)
PreTree(t, fn, mo, le) ==
  LET a == IF le = "between" THEN Node(NoParens(t.e), t.k) ELSE t.k[1]
      b == IF mo = "between" THEN Node(NoParens(t.m), <<a>>) ELSE a
  IN Node(DecLabel([t EXCEPT !.l = MorphTag(t, mo)], fn), <<b>>)
RECURSIVE Dec(_, _, _, _, _)
\* pos: functions on preterminals as well
Dec(t, fn, mo, le, pos) == IF IsTerm(t) THEN t
  ELSE IF IsPre(t) THEN IF pos \/ fn = "remove" THEN Above(PreTree(t, fn, mo, le), t.f, fn) ELSE PreTree(t, "no", mo, le)
  ELSE Above(Node(DecLabel(t, fn), [n \in DOMAIN t.k |-> Dec(t.k[n], fn, mo, le, pos)]), t.f, fn)
\* the root is left alone unless asked otherwise
Decorate(t, fn, mo, le, pos, root) ==
  Plain(Node(IF fn = "remove" \/ (root /\ fn # "between") THEN DecLabel(t, fn) ELSE t.l,
             [n \in DOMAIN t.k |-> Dec(t.k[n], fn, mo, le, pos)]))
PreOf(t, i) == CHOOSE x \in NodeSet(t) : IsPre(x) /\ x.k[1].i = i
DecSent(t, sent, le) == [n \in DOMAIN sent |-> LET e == NoParens(PreOf(t, n - 1).e) IN
    IF le = "add" THEN sent[n] \o "/" \o e ELSE IF le = "replace" THEN e ELSE sent[n]]
=============================================================================
