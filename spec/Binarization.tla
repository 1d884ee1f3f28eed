---------------------------- MODULE Binarization ----------------------------
(* Markovized binarization of constituents and its inverse.                 *)
(* Input nodes carry hd, the (0-based) index of the head child or -1.       *)
(* Parameters p: factor, h, v, revh, markhead, ho (head outward), tail,     *)
(* lmu, rmu (left/rightmost unary), thr, artpa, dot, dir, filt, lf.         *)
EXTENDS Trees

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1]
                ELSE s[1] \o sep \o Join(Tail(s), sep)
Sub0(s, a, b) == SubSeq(s, a + 1, b)      \* s[a:b] with 0-based bounds
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Flip(f) == IF f = "right" THEN "left" ELSE "right"
Kept(s, p) == SelectSeq(s, LAMBDA x : x \notin ToSet(p.filt))
Take(s, h) == SubSeq(s, 1, MinOf(h, Len(s)))
LF(p, lab) == IF p.lf THEN lab \o "'" ELSE lab
DirMark(p, f) == IF p.dir THEN (IF f = "left" THEN "r:" ELSE "l:") ELSE ""
HeadMark(p, cl, hd) == IF p.markhead /\ hd >= 0 THEN cl[hd + 1] \o ";" ELSE ""
\* headedness matters only if it is asked for
UseHd(p, t) == IF p.ho \/ p.markhead THEN t.hd ELSE -1

\* The context of the artificial node at step i, which dominates the
\* siblings that are still to be generated.
Start(p, f, cl, hd, i) ==
  IF f = "right" THEN i
  ELSE MaxOf(Len(cl) - i - p.h + MaxOf(hd, 0), MaxOf(hd, 0))
End(p, f, cl, hd, i) == MinOf(Len(cl) - i + MaxOf(hd, 0), Len(cl))
Siblings(p, f, cl, hd, i) ==
  LET n == Len(cl) s == Start(p, f, cl, hd, i) e == End(p, f, cl, hd, i) IN
  DirMark(p, f) \o HeadMark(p, cl, hd)
  \o (IF p.dot THEN Join(Kept(Sub0(cl, 0, MinOf(s, n)), p), ",") \o "." ELSE "")
  \o (IF p.revh > 0 THEN
        (IF f = "right" THEN Join(Kept(Sub0(cl, MaxOf(s - p.revh, 0), s), p), ",")
         ELSE Join(Kept(Sub0(cl, e, MinOf(e + p.revh, n)), p), ",")) \o ";" ELSE "")
  \o (IF f = "left" /\ hd < 0
      THEN Join(Kept(Sub0(cl, s, e), p), ",")
      ELSE Join(Take(Kept(Sub0(cl, s, n), p), p.h), ","))
\* The same when the context window lies within the siblings dominated;
\* otherwise (after the switch of direction at the head, with a long
\* window) the documentation declares the label unreliable.
Reliable(p, f, cl, hd, i) == f = "right" \/ hd < 0 \/
    (p.ho /\ p.factor = "right" /\ Len(cl) - i >= p.h)

RECURSIVE Chain(_, _, _, _, _, _, _, _)
\* children of the current node at step i; kids: children not yet attached
Chain(p, lab, par, cl, hd, kids, i, f) ==
  LET n == Len(kids) + i - 1 lim == IF p.rmu THEN n ELSE n - 1 IN
  IF i >= lim THEN kids
  ELSE LET tailm == IF i + 1 = n THEN p.tail ELSE ""
           sib == TLCEval(Siblings(p, f, cl, hd, i))
           name == lab \o "|<" \o sib \o ">" \o par \o tailm
           sw == p.ho /\ i = hd
           f2 == TLCEval(IF sw THEN Flip(f) ELSE f)
           rest == TLCEval(IF f = "right" THEN Tail(kids) ELSE SubSeq(kids, 1, Len(kids) - 1))
           inner == TLCEval(Chain(p, lab, par, cl, hd, rest, TLCEval(i + 1), f2))
           msib == (IF p.dot THEN "m" \o SubSeq(sib, 2, Len(sib))
                    ELSE "m:" \o HeadMark(p, cl, hd))
           new == Node(name, IF sw /\ p.dir /\ i + 1 # n
                             THEN <<Node(lab \o "|<" \o msib \o ">" \o par, inner)>>
                             ELSE inner)
       IN IF f = "right" THEN <<kids[1], new>> ELSE <<new, kids[Len(kids)]>>

RECURSIVE Bin(_, _, _, _)
\* anc: the labels used for parent annotation of this node
Bin(t, p, anc, isroot) ==
  IF IsTerm(t) THEN t ELSE
  LET ann == p.v > 1 /\ ~isroot /\ ~IsTerm(t.k[1])
      par0 == IF ann THEN "^<" \o Join(anc, ",") \o ">" ELSE ""
      par == IF p.artpa THEN par0 ELSE ""
      lab == IF p.v = 0 THEN "_" ELSE t.l
      anc2 == IF ann THEN <<t.l>> \o Take(anc, p.v - 2) ELSE anc
      n == Len(t.k)
      kids == TLCEval([m \in 1..n |-> Bin(t.k[m], p, anc2, FALSE)])
      name == t.l \o par0
      hd == UseHd(p, t)
      cl == IF IsTerm(t.k[1]) THEN <<>> ELSE TLCEval([m \in 1..n |-> LF(p, t.k[m].l)])
  IN IF n <= p.thr THEN Node(name, kids)
     ELSE IF n <= 2 THEN
       LET sib == (IF IsTerm(t.k[1]) THEN "" ELSE DirMark(p, p.factor)
              \o (IF p.markhead /\ hd >= 0 THEN t.k[hd + 1].l \o ";" ELSE "")
              \o Join(Kept(Take(cl, p.h), p), ","))
              \o (IF p.dot THEN "." ELSE "")
           new(c) == Node(lab \o "|<" \o sib \o ">" \o par, <<c>>)
       IN Node(name, IF p.factor = "left" THEN <<new(kids[1])>> \o Tail(kids)
                     ELSE <<kids[1], new(kids[2])>>)
     ELSE
       LET f0 == IF p.ho /\ hd = 0 THEN Flip(p.factor) ELSE p.factor
           e == IF f0 = "right" THEN MinOf(p.h, n) ELSE n
           s == IF f0 = "right" THEN 0 ELSE MaxOf(n - p.h + MaxOf(hd, 0), 0)
           top == lab \o "|<" \o DirMark(p, f0) \o HeadMark(p, cl, hd)
                  \o (IF p.dot THEN "." ELSE "")
                  \o Join(Kept(Sub0(cl, s, e), p), ",") \o ">" \o par
           ch == Chain(p, lab, par, cl, hd, kids, 1, f0)
       IN Node(name, IF p.lmu THEN <<Node(top, ch)>> ELSE ch)

Binarize(t, p) == Bin(t, p, <<t.l>>, TRUE)

\* forget the head annotation
RECURSIVE Plain(_)
Plain(t) == IF IsTerm(t) THEN t ELSE Node(t.l, [n \in DOMAIN t.k |-> Plain(t.k[n])])
RECURSIVE SameShape(_, _)
SameShape(a, b) == /\ a.i = b.i /\ Len(a.k) = Len(b.k)
                   /\ \A n \in DOMAIN a.k : SameShape(a.k[n], b.k[n])

-----------------------------------------------------------------------------
(* Inverse.  A node whose label contains "|<" is artificial.                *)
FindSub(s, x) == LET m == {n \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, n, n + Len(x) - 1) = x}
                 IN IF m = {} THEN 0 ELSE Min(m)
IsArt(lab) == FindSub(lab, "|<") > 0
StripPar(lab) == LET n == FindSub(lab, "^<") IN IF n = 0 THEN lab ELSE SubSeq(lab, 1, n - 1)
RECURSIVE Unbin(_, _)
Unbin(t, isroot) == IF IsTerm(t) THEN <<t>> ELSE
   LET kids == TLCEval(Cat([n \in DOMAIN t.k |-> Unbin(t.k[n], FALSE)]))
   IN IF IsArt(t.l) /\ ~isroot THEN kids
      ELSE <<Node(StripPar(t.l), kids)>>
Unbinarize(t) == Unbin(t, TRUE)[1]
\* expansion of collapsed unaries: A+B+C dominating x becomes A(B(C(x)))
RECURSIVE Expand(_)
Expand(t) == IF IsTerm(t) THEN t ELSE
   LET n == FindSub(t.l, "+")
       kids == TLCEval([m \in DOMAIN t.k |-> Expand(t.k[m])])
   IN IF n = 0 THEN Node(t.l, kids)
      ELSE Node(SubSeq(t.l, 1, n - 1), <<Expand(Node(SubSeq(t.l, n + 1, Len(t.l)), t.k))>>)
=============================================================================
