------------------------------ MODULE Drawing ------------------------------
(* Drawings of trees.  A placement assigns to each constituent and terminal *)
(* a cell <<row, column>> of a grid; every constituent has a horizontal bar *)
(* below it spanning the columns of its children, and every child is        *)
(* connected by a vertical line in its own column to the bar of its parent. *)
(* A picture is a sequence of lines of text.                                *)
EXTENDS Trees
(* Placement: nodes are numbered; par[n] = 0 for the root, tm[n] is the     *)
(* position of a terminal or -1; at[n] = <<row, column>>.                   *)
KidsOf(par, n) == {m \in DOMAIN par : par[m] = n}
BarMin(par, at, n) == Min({at[m][2] : m \in KidsOf(par, n)})
BarMax(par, at, n) == Max({at[m][2] : m \in KidsOf(par, n)})
ValidPlacement(par, tm, at) ==
  LET N == DOMAIN par
      inner == {n \in N : tm[n] < 0}
      bottom == Max({at[n][1] : n \in N})
      lo == TLCEval([n \in inner |-> BarMin(par, at, n)]) hi == TLCEval([n \in inner |-> BarMax(par, at, n)])
  IN [cells    |-> \A n, m \in N : n # m => at[n] # at[m],
      bottom   |-> \A n \in N : (tm[n] >= 0) <=> at[n][1] = bottom,
      order    |-> \A n, m \in N : tm[n] >= 0 /\ tm[m] > tm[n] => at[n][2] < at[m][2],
      above    |-> \A n \in N : par[n] # 0 => at[par[n]][1] < at[n][1],
      span     |-> \A n \in inner : lo[n] <= at[n][2] /\ at[n][2] <= hi[n],
      \* bars of different constituents in the same row are disjoint
      bars     |-> \A n, m \in inner : n # m /\ at[n][1] = at[m][1] /\ lo[n] < hi[n] /\ lo[m] < hi[m] => hi[n] < lo[m] \/ hi[m] < lo[n],
      \* the line up to the parent meets no node, and no other line
      verticals |-> \A n, m \in N : n # m /\ par[n] # 0 /\ at[n][2] = at[m][2] =>
                     /\ ~(at[par[n]][1] < at[m][1] /\ at[m][1] < at[n][1])
                     \* several lines in a column do not overlap
                     /\ (par[m] # 0 => at[n][1] <= at[par[m]][1] \/ at[m][1] <= at[par[n]][1])]
BadPlacement(par, tm, at) == LET v == ValidPlacement(par, tm, at) IN {f \in DOMAIN v : ~v[f]}

-----------------------------------------------------------------------------
(* Reading a picture.  Y: symbols <<horizontal, left corner, right corner,  *)
(* vertical, tee, up, cross>>.                                              *)
Chr_(s, x) == IF x < 1 \/ x > Len(s) THEN " " ELSE SubSeq(s, x, x)
IsSym(Y, c) == \E n \in DOMAIN Y : Y[n] = c
\* runs of label characters on line y: <<y, from, to>>
RECURSIVE RunsFrom(_, _, _, _)
RunsFrom(Y, s, y, x) == IF x > Len(s) THEN <<>>
  ELSE LET c == Chr_(s, x) IN
   IF c = " " \/ IsSym(Y, c) THEN RunsFrom(Y, s, y, x + 1)
   ELSE LET RECURSIVE E(_)
            E(z) == IF z > Len(s) THEN z ELSE LET d == Chr_(s, z) IN IF d = " " \/ IsSym(Y, d) THEN z ELSE E(z + 1)
            e == E(x)
        IN <<<<y, x, e - 1>>>> \o RunsFrom(Y, s, y, e)
AllRuns(Y, L) == Cat([y \in DOMAIN L |-> RunsFrom(Y, L[y], y, 1)])
RunAt(rs, y, x) == LET c == {n \in DOMAIN rs : rs[n][1] = y /\ rs[n][2] <= x /\ x <= rs[n][3]} IN
  IF c = {} THEN 0 ELSE CHOOSE n \in c : TRUE
\* a label on several lines: the runs are in the same columns, with no
\* connection between them
Over(rs, n) == LET c == {m \in DOMAIN rs : rs[m][1] = rs[n][1] - 1 /\ rs[m][2] <= rs[n][3] /\ rs[n][2] <= rs[m][3]} IN
  IF c = {} THEN 0 ELSE CHOOSE m \in c : TRUE
RECURSIVE HeadRun(_, _)
HeadRun(rs, n) == LET m == Over(rs, n) IN IF m = 0 THEN n ELSE HeadRun(rs, m)
RECURSIVE StackText(_, _, _)
StackText(L, rs, n) == SubSeq(L[rs[n][1]], rs[n][2], rs[n][3]) \o
  LET c == {m \in DOMAIN rs : Over(rs, m) = n} IN IF c = {} THEN "" ELSE StackText(L, rs, CHOOSE m \in c : TRUE)
\* columns of vertical connections in an interval
Conn(Y, s, a, b) == {x \in a..b : Chr_(s, x) \in {Y[2], Y[3], Y[4], Y[5], Y[6], Y[7]}}
RECURSIVE LeftEnd(_, _, _)
LeftEnd(Y, s, x) == IF x < 1 \/ Chr_(s, x) = Y[3] THEN 0 ELSE IF Chr_(s, x) = Y[2] THEN x ELSE LeftEnd(Y, s, x - 1)
RECURSIVE RightEnd(_, _, _)
RightEnd(Y, s, x) == IF x > Len(s) \/ Chr_(s, x) = Y[2] THEN 0 ELSE IF Chr_(s, x) = Y[3] THEN x ELSE RightEnd(Y, s, x + 1)
Bar(Y, s, x) == LET c == Chr_(s, x) IN
  <<IF c = Y[2] THEN x ELSE LeftEnd(Y, s, x - 1), IF c = Y[3] THEN x ELSE RightEnd(Y, s, x + 1)>>
\* the label above a bar; labels that are shorter than others in the row
\* have a line below them
RECURSIVE Above(_, _, _, _, _)
Above(Y, L, rs, y, x) == IF y < 1 THEN 0
  ELSE LET r == RunAt(rs, y, x) IN IF r # 0 THEN r ELSE IF Chr_(L[y], x) = Y[4] THEN Above(Y, L, rs, y - 1, x) ELSE 0
\* follow a line up from (y, x): the run it ends in, 0 if none, -1 if wrong
RECURSIVE Up(_, _, _, _, _)
Up(Y, L, rs, y, x) == IF y < 1 THEN -1
  ELSE LET c == Chr_(L[y], x) IN
   IF c = Y[4] THEN Up(Y, L, rs, y - 1, x)
   ELSE IF c \in {Y[2], Y[3], Y[5], Y[7]} THEN
     LET b == Bar(Y, L[y], x) IN
     IF b[1] = 0 \/ b[2] = 0 \/ b[1] >= b[2] THEN -1
     ELSE LET j == {z \in b[1]..b[2] : Chr_(L[y], z) \in {Y[6], Y[7]}} \cup {z \in {b[1], b[2]} : Above(Y, L, rs, y - 1, z) # 0} IN
       IF Cardinality(j) # 1 THEN -1
       ELSE LET r == Above(Y, L, rs, y - 1, CHOOSE z \in j : TRUE) IN IF r = 0 THEN -1 ELSE r
   ELSE LET r == RunAt(rs, y, x) IN IF r = 0 THEN -1 ELSE r
ParentRun(Y, L, rs, n) == LET r == rs[n] IN
  IF r[1] = 1 THEN 0
  ELSE LET c == Conn(Y, L[r[1] - 1], r[2], r[3]) IN
   IF c = {} THEN 0 ELSE IF Cardinality(c) > 1 THEN -1 ELSE Up(Y, L, rs, r[1] - 1, CHOOSE x \in c : TRUE)
RunText(L, r) == SubSeq(L[r[1]], r[2], r[3])
\* the tree in a picture, or NoPicture
NoPicture == [ok |-> FALSE]
ReadPicture(Y, L) ==
  LET rs == TLCEval(AllRuns(Y, L))
      hd == TLCEval([n \in DOMAIN rs |-> HeadRun(rs, n)])
      heads == {n \in DOMAIN rs : hd[n] = n}
      par == TLCEval([n \in heads |-> LET p == ParentRun(Y, L, rs, n) IN IF p > 0 THEN hd[p] ELSE p])
      bot == Max({rs[n][1] : n \in heads})
      roots == {n \in heads : par[n] = 0}
      terms == SetToSortSeq({n \in heads : rs[n][1] = bot}, LAMBDA a, b : a < b)
      RECURSIVE Build(_)
      Build(n) == IF rs[n][1] = bot THEN Term((CHOOSE m \in DOMAIN terms : terms[m] = n) - 1)
        ELSE LET ks == SetToSortSeq({m \in heads : par[m] = n}, LAMBDA a, b : a < b) IN
             Node(StackText(L, rs, n), [m \in DOMAIN ks |-> Build(ks[m])])
  IN IF rs = <<>> \/ Cardinality(roots) # 1 \/ (\E n \in DOMAIN par : par[n] < 0 \/ (par[n] > 0 /\ rs[par[n]][1] >= rs[n][1]))
        \/ (\E n \in heads : rs[n][1] # bot /\ ~\E m \in DOMAIN par : par[m] = n)
     THEN NoPicture
     ELSE [ok |-> TRUE, t |-> Canonical(Build(CHOOSE n \in roots : TRUE)),
           words |-> TLCEval([m \in DOMAIN terms |-> StackText(L, rs, terms[m])])]
\* does the picture contain bars and lines that belong to nothing?
Dangling(Y, L) == LET rs == TLCEval(AllRuns(Y, L)) IN
  \E y \in DOMAIN L : \E x \in 1..Len(L[y]) : LET c == Chr_(L[y], x) IN
    \/ c \in {Y[2], Y[3], Y[5]} /\ ((y = Len(L)) \/ (Chr_(L[y + 1], x) # Y[4] /\ RunAt(rs, y + 1, x) = 0))
    \/ c \in {Y[6]} /\ Above(Y, L, rs, y - 1, x) = 0
    \/ c = Y[4] /\ (y = Len(L) \/ y = 1 \/ ~(Chr_(L[y + 1], x) \in {Y[2], Y[3], Y[4], Y[5], Y[6], Y[7]} \/ RunAt(rs, y + 1, x) # 0))
-----------------------------------------------------------------------------
(* Rendering a placement with labels and widths of columns.                 *)
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
RECURSIVE CatStr(_, _)
CatStr(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o CatStr(Tail(ss), sep)
Mid(w) == (w + 1) \div 2   \* the column of vertical lines in a cell of width w
Center(s, w) == LET p == w - Len(s) l == IF p % 2 = 1 /\ w % 2 = 1 THEN p \div 2 + 1 ELSE p \div 2 IN Rep(" ", l) \o s \o Rep(" ", p - l)
\* lines from top to bottom; cells are separated by one column
Render(Y, par, tm, at, lab) ==
  LET N == DOMAIN par
      rows == Max({at[n][1] : n \in N}) cols == Max({at[n][2] : n \in N})
      wd(c) == Max({3} \cup {Len(lab[n]) : n \in {m \in N : at[m][2] = c}})
      W == TLCEval([c \in 0..cols |-> wd(c)])
      inner == {n \in N : tm[n] < 0}
      who(r, c) == {n \in N : at[n] = <<r, c>>}
      passes(r, c) == \E n \in N : par[n] # 0 /\ at[n][2] = c /\ at[par[n]][1] < r /\ r < at[n][1]
      nodecell(r, c) == IF who(r, c) # {} THEN Center(lab[CHOOSE n \in who(r, c) : TRUE], W[c])
                        ELSE IF passes(r, c) THEN Rep(" ", Mid(W[c]) - 1) \o Y[4] \o Rep(" ", W[c] - Mid(W[c]))
                        ELSE Rep(" ", W[c])
      bar(r, c) == {n \in inner : at[n][1] = r /\ BarMin(par, at, n) < BarMax(par, at, n) /\ BarMin(par, at, n) <= c /\ c <= BarMax(par, at, n)}
      barcell(r, c) ==  \* with the separator to its right
        LET b == bar(r, c) m == Mid(W[c]) IN
        IF b # {} THEN LET n == CHOOSE y \in b : TRUE kid == \E y \in KidsOf(par, n) : at[y][2] = c
                           lo == BarMin(par, at, n) hi == BarMax(par, at, n) IN
           IF passes(r, c) \/ (\E y \in inner : y # n /\ at[y] = <<r, c>>) THEN LET h == IF c < hi THEN Y[1] ELSE " " IN Rep(Y[1], m - 2) \o " " \o Y[4] \o " " \o Rep(Y[1], W[c] - m - 1) \o (IF W[c] - m - 1 > 0 THEN h ELSE Y[1])
           ELSE IF c = lo THEN Rep(" ", m - 1) \o Y[2] \o Rep(Y[1], W[c] - m + 1)
           ELSE IF c = hi THEN Rep(Y[1], m - 1) \o Y[3] \o Rep(" ", W[c] - m + 1)
           ELSE Rep(Y[1], m - 1) \o (IF at[n][2] = c THEN (IF kid THEN Y[7] ELSE Y[6]) ELSE IF kid THEN Y[5] ELSE Y[1]) \o Rep(Y[1], W[c] - m + 1)
        ELSE IF passes(r, c) \/ (\E n \in inner : at[n] = <<r, c>>) THEN Rep(" ", m - 1) \o Y[4] \o Rep(" ", W[c] - m + 1)
        ELSE Rep(" ", W[c] + 1)
      line(r) == <<CatStr(TLCEval([c \in 1..(cols + 1) |-> nodecell(r, c - 1)]), " ")>>
                 \o (IF r = rows THEN <<>> ELSE <<CatStr(TLCEval([c \in 1..(cols + 1) |-> barcell(r, c - 1)]), "")>>)
  IN Cat([r \in 1..(rows + 1) |-> line(r - 1)])
\* nodes of a tree numbered in preorder: [par, tm, lab]
RECURSIVE Number(_, _, _, _)
Number(t, p, sent, acc) == LET me == Len(acc) + 1
     a == TLCEval(Append(acc, [par |-> p, tm |-> t.i, lab |-> IF IsTerm(t) THEN sent[t.i + 1] ELSE t.l]))
     RECURSIVE Go(_, _)
     Go(ks, b) == IF ks = <<>> THEN b ELSE Go(Tail(ks), Number(ks[1], me, sent, b))
  IN Go(t.k, a)
=============================================================================
