------------------------------ MODULE EditDist ------------------------------
(* Edit distance of ordered forests.  A node is [l |-> label, k |-> kids].  *)
(* The three edit operations are defined first; Dist is the usual recursion *)
(* and Table the dynamic program over postorder intervals.                  *)
EXTENDS Trees
N2(lab, kids) == TLCEval([l |-> lab, k |-> kids])
RECURSIVE Size(_)
Size(f) == IF f = <<>> THEN 0 ELSE 1 + Size(f[1].k) + Size(Tail(f))

-----------------------------------------------------------------------------
(* all forests obtained with a single operation                             *)
RECURSIVE Relabelings(_, _), Deletions(_)
Relabelings(f, labs) == UNION {
   {[f EXCEPT ![n].l = x] : x \in labs \ {f[n].l}}
   \cup {[f EXCEPT ![n].k = g] : g \in Relabelings(f[n].k, labs)} : n \in DOMAIN f}
Deletions(f) == UNION {
   {SubSeq(f, 1, n - 1) \o f[n].k \o SubSeq(f, n + 1, Len(f))}
   \cup {[f EXCEPT ![n].k = g] : g \in Deletions(f[n].k)} : n \in DOMAIN f}
\* a new node takes over zero or more consecutive nodes as its children
Inserted(f, labs) == UNION {{SubSeq(f, 1, a - 1) \o <<N2(x, SubSeq(f, a, b))>> \o SubSeq(f, b + 1, Len(f)) :
       x \in labs, b \in (a - 1)..Len(f)} : a \in 1..(Len(f) + 1)}
RECURSIVE AllInserted(_, _)
AllInserted(f, labs) == Inserted(f, labs) \cup UNION {
   {[f EXCEPT ![n].k = g] : g \in AllInserted(f[n].k, labs)} : n \in DOMAIN f}
Edits(f, labs) == Relabelings(f, labs) \cup Deletions(f) \cup AllInserted(f, labs)

-----------------------------------------------------------------------------
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Dist(_, _)
Dist(f, g) == IF f = <<>> THEN Size(g) ELSE IF g = <<>> THEN Size(f) ELSE
  LET v == Last(f) w == Last(g) ff == Front(f) gg == Front(g) IN
   Min2(1 + Dist(ff \o v.k, g), Min2(1 + Dist(f, gg \o w.k),
     Dist(ff, gg) + Dist(v.k, w.k) + (IF v.l = w.l THEN 0 ELSE 1)))

-----------------------------------------------------------------------------
(* postorder: sequence of <<label, number of leftmost descendant>>          *)
RECURSIVE Post(_, _)
Post(t, n) == LET RECURSIVE go(_, _)
                  go(m, acc) == IF m > Len(t.k) THEN acc ELSE go(m + 1, acc \o Post(t.k[m], n + Len(acc)))
                  below == TLCEval(go(1, <<>>))
              IN TLCEval(Append(below, <<t.l, n + 1>>))
\* forest distances of intervals lmd(i)..x and lmd(j)..y, row by row
ForestRow(p, q, i, j, x, prev, td) ==
  LET li == p[i][2] lj == q[j][2]
      RECURSIVE go(_, _)
      \* prev: sequence of rows so far, row r is x = li + r - 2, column c is y = lj + c - 2
      go(y, row) == IF y > j THEN row ELSE
        LET r == x - li + 2 c == y - lj + 2
            up == prev[r - 1][c] + 1 left == row[c - 1] + 1
            diag == IF p[x][2] = li /\ q[y][2] = lj
                    THEN prev[r - 1][c - 1] + (IF p[x][1] = q[y][1] THEN 0 ELSE 1)
                    ELSE prev[p[x][2] - li + 1][q[y][2] - lj + 1] + td[x][y]
        IN go(y + 1, Append(row, Min2(up, Min2(left, diag))))
  IN TLCEval(go(lj, <<x - li + 1>>))
ForestTable(p, q, i, j, td) ==
  LET li == p[i][2] lj == q[j][2]
      RECURSIVE go(_, _)
      go(x, rows) == IF x > i THEN rows ELSE go(x + 1, Append(rows, ForestRow(p, q, i, j, x, rows, td)))
  IN TLCEval(go(li, <<[c \in 1..(j - lj + 2) |-> c - 1]>>))
\* tree distances, node i of the first tree with node j of the second
TreeDist(t, u) ==
  LET p == Post(t, 0) q == Post(u, 0) n == Len(p) m == Len(q)
      RECURSIVE cols(_, _, _), rows(_, _)
      cols(i, j, td) == IF j > m THEN td[i] ELSE
          LET tab == ForestTable(p, q, i, j, td) IN
          cols(i, j + 1, TLCEval([td EXCEPT ![i] = Append(@, Last(Last(tab)))]))
      rows(i, td) == IF i > n THEN td ELSE rows(i + 1, TLCEval(Append(td, cols(i, 1, Append(td, <<>>)))))
  IN rows(1, <<>>)[n][m]

-----------------------------------------------------------------------------
(* a parse tree as a tree to edit: preterminals are numbered, children are  *)
(* in canonical order                                                       *)
RECURSIVE Prep0(_)
Prep0(t) == IF IsPre(t) THEN N2(t.l \o "-" \o ToString(t.k[1].i), <<>>)
            ELSE N2(t.l, [n \in DOMAIN t.k |-> Prep0(t.k[n])])
Prep(t) == Prep0(Canonical(t))
\* an edit script as the sets of deleted and inserted nodes (preorder, from 0) and relabeled pairs
RECURSIVE Pre(_, _, _)
\* preorder: sequence of <<label, last descendant, id>>
Pre(t, n, d) == LET RECURSIVE go(_, _)
                  go(m, acc) == IF m > Len(t.k) THEN acc ELSE go(m + 1, acc \o Pre(t.k[m], n + 1 + Len(acc), d))
                  below == TLCEval(go(1, <<>>))
              IN TLCEval(<<<<t.l, n + Len(below)>>>> \o below)
Anc(p, a, b) == a < b /\ b <= p[a + 1][2]
ScriptOK(t, u, D, I, S) ==
  LET p == Pre(t, 0, 0) q == Pre(u, 0, 0)
      keep(x, gone) == SetToSortSeq((0..(Len(x) - 1)) \ gone, LAMBDA a, b : a < b)
      kp == keep(p, D) kq == keep(q, I)
  IN /\ D \subseteq 0..(Len(p) - 1) /\ I \subseteq 0..(Len(q) - 1)
     /\ Len(kp) = Len(kq)
     /\ \A n \in DOMAIN kp : (p[kp[n] + 1][1] # q[kq[n] + 1][1]) = (<<kp[n], kq[n]>> \in S)
     /\ Cardinality(S) = Cardinality({n \in DOMAIN kp : <<kp[n], kq[n]>> \in S})
     /\ \A a, b \in DOMAIN kp : Anc(p, kp[a], kp[b]) = Anc(q, kq[a], kq[b])
=============================================================================
