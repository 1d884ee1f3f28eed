---------------------------- MODULE DrawingTrace ----------------------------
EXTENDS Drawing, TraceBase
\* q.t: the tree; q.sent: tokens ("None": no token, shown as "...")
Shown(w) == IF w = "None" THEN "..." ELSE w
\* nodes of the drawing: <<id, parent id, is terminal, label, row, column>>
Ids(o) == [n \in DOMAIN o.nodes |-> o.nodes[n][1]]
Idx(o, id) == CHOOSE n \in DOMAIN o.nodes : o.nodes[n][1] = id
TermRank(o) == LET ts == SetToSortSeq({n \in DOMAIN o.nodes : o.nodes[n][3]}, LAMBDA a, b : o.nodes[a][6] < o.nodes[b][6]) IN
  [n \in DOMAIN o.nodes |-> IF o.nodes[n][3] THEN (CHOOSE m \in DOMAIN ts : ts[m] = n) - 1 ELSE -1]
\* positions are numbered by rank; tokens not dominated by the tree are not drawn
RankOf(t) == LET s == SetToSortSeq(Yield(t), LAMBDA a, b : a < b) IN [y \in Yield(t) |-> (CHOOSE n \in DOMAIN s : s[n] = y) - 1]
Ranked(t) == Canonical(Renumber(TLCEval(RankOf(t)), t))
WordsOf(t, sent) == LET s == SetToSortSeq(Yield(t), LAMBDA a, b : a < b) IN [n \in DOMAIN s |-> Shown(sent[s[n] + 1])]
RECURSIVE Assemble(_, _, _)
Assemble(o, tm, n) == IF tm[n] >= 0 THEN Term(tm[n])
  ELSE LET ks == SetToSortSeq({m \in DOMAIN o.nodes : o.nodes[m][2] = o.nodes[n][1] /\ m # n}, LAMBDA a, b : a < b) IN
       Node(o.nodes[n][4], [m \in DOMAIN ks |-> Assemble(o, tm, ks[m])])
\* identification of a node: terminal, or label, yield and height
RECURSIVE Height(_)
Height(t) == IF IsTerm(t) THEN 1 ELSE 1 + Max({Height(t.k[n]) : n \in DOMAIN t.k})
KeyAt(o, tm, n) == LET t == TLCEval(Assemble(o, tm, n)) IN
  [l |-> t.l, h |-> Height(t), y |-> SetToSortSeq(Yield(t), LAMBDA a, b : a < b)]
Bag(ss) == LET all == Cat([n \in DOMAIN ss |-> [m \in 1..Len(ss[n]) |-> SubSeq(ss[n], m, m)]]) IN
  [c \in ToSet(all) |-> Cardinality({n \in DOMAIN all : all[n] = c})]
ShortLab(s) == IF Len(s) > 5 THEN SubSeq(s, 1, 4) \o "~" ELSE s
BadGrid(q, o) ==
  LET t == TLCEval(IF q.abbr THEN MapLabels(ShortLab, Ranked(q.t)) ELSE Ranked(q.t)) ws == TLCEval(WordsOf(q.t, q.sent))
      tm == TLCEval(TermRank(o))
      par == TLCEval([n \in DOMAIN o.nodes |-> IF o.nodes[n][2] < 0 THEN 0 ELSE Idx(o, o.nodes[n][2])])
      at == TLCEval([n \in DOMAIN o.nodes |-> <<o.nodes[n][5], o.nodes[n][6]>>])
      roots == {n \in DOMAIN par : par[n] = 0}
      b == TLCEval(BadPlacement(par, tm, at))
  IN IF Cardinality(roots) # 1 \/ "above" \in b THEN {"placement", "root"} ELSE
    Clause("placement", b = {})
    \cup Clause("nodes", Canonical(Assemble(o, tm, CHOOSE n \in roots : TRUE)) = t)
    \cup Clause("tokens", \A n \in DOMAIN o.nodes : tm[n] >= 0 => o.nodes[n][4] = ws[tm[n] + 1])
    \* text
    \cup (IF o.text = <<>> THEN {} ELSE
          Clause("picture", LET r == TLCEval(ReadPicture(q.sym, o.text)) IN r.ok /\ r.t = t /\ r.words = ws)
          \cup Clause("loose ends", ~Dangling(q.sym, o.text)))
    \* scalable graphics: labels, then bars, stubs and lines
    \cup (IF o.svg.texts = <<>> THEN {} ELSE
       LET X(n) == 40 * at[n][2] + 20  Y(n) == 25 * at[n][1] + 20
           inner == {n \in DOMAIN par : tm[n] < 0}
           bar(n) == Y(n) + 6
       IN Clause("svg labels", Len(o.svg.texts) = Len(o.nodes) /\
              ToSet(o.svg.texts) = {<<X(n), Y(n), o.nodes[n][4]>> : n \in DOMAIN par})
          \cup Clause("svg lines", ToSet(o.svg.segs) =
               {<<40 * BarMin(par, at, n) + 20, bar(n), 40 * BarMax(par, at, n) + 20, bar(n)>> : n \in inner}
               \cup {<<X(n), bar(n), X(n), bar(n) - 4>> : n \in inner}
               \cup {<<X(m), Y(m) - 12, X(m), bar(par[m])>> : m \in {x \in DOMAIN par : par[x] # 0}}))
    \cup (IF o.tikz = <<>> THEN {} ELSE
       Clause("tikz nodes", Len(o.tikz) = Len(o.nodes) /\ LET bot == Max({at[n][1] : n \in DOMAIN at}) IN
              ToSet(o.tikz) = {<<at[n][2], bot - at[n][1], o.nodes[n][1], o.nodes[n][4]>> : n \in DOMAIN at})
       \cup Clause("tikz edges", Len(o.tikzedges) = Len(o.nodes) - 1 /\ ToSet(o.tikzedges) = {<<o.nodes[par[m]][1], o.nodes[m][1]>> : m \in {x \in DOMAIN par : par[x] # 0}}))
    \cup (IF o.tmat = <<>> THEN {} ELSE
       Clause("tikz matrix", Len(o.tmat) = Len(o.nodes) /\
            ToSet(o.tmat) = {<<at[n][1], at[n][2], o.nodes[n][1], o.nodes[n][4]>> : n \in DOMAIN at})
       \cup Clause("tikz matrix edges", ToSet(o.tmatedges) = {<<o.nodes[par[m]][1], o.nodes[m][1]>> : m \in {x \in DOMAIN par : par[x] # 0}}))
    \cup (IF o.qtree = <<>> THEN {} ELSE
       Clause("qtree", o.qtree[1].t = (IF q.abbr THEN MapLabels(ShortLab, q.t) ELSE q.t) /\ o.qtree[1].words = ws))
    \* the same picture in other notations
    \cup Clause("plain lines", o.ascii = <<>> \/ o.ascii = o.asciiwant)
    \cup Clause("markup", \A n \in DOMAIN o.same : o.same[n] = o.rawtext)
    \* colours: nodes that are highlighted
    \cup (IF o.colors = <<>> THEN {} ELSE
       LET hl(n) == q.hl = <<>> \/ KeyAt(o, tm, n) \in ToSet(q.hl)
           colour(n) == IF tm[n] >= 0 THEN (IF ws[tm[n] + 1] = "..." THEN "none" ELSE "leaf") ELSE "node"
       IN Clause("highlighting", o.colors = LET ns == SetToSortSeq(DOMAIN at, LAMBDA a, c : at[a][1] < at[c][1] \/ (at[a][1] = at[c][1] /\ at[a][2] < at[c][2]))
                  IN [m \in DOMAIN ns |-> <<o.nodes[ns[m]][4], IF hl(ns[m]) THEN colour(ns[m]) ELSE "none">>]))
    \cup (IF o.wrap = <<>> THEN {} ELSE
          Clause("wrapped labels", Bag(SelectSeq(Cat([n \in DOMAIN o.wrap |-> [m \in 1..Len(o.wrap[n]) |-> SubSeq(o.wrap[n], m, m)]]),
                                   LAMBDA c : c # " " /\ ~IsSym(q.sym, c))) = Bag([n \in DOMAIN o.nodes |-> o.nodes[n][4]])))
    \cup (IF o.wrap = <<>> THEN {} ELSE
          Clause("wrapped picture", LET r == TLCEval(ReadPicture(q.sym, o.wrap)) IN r.ok /\ r.t = t /\ r.words = ws)
          \cup Clause("wrapped loose ends", ~Dangling(q.sym, o.wrap)))
    \cup Clause("argument unchanged", o.unchanged)
\* dependency drawings
BadDep(q, o) == LET n == Len(q.words) IN
   Clause("words", o.words = <<"ROOT">> \o q.words)
   \cup Clause("tags", o.tags = q.tags)
   \cup Clause("words in order", \A m \in 1..n : o.x[m] < o.x[m + 1])
   \cup Clause("arcs", Len(o.arcs) = n /\ \A m \in 1..n : \E k \in DOMAIN o.arcs : o.arcs[k].head = q.heads[m] /\ o.arcs[k].dep = m /\ o.arcs[k].label = q.rels[m])
   \* an arc that encloses another is drawn above it
   \cup Clause("nesting", \A a, b \in DOMAIN o.arcs : LET A == {o.arcs[a].head, o.arcs[a].dep} B == {o.arcs[b].head, o.arcs[b].dep} IN
          A # B /\ Min(A) <= Min(B) /\ Max(B) <= Max(A) => o.arcs[a].top < o.arcs[b].top)
   \cup Clause("ends", \A a \in DOMAIN o.arcs : o.x[o.arcs[a].head + 1] <= o.arcs[a].x1 /\ o.arcs[a].x1 <= o.x[o.arcs[a].head + 1] + 20
          /\ o.x[o.arcs[a].dep + 1] - 2 <= o.arcs[a].x2 /\ o.arcs[a].x2 <= o.x[o.arcs[a].dep + 1] + 2)
BadFrontier(q, o) == Clause("frontier", o.toks = LET s == SetToSortSeq(Yield(q.t), LAMBDA a, b : a < b) IN
   [n \in DOMAIN s |-> LET p == CHOOSE y \in NodeSet(q.t) : IsPre(y) /\ y.k[1].i = s[n] IN
        IF q.sent[s[n] + 1] = "None" THEN <<"node", p.l>> ELSE <<"leaf", q.sent[s[n] + 1]>>])
\* secondary edges are shown in labels: A[REL:n,REL:m] refers to nodes marked
\* B=n and C=m; edges to nodes that are missing are not shown
BadSec(q, o) ==
  LET ns == Nodes(q.t)
      target(e) == {n \in DOMAIN ns : n > 1 /\ ~IsPre(ns[n]) /\ q.ids[n] = e[3]}
      shown == SelectSeq(q.sec, LAMBDA e : target(e) # {})
      refs(n) == SelectSeq(shown, LAMBDA e : e[1] = n)
      mark(n) == IF \E m \in DOMAIN shown : n \in target(shown[m]) THEN "=" \o ToString(q.ids[n] - 500) ELSE ""
      list(es) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", [m \in DOMAIN es |-> es[m][2] \o ":" \o ToString(es[m][3] - 500)])
      label(n) == ns[n].l \o mark(n) \o (IF refs(n) = <<>> THEN "" ELSE "[" \o list(refs(n)) \o "]")
      want == {<<ns[n].l, label(n)>> : n \in DOMAIN ns}
  IN Clause("secondary edges", ToSet(o.labs) = want /\ Len(o.labs) = Len(ns))
     \cup Clause("no secondary edges", ToSet(o.plain) = {<<ns[n].l, ns[n].l>> : n \in DOMAIN ns})
     \cup Clause("labels in drawing", ToSet(o.shown) = {x[2] : x \in want})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE LET q == r.inp o == r.out IN
  CASE q.op = "grid" -> BadGrid(q, o) [] q.op = "dep" -> BadDep(q, o) [] q.op = "frontier" -> BadFrontier(q, o)
    [] q.op = "sec" -> BadSec(q, o)
    [] q.op = "cli" -> Clause("output", o.got = o.want)
TCheck == Report(Bad(Rec))
=============================================================================
