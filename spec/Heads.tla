------------------------------- MODULE Heads -------------------------------
(* Head assignment and the dependencies derived from it.                    *)
(* Constituents have extra fields:                                          *)
(*   u   the label in upper case           b   idem, up to the first '['    *)
(*   m   idem, up to the first '-'         fs  upper case function tags     *)
(*   h   marked as head beforehand         f   function tag as is, or ""    *)
(* Rule lines are <<label, direction, heads>>.                              *)
EXTENDS Trees

Dirs == {"LEFT", "RIGHT", "LEFT-TO-RIGHT", "RIGHT-TO-LEFT", "LEFTDIS", "RIGHTDIS"}
FromLeft(d) == d \in {"LEFT", "LEFT-TO-RIGHT", "LEFTDIS"}
PunctTags == {",", "$.", "$(", "PUNCT", "-LRB-", "PONCT", "$,", "LET()"}
\* rules of a label, in order; LIKE copies the rules given so far
RECURSIVE RulesFor(_, _)
RulesFor(lab, lines) == IF lines = <<>> THEN <<>> ELSE
  LET x == lines[Len(lines)] rest == SubSeq(lines, 1, Len(lines) - 1) IN
   IF x[1] # lab THEN RulesFor(lab, rest)
   ELSE RulesFor(lab, rest) \o (IF x[2] = "LIKE" THEN RulesFor(x[3][1], rest) ELSE <<<<x[2], x[3]>>>>)

FirstIdx(s, P(_)) == IF \E n \in DOMAIN s : P(s[n]) THEN Min({n \in DOMAIN s : P(s[n])}) ELSE 0
\* indices of children in search direction
Order(d, n) == IF FromLeft(d) THEN [m \in 1..n |-> m] ELSE [m \in 1..n |-> n + 1 - m]
\* 0 if nothing matches
Match(rule, t) == LET ord == TLCEval(Order(rule[1], Len(t.k))) heads == rule[2] IN
  IF rule[1] \in {"LEFTDIS", "RIGHTDIS"}
  THEN LET p == FirstIdx(ord, LAMBDA c : t.k[c].b \in ToSet(heads)) IN IF p = 0 THEN 0 ELSE ord[p]
  ELSE LET h == FirstIdx(heads, LAMBDA lab : \E c \in DOMAIN t.k : t.k[c].b = lab) IN
       IF h = 0 THEN 0 ELSE ord[FirstIdx(ord, LAMBDA c : t.k[c].b = heads[h])]
IsPunctNode(x) == x.l \in PunctTags
Default(d, t) == LET ord == TLCEval(Order(d, Len(t.k))) p == FirstIdx(ord, LAMBDA c : ~IsPunctNode(t.k[c])) IN
   IF p = 0 THEN ord[1] ELSE ord[p]
\* the conjunct before a conjunction is preferred
Coord(t, c) == IF c >= 3 /\ t.k[c - 1].l \in {"CC", "CONJP"}
  THEN LET cand == {m \in 1..(c - 2) : ~IsPunctNode(t.k[m])} IN IF cand = {} THEN c ELSE Max(cand)
  ELSE c
\* index of the head child of constituent t (not a preterminal)
HeadIdx(t, lines) ==
  IF \E c \in DOMAIN t.k : t.k[c].h THEN Min({c \in DOMAIN t.k : t.k[c].h})
  ELSE IF \E c \in DOMAIN t.k : "HD" \in ToSet(t.k[c].fs) THEN Min({c \in DOMAIN t.k : "HD" \in ToSet(t.k[c].fs)})
  ELSE LET rules == RulesFor(t.u, lines) r == FirstIdx(rules, LAMBDA x : Match(x, t) # 0) IN
   IF r # 0 THEN Coord(t, Match(rules[r], t))
   ELSE Default(IF rules = <<>> THEN "LEFT" ELSE rules[Len(rules)][1], t)

\* mods: function from (upper case) labels to sequences of <<label, function>>
ModRules(t, mods) == (IF t.m \in DOMAIN mods THEN mods[t.m] ELSE <<>>)
                     \o (IF "*" \in DOMAIN mods THEN mods["*"] ELSE <<>>)
RuleMatches(x, c) == x[1] \in {"*", c.m} /\ (x[2] \in {"", "*"} \/ x[2] = (IF c.fs = <<>> THEN "" ELSE c.fs[1]))
ChildType(t, hd, c, mods) == IF c = hd THEN "H"
  ELSE IF mods = <<>> THEN ""
  ELSE LET rs == ModRules(t, mods) others == {m \in 1..(c - 1) : m # hd} IN
   IF \E n \in DOMAIN rs : RuleMatches(rs[n], t.k[c]) THEN "M"
   ELSE IF others # {} /\ t.k[Max(others)].l = t.k[c].l THEN "M" ELSE "C"

\* a tree with g = index of head child for every constituent
RECURSIVE Mark(_, _, _, _)
Mark(t, lines, mods, ty) == IF IsTerm(t) THEN t
  ELSE IF IsPre(t) THEN [l |-> t.l, i |-> -1, k |-> t.k, g |-> 0, ty |-> ty, f |-> t.f]
  ELSE LET hd == TLCEval(HeadIdx(t, lines)) IN
   TLCEval([l |-> t.l, i |-> -1, g |-> hd, ty |-> ty, f |-> t.f,
     k |-> [c \in DOMAIN t.k |-> Mark(t.k[c], lines, mods, ChildType(t, hd, c, mods))]])
RECURSIVE LexHead(_)
LexHead(t) == IF IsPre(t) THEN t.k[1].i ELSE LexHead(t.k[t.g])
Func(t) == IF t.f \in {"", "--"} THEN "-" ELSE t.f
\* arcs <<dependent, label, head>>, tokens counted from 1, 0 is the root
RECURSIVE Arcs(_)
Arcs(t) == IF IsPre(t) THEN {}
  ELSE UNION {Arcs(t.k[c]) : c \in DOMAIN t.k}
       \cup {<<LexHead(t.k[c]) + 1, Func(t.k[c]), LexHead(t) + 1>> : c \in DOMAIN t.k \ {t.g}}
Deps(root) == UNION {Arcs(root.k[c]) : c \in DOMAIN root.k}
              \cup {<<LexHead(root.k[c]) + 1, "root", 0>> : c \in DOMAIN root.k}

-----------------------------------------------------------------------------
(* what makes a set of arcs a tree over tokens 1..n with root 0             *)
HeadOf(arcs, d) == (CHOOSE a \in arcs : a[1] = d)[3]
RECURSIVE Reaches(_, _, _)
Reaches(arcs, d, fuel) == d = 0 \/ (fuel > 0 /\ Reaches(arcs, HeadOf(arcs, d), fuel - 1))
IsDepTree(arcs, n) == /\ Cardinality(arcs) = n /\ {a[1] : a \in arcs} = 1..n
                      /\ \A a \in arcs : a[3] \in 0..n
                      /\ \A d \in 1..n : Reaches(arcs, d, n + 1)
\* constituent x (below the root): exactly one of its tokens has its head outside
Agree(arcs, x) == LET Y == {p + 1 : p \in Yield(x)} IN
   Cardinality({a \in arcs : a[1] \in Y /\ a[3] \notin Y}) = 1
=============================================================================
