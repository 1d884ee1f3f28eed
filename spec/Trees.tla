------------------------------- MODULE Trees -------------------------------
(* Discontinuous trees.  A node is a record                                 *)
(*   [l |-> label, i |-> -1, k |-> <<children>>]   (constituent)            *)
(*   [l |-> "",    i |-> position, k |-> <<>>]     (terminal)               *)
(* Positions are 0, 1, ... in sentence order; the children of a node may    *)
(* dominate interleaved (discontinuous) sets of positions.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

\* TLCEval: force evaluation, TLC's function values are lazy otherwise
Node(lab, kids) == TLCEval([l |-> lab, i |-> -1, k |-> kids])
Term(n) == [l |-> "", i |-> n, k |-> <<>>]
\* concatenation; TLCEval avoids repeated evaluation of lazy elements
Cat(ss) == FlattenSeq(TLCEval(ss))
IsTerm(t) == t.i >= 0
IsPre(t) == t.i < 0 /\ Len(t.k) = 1 /\ t.k[1].i >= 0
Kids(t) == t.k

\* positions dominated by t, as a set and in order of the tree
RECURSIVE Leaves(_)
Leaves(t) == IF IsTerm(t) THEN <<t.i>>
             ELSE Cat([n \in DOMAIN t.k |-> Leaves(t.k[n])])
Yield(t) == ToSet(Leaves(t))
First(t) == Min(Yield(t))

\* all constituents, parents first, left to right
RECURSIVE Nodes(_)
Nodes(t) == IF IsTerm(t) THEN <<>>
            ELSE <<t>> \o Cat([n \in DOMAIN t.k |-> Nodes(t.k[n])])
NodeSet(t) == ToSet(Nodes(t))
Labels(t) == LET ns == Nodes(t) IN [n \in DOMAIN ns |-> ns[n].l]
\* children first
RECURSIVE PostNodes(_)
PostNodes(t) == IF IsTerm(t) THEN <<>>
  ELSE Cat([n \in DOMAIN t.k |-> PostNodes(t.k[n])]) \o <<t>>

\* maximal runs of consecutive positions, and their number
Starts(S) == {x \in S : (x - 1) \notin S}
FanOut(S) == Cardinality(Starts(S))
RunEnd(S, a) == CHOOSE b \in S : b >= a /\ (b + 1) \notin S /\ \A c \in a..b : c \in S
Runs(S) == LET st == SetToSortSeq(Starts(S), LAMBDA x, y : x < y)
           IN [n \in DOMAIN st |-> <<st[n], RunEnd(S, st[n])>>]
Continuous(t) == FanOut(Yield(t)) <= 1
AllContinuous(t) == \A n \in NodeSet(t) : Continuous(n)

\* a proper tree: every node has children, every position occurs once
WellFormed(t) == /\ \A n \in NodeSet(t) : n.k # <<>>
                 /\ IsInjective(Leaves(t))
\* structurally a tree at all: terminals are leaves and nothing else is
RECURSIVE Proper(_)
Proper(t) == IF t.i >= 0 THEN t.k = <<>> /\ t.l = ""
             ELSE t.i = -1 /\ t.k # <<>> /\ \A n \in DOMAIN t.k : Proper(t.k[n])
Covers(t, n) == IsInjective(Leaves(t)) /\ Yield(t) = 0..(n - 1)
                /\ \A x \in NodeSet(t) : x.k # <<>>
\* children ordered by their leftmost terminal, recursively
RECURSIVE Canonical(_)
Canonical(t) == IF IsTerm(t) THEN t
  ELSE TLCEval([t EXCEPT !.k = SortSeq(
            TLCEval([n \in DOMAIN t.k |-> Canonical(t.k[n])]),
            LAMBDA a, b : First(a) < First(b))])
IsCanonical(t) == \A x \in NodeSet(t) :
    \A n \in 1..(Len(x.k) - 1) : First(x.k[n]) < First(x.k[n + 1])
MaxArity(t) == Max({Len(x.k) : x \in NodeSet(t)})
\* labelled yields, a bag rendered as a function label/yield -> count
LabelledYields(t) == LET ns == Nodes(t) IN
   [p \in {<<ns[n].l, Yield(ns[n])>> : n \in DOMAIN ns} |->
      Cardinality({n \in DOMAIN ns : <<ns[n].l, Yield(ns[n])>> = p})]

\* apply f to the label of every constituent
RECURSIVE MapLabels(_, _)
MapLabels(f(_), t) == IF IsTerm(t) THEN t
   ELSE Node(f(t.l), [n \in DOMAIN t.k |-> MapLabels(f, t.k[n])])
\* renumber positions by function g
RECURSIVE Renumber(_, _)
Renumber(g, t) == IF IsTerm(t) THEN [t EXCEPT !.i = g[t.i]]
   ELSE TLCEval([t EXCEPT !.k = [n \in DOMAIN t.k |-> Renumber(g, t.k[n])]])

-----------------------------------------------------------------------------
(* Enumeration of all trees.                                                *)
RECURSIVE SetPartitions(_)
SetPartitions(S) == IF S = {} THEN {{}}
  ELSE LET x == Min(S) IN
    UNION {{{{x} \cup B} \cup p : p \in SetPartitions((S \ {x}) \ B)} :
           B \in SUBSET (S \ {x})}
\* all ways of choosing one tree for each block
RECURSIVE TreeTuples(_)
TreeTuples(seq) == IF seq = <<>> THEN {<<>>}
  ELSE {<<h>> \o r : h \in seq[1], r \in TreeTuples(Tail(seq))}
RECURSIVE TreesOver(_, _, _, _)
\* labs: labels for constituents; un: number of unary nodes allowed on top of
\* each other; disc: allow discontinuous constituents
TreesOver(S, labs, un, disc) ==
  LET base == IF Cardinality(S) = 1
              THEN {Node("p", <<Term(CHOOSE x \in S : TRUE)>>)}
              ELSE UNION {
                LET bs == SetToSortSeq(p, LAMBDA a, b : Min(a) < Min(b))
                IN {Node(lab, c) : lab \in labs, c \in
                    TreeTuples([n \in DOMAIN bs |-> TreesOver(bs[n], labs, un, disc)])} :
                p \in {q \in SetPartitions(S) : Cardinality(q) > 1 /\
                       (disc \/ \A b \in q : FanOut(b) = 1)}}
      RECURSIVE Up(_, _)
      Up(ts, n) == IF n = 0 THEN ts
                   ELSE ts \cup {Node(lab, <<t>>) : lab \in labs, t \in Up(ts, n - 1)}
  IN Up(base, un)
\* with a root label on top
Rooted(ts) == {IF IsPre(t) THEN Node("ROOT", <<t>>) ELSE [t EXCEPT !.l = "ROOT"] : t \in ts}
             \cup {Node("ROOT", <<t>>) : t \in ts}
=============================================================================
