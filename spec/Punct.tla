------------------------------- MODULE Punct -------------------------------
(* Strategies for attaching punctuation.  A sentence is a sequence of words *)
(* (1-based; terminal n has word sent[n + 1]).  "<<" and ">>" stand for the *)
(* guillemets.                                                              *)
EXTENDS Trees
PunctTags == {".", ",", ":", "'", "''", "`", "``", "\"", "-LRB-", "-RRB-",
  "-LSB-", "-RSB-", "-LCB-", "-RCB-", "$,", "$.", "$[", "$(", "let", "LET[]",
  "SPEC[symb]", "TW[hoofd,vrij]", "PONCT", "PUNCT", "COMMA", "PAREN"}
PunctWords == {".", ",", "(", ")", ":", "-", "\"", ";", "?", "/", "!", "*",
  "&", "`", "[", "]", "<", ">", "{", "}", "|", "=", "\\", "<<", ">>",
  "&bullet;", "..", "...", "....", ".....", "......", "!!", "!!!", "??", "???",
  "''", "``", ",,", "--", "---", "----", "-LRB-", "-RRB-", "-LCB-", "-RCB-",
  "-LSB-", "-RSB-", "#LRB#", "#RRB#"}
Prunable == {"``", "''", "\"", "."}
Opening == {"\"", "'", "``", "[", "(", "-LRB-", "-LSB-", "-", "<<"}
Closing(w) == CASE w = "``" -> "''" [] w = "[" -> "]" [] w = "(" -> ")"
  [] w = "-LRB-" -> "-RRB-" [] w = "-LSB-" -> "-RSB-" [] w = "<<" -> ">>" [] OTHER -> w
IsPunct(word, tag) == tag \in PunctTags \/ word \in PunctWords

\* preterminals in order of the tree, and paths
RECURSIVE Pres(_)
Pres(t) == IF IsTerm(t) THEN <<>> ELSE IF IsPre(t) THEN <<t>>
           ELSE Cat([n \in DOMAIN t.k |-> Pres(t.k[n])])
Pos1(t) == t.k[1].i           \* terminal of a preterminal
RECURSIVE PathTo(_, _)
PathTo(t, i) == \* path (1-based) of the preterminal with terminal i
  IF IsPre(t) THEN <<>>
  ELSE LET n == CHOOSE m \in DOMAIN t.k : i \in Yield(t.k[m])
       IN <<n>> \o PathTo(t.k[n], i)
RECURSIVE NodeAt(_, _)
NodeAt(t, p) == IF p = <<>> THEN t ELSE NodeAt(t.k[p[1]], Tail(p))
Up1(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE Subst(_, _, _)
Subst(t, p, x) == IF p = <<>> THEN x
  ELSE TLCEval([t EXCEPT !.k[p[1]] = Subst(t.k[p[1]], Tail(p), x)])
\* remove the terminals in S, and any constituents that become empty except
\* the root
RECURSIVE Without(_, _)
Without(t, S) == IF IsTerm(t) THEN t ELSE
  TLCEval([t EXCEPT !.k = SelectSeq(TLCEval([n \in DOMAIN t.k |-> Without(t.k[n], S)]),
     LAMBDA c : IF IsTerm(c) THEN c.i \notin S ELSE c.k # <<>>)])
AddLast(t, p, x) == Subst(t, p, Node(NodeAt(t, p).l, Append(NodeAt(t, p).k, x)))
AddFirst(t, p, x) == Subst(t, p, Node(NodeAt(t, p).l, <<x>> \o NodeAt(t, p).k))
AddAt(t, p, n, x) == Subst(t, p, Node(NodeAt(t, p).l,
   SubSeq(NodeAt(t, p).k, 1, n) \o <<x>> \o SubSeq(NodeAt(t, p).k, n + 1, Len(NodeAt(t, p).k))))
PunctOf(t, sent) == {Pos1(x) : x \in {y \in ToSet(Pres(t)) : IsPunct(sent[Pos1(y) + 1], y.l)}}
PreAt(t, i) == NodeAt(t, PathTo(t, i))

\* consecutive renumbering after deletion of the terminals S
Drop(t, sent, S) ==
  LET keep == SetToSortSeq(Yield(t) \ S, LAMBDA a, b : a < b)
      new == TLCEval([a \in Yield(t) \ S |-> (CHOOSE n \in DOMAIN keep : keep[n] = a) - 1])
  IN [t |-> Renumber(new, Without(t, S)), sent |-> [n \in DOMAIN keep |-> sent[keep[n] + 1]]]
RootPres(t) == {Pos1(x) : x \in {y \in ToSet(t.k) : IsPre(y)}}
Leading(sent) == {n \in DOMAIN sent : \A m \in 1..n : sent[m] \in Prunable}
Trailing(sent) == {n \in DOMAIN sent : \A m \in n..Len(sent) : sent[m] \in Prunable}
Prune(t, sent) == Drop(t, sent, {n - 1 : n \in Leading(sent) \cup Trailing(sent)})

Reversed(s) == [n \in DOMAIN s |-> s[Len(s) + 1 - n]]
ToRoot(t, sent) ==
  LET ps == SelectSeq(Reversed(Pres(t)), LAMBDA x : IsPunct(sent[Pos1(x) + 1], x.l))
  IN Node(t.l, Without(t, PunctOf(t, sent)).k \o ps)

\* nodes with constituents as children, as paths, parents first
RECURSIVE Phrases(_)
Phrases(t) == IF IsTerm(t) \/ IsPre(t) THEN <<>>
  ELSE <<<<>>>> \o Cat([n \in DOMAIN t.k |-> LET ps == Phrases(t.k[n]) IN
                        [m \in DOMAIN ps |-> <<n>> \o ps[m]]])
\* attach x to the highest constituent with a child that starts right after x
Raise1(t, x) == LET ps == Phrases(t)
      ok == {m \in DOMAIN ps : \E c \in ToSet(NodeAt(t, ps[m]).k) : First(c) = Pos1(x) + 1}
  IN AddLast(t, IF ok = {} THEN <<>> ELSE ps[Min(ok)], x)
RECURSIVE RaiseAll(_, _)
RaiseAll(t, todo) == IF todo = <<>> THEN t
  ELSE IF Len(t.k) = 1 THEN RaiseAll(t, Tail(todo))
  ELSE LET x == todo[1]
           t1 == Node(t.l, SelectSeq(t.k, LAMBDA c : c # x))
       IN RaiseAll(TLCEval(Raise1(t1, x)), Tail(todo))
Raised(t, sent, all) == RaiseAll(t, Reversed(SelectSeq(t.k, LAMBDA x : IsPre(x)
       /\ (all \/ IsPunct(sent[Pos1(x) + 1], x.l)))))

\* bring partners together: left to right, open maps words to positions
RECURSIVE Balance(_, _, _, _)
Balance(t, sent, todo, open) == IF todo = <<>> THEN t ELSE
  LET r == todo[1] w == sent[r + 1] x == PreAt(t, r) tag == x.l \in PunctTags
      rest == Tail(todo)
  IN IF tag /\ w \in DOMAIN open THEN
       LET lft == open[w]
           lp == NodeAt(t, Up1(PathTo(t, lft)))
           rp == NodeAt(t, Up1(PathTo(t, r)))
           closed == [v \in DOMAIN open \ {w} |-> open[v]]
       IN IF Max(Yield(lp)) = r - 1 THEN
            LET t1 == TLCEval(Without(t, {r})) IN
            Balance(TLCEval(AddLast(t1, Up1(PathTo(t1, lft)), x)), sent, rest, closed)
          ELSE IF Min(Yield(rp)) = lft + 1 THEN
            LET y == PreAt(t, lft) t1 == TLCEval(Without(t, {lft})) IN
            Balance(TLCEval(AddFirst(t1, Up1(PathTo(t1, r)), y)), sent, rest, closed)
          ELSE Balance(t, sent, rest, closed)
     ELSE IF tag /\ w \in Opening THEN
       Balance(t, sent, rest, (Closing(w) :> r) @@ open)
     ELSE Balance(t, sent, rest, open)
Balanced(t, sent) == Balance(t, sent, SetToSortSeq(PunctOf(t, sent), LAMBDA a, b : a < b), <<>>)

\* lowering: into the constituent that surrounds the punctuation
RECURSIVE Lower1(_, _, _)
Lower1(t, p, x) ==
  LET c == NodeAt(t, p)
      ord == SetToSortSeq(DOMAIN c.k, LAMBDA a, b : Leaves(c.k[a])[1] < Leaves(c.k[b])[1])
      phr == {n \in DOMAIN ord : ~IsPre(c.k[ord[n]]) /\ ~IsTerm(c.k[ord[n]])
               /\ Pos1(x) < Max(Yield(c.k[ord[n]]))}
  IN IF phr = {} THEN AddLast(t, p, x)
     ELSE LET n == Min(phr) IN
       IF Pos1(x) < First(c.k[ord[n]]) THEN AddAt(t, p, n, x)
       ELSE Lower1(t, p \o <<ord[n]>>, x)
RECURSIVE LowerAll(_, _)
LowerAll(t, todo) == IF todo = <<>> THEN t
  ELSE LowerAll(TLCEval(Lower1(t, <<>>, todo[1])), Tail(todo))
Lowered(t, sent) ==
  LowerAll(Without(t, PunctOf(t, sent)),
           SelectSeq(Pres(t), LAMBDA x : IsPunct(sent[Pos1(x) + 1], x.l)))

Move(t, sent, all) == Canonical(Balanced(Raised(t, sent, all), sent))
Apply(method, t, sent) ==
  CASE method = "remove" -> Drop(t, sent, PunctOf(t, sent))
    [] method = "removeall" -> Drop(t, sent, RootPres(t))
    [] method = "prune" -> LET p == Prune(t, sent) IN
         IF p.t.k = <<>> THEN p ELSE [p EXCEPT !.t = Move(p.t, p.sent, FALSE)]
    [] method = "move" -> [t |-> Move(t, sent, FALSE), sent |-> sent]
    [] method = "moveall" -> [t |-> Move(t, sent, TRUE), sent |-> sent]
    [] method = "root" -> [t |-> ToRoot(t, sent), sent |-> sent]
    [] method = "raise" -> [t |-> Raised(t, sent, FALSE), sent |-> sent]
    [] method = "balance" -> [t |-> Balanced(t, sent), sent |-> sent]
    [] method = "lower" -> [t |-> Lowered(t, sent), sent |-> sent]
    [] OTHER -> [t |-> t, sent |-> sent]

-----------------------------------------------------------------------------
(* What every strategy has to guarantee.                                    *)
\* label and non-punctuation yield of every constituent that has one
Skeleton(t, P) == LET ns == SelectSeq(Nodes(t), LAMBDA x : Yield(x) \ P # {})
                      key == TLCEval([n \in DOMAIN ns |-> <<ns[n].l, Yield(ns[n]) \ P>>])
  IN [y \in ToSet(key) |-> Cardinality({n \in DOMAIN key : key[n] = y})]
NoEmpty(t) == \A x \in NodeSet(t) : x.k # <<>>
KeepsTokens(a, b) == Yield(a) = Yield(b) /\ IsInjective(Leaves(b))
   /\ {<<x.l, Pos1(x)>> : x \in ToSet(Pres(a))} = {<<x.l, Pos1(x)>> : x \in ToSet(Pres(b))}
=============================================================================
