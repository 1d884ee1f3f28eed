----------------------------- MODULE PipeTrace -----------------------------
(* The parsing pipeline: a sentence passes through a sequence of stages; a  *)
(* stage may use the forest of an earlier one, and each yields a tree that   *)
(* is its own parse, or else the most recent one that was found.            *)
EXTENDS TraceBase, Chart, Trees, Pipeline
D == INSTANCE Disc
B == INSTANCE Binarization
\* remove nodes introduced when binarizing the components of split nodes
RECURSIVE UnColon(_, _)
UnColon(t, isroot) == IF IsTerm(t) THEN <<t>> ELSE
   LET kids == TLCEval(Cat([n \in DOMAIN t.k |-> UnColon(t.k[n], FALSE)]))
   IN IF B!FindSub(t.l, ":<") > 0 /\ ~isroot THEN kids ELSE <<Node(B!StripPar(t.l), kids)>>
\* remove a fan-out marker
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE BackDigits(_, _)
BackDigits(s, n) == IF n > 0 /\ IsDigit(SubSeq(s, n, n)) THEN BackDigits(s, n - 1) ELSE n
NoFan(s) == LET n == BackDigits(s, Len(s)) IN
   IF n > 1 /\ n < Len(s) /\ SubSeq(s, n, n) = "_" THEN SubSeq(s, 1, n - 1) ELSE s
\* the tree for a derivation
Post(t, split) == LET u == IF split THEN D!Merge(UnColon(t, TRUE)[1]) ELSE t IN
   Canonical(MapLabels(NoFan, B!Unbinarize(u)))
Flat(q, n, tags) == Node(q.root, <<Node("NOPARSE", [m \in 1..n |-> Node(IF tags = <<>> THEN "NN" ELSE tags[m], <<Term(m - 1)>>)])>>)
Known(q) == UNION {ToSet(Labels(q.bank[n].t)) : n \in DOMAIN q.bank} \cup {q.root, "ROOT", "NN", "NOPARSE"}
Env(g, o) == TLCEval([g |-> g, sent |-> o.toks, noexp |-> {}, use |-> FALSE, map |-> <<>>, split |-> 0, white |-> {}, resw |-> 1, sigw |-> 6908])
Near(a, b) == a - b < 30 /\ b - a < 30
\* The parts to which a sentence without a parse is divided: the leftmost of the
\* largest spans with an analysis, and so on before and after it.
Whole(l) == B!FindSub(l, "<") = 0 /\ B!FindSub(l, "*") = 0
RECURSIVE PartsOf(_, _, _)
PartsOf(best, a, b) == IF a = b THEN <<>> ELSE
  LET At(x, len) == {y \in DOMAIN best : y[2] = <<<<x, x + len>>>> /\ Whole(y[1])}
      lens == {len \in 1..(b - a) : \E x \in a..(b - len) : At(x, len) # {}}
  IN IF lens = {} THEN [n \in 1..(b - a) |-> [l |-> {"NN"}, a |-> a + n - 1, b |-> a + n]]
     ELSE LET len == Max(lens)
              x == Min({x \in a..(b - len) : At(x, len) # {}})
              w == Min({best[y] : y \in At(x, len)})
          IN PartsOf(best, a, x) \o <<[l |-> {NoFan(y[1]) : y \in {y \in At(x, len) : Near(best[y], w)}} \cup {"ROOT"}, a |-> x, b |-> x + len]>>
             \o PartsOf(best, x + len, b)
HasParts(t, ps) == /\ t.l = "ROOT" /\ Len(t.k) = Len(ps)
  /\ \A n \in DOMAIN ps : t.k[n].l \in ps[n].l /\ ToSet(Leaves(t.k[n])) = ps[n].a..(ps[n].b - 1)
\* o: the results for a sentence; gs: grammars, for stages that are not DOP models
BadSent(q, gs, s, o) ==
  LET n == Len(s.sent) IN
  IF o.err # "" THEN {"exception"}
  ELSE IF Len(o.res) # Len(q.stages) \/ \E m \in DOMAIN o.res : o.res[m].name # q.stages[m].name THEN {"stages"}
  ELSE IF \E m \in DOMAIN o.res : ~Proper(o.res[m].tree) \/ ~Covers(o.res[m].tree, n) THEN {"terminals"}
  ELSE IF \E m \in DOMAIN o.res : o.res[m].bin.k # <<>> /\ (~Proper(o.res[m].bin) \/ ~Covers(o.res[m].bin, n)) THEN {"terminals of derivation"}
  ELSE
   LET r == o.res
       S == q.stages
       plain == {m \in DOMAIN r : S[m].kind = "plain"}
       env == TLCEval([m \in plain |-> Env(gs[m], o)])
       der == TLCEval([m \in plain |-> DerivOf(env[m], WeightOf(env[m]), r[m].bin)])
       own(m) == der[m].ok /\ der[m].x = Goal(env[m]) /\ Near(der[m].w, r[m].prob)
       best == TLCEval([m \in {m \in plain : S[m].all} |-> Closure(env[m]).best])
       \* models extracted from the same trees parse the same sentences
       base == TLCEval([m \in plain |-> IF m \in DOMAIN best THEN Goal(env[m]) \in DOMAIN best[m]
                    ELSE ~r[m].noparse /\ own(m)])
       found == TLCEval([m \in DOMAIN r |-> IF m \in plain THEN base[m]
                    ELSE base[S[m].same] /\ (S[m].kind = "sldop" => ~r[m].noparse)])
       what(m) == Yields(S, found, m)
       src(m) == Source(S, found, m)
   IN UNION {Clause("labels", ToSet(Labels(r[m].tree)) \subseteq Known(q)) : m \in DOMAIN r}
      \cup UNION {Clause("yields", r[m].noparse <=> what(m) \in {"earlier", "none"}) : m \in DOMAIN r}
      \cup UNION {Clause("tree", Canonical(r[m].tree) = IF what(m) = "none" THEN Flat(q, n, s.tags)
              ELSE Post(r[src(m)].bin, S[src(m)].split)) : m \in DOMAIN r}
      \cup UNION {Clause("order", q.canon => IsCanonical(r[m].tree)) : m \in DOMAIN r}
      \cup UNION {Clause("derivation", what(m) = "own" => own(m)) : m \in plain}
      \cup UNION {Clause("best parse", what(m) = "own" => Near(r[m].prob, best[m][Goal(env[m])])) : m \in DOMAIN best}
      \cup UNION {Clause("parts", (what(m) = "parts" /\ S[m].prune = 0 /\ Covered(env[m])) => HasParts(r[m].tree, PartsOf(best[m], 0, n))) : m \in DOMAIN best}
      \cup Clause("depends", Sound(S, found))
      \cup UNION {Clause("reranking", (S[m].kind = "rerank" /\ found[m]) => r[m].bin \in ToSet(r[S[m].prune].all)) : m \in DOMAIN r}
      \cup Clause("logged", o.log = <<>>)
Bad(r) == IF r.err # "" THEN {"exception"}
  ELSE UNION {BadSent(r.inp, r.out.gs, r.inp.sents[n], r.out.sents[n]) : n \in DOMAIN r.inp.sents}
    \cup Clause("reloaded", r.out.again = <<>> \/ r.out.again = r.out.sents)
TCheck == Report(Bad(Rec))
=============================================================================
