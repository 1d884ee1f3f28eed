---------------------------- MODULE FragGramTrace ---------------------------
(* op "flat": flatten() applied to several fragments with the same          *)
(* identifiers; op "gram": dopgrammar(); op "tsg": compiletsg()             *)
EXTENDS FragGrammar, TraceBase
F(x) == [t |-> x.t, s |-> x.sent]
IsArt(lab) == \E n \in 1..(Len(lab) - 1) : SubSeq(lab, n, n + 1) = "}<"
TplOK(tpl, f) == Proper(tpl) /\ tpl = TemplateOf(f)
\* left-hand sides of artificial rules of one list of productions
ArtOf(rules) == {rules[n].r[1] : n \in 2..Len(rules)}
BadFlat(q, o) ==
  LET fs == TLCEval([n \in DOMAIN q.frags |-> F(q.frags[n])])
      all == TLCEval(UNION {ToSet(o.flat[n].rules) : n \in DOMAIN fs})
      firsts == TLCEval([n \in DOMAIN fs |-> o.flat[n].rules[1]])
      art == TLCEval(UNION {ArtOf(o.flat[n].rules) : n \in DOMAIN fs})
  IN IF Len(o.flat) # Len(fs) THEN {"number of results"} ELSE
     Clause("single words", \A n \in DOMAIN fs : Single(fs[n]) => o.flat[n].rules = <<Prod(<<fs[n].t.l, "Epsilon">>, <<>>, WordOf(fs[n], fs[n].t))>>)
     \cup Clause("fragment recovered from its own rules", \A n \in DOMAIN fs : Single(fs[n]) \/ Recovers(ToSet(o.flat[n].rules), ArtOf(o.flat[n].rules), firsts[n], fs[n]))
     \cup Clause("fragment recovered from the rules of all fragments", \A n \in DOMAIN fs : Single(fs[n]) \/ Recovers(all, art, firsts[n], fs[n]))
     \cup Clause("rules with at most two children", \A p \in all : Len(p.r) <= 3)
     \cup Clause("distinct fragments do not share their rule", \A n, m \in DOMAIN fs : n < m /\ fs[n] # fs[m] => firsts[n] # firsts[m])
     \cup Clause("original labels are not artificial", \A n \in DOMAIN fs : fs[n].t.l \notin art)
     \cup Clause("templates", \A n \in DOMAIN fs : TplOK(o.flat[n].tpl, fs[n]))
-----------------------------------------------------------------------------
\* weights: <<numerator, denominator>>
FragCount(q, idx) == SumSeq([n \in DOMAIN q.frags |-> Cardinality({m \in DOMAIN q.frags[n].occ : q.frags[n].occ[m] = idx})])
SumF(s) == FoldLeft(LAMBDA a, b : Plus(a, b), <<0, 1>>, s)
EweOf(q, n) == LET fc == TLCEval([i_ \in ToSet(q.frags[n].occ) |-> FragCount(q, i_)]) IN SumF(TLCEval([m \in DOMAIN q.frags[n].occ |-> <<1, fc[q.frags[n].occ[m]]>>]))
NodesWith(q, lab) == SumSeq([n \in DOMAIN q.bank |-> LET ns == Nodes(q.bank[n].t) IN Cardinality({m \in DOMAIN ns : ns[m].l = lab})])
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
BadGram(q, o) ==
  LET fs == TLCEval([n \in DOMAIN q.frags |-> F(q.frags[n])])
      R == o.rules
      ps == TLCEval({R[n].p : n \in DOMAIN R})
      isfirst(p) == Len(p.r) > 1 /\ IsArt(p.r[2]) /\ ~IsArt(p.r[1])
      firsts == TLCEval(SelectSeq([n \in DOMAIN R |-> [p |-> R[n].p, n |-> n]], LAMBDA x : isfirst(x.p)))
      tagset == TLCEval(UNION {LET us == Units(fs[n]) IN {LexLab(us[m], WordOf(fs[n], us[m])) : m \in {y \in DOMAIN us : Lexical(fs[n], us[y])}} : n \in {y \in DOMAIN fs : ~Single(fs[y])}})
      art == TLCEval({x \in {R[n].p.r[1] : n \in DOMAIN R} : IsArt(x) \/ x \in tagset})
      multi == {n \in DOMAIN fs : ~Single(fs[n])}
      \* which fragment is at place m of the list of fragments
      which == TLCEval([m \in DOMAIN o.frags |-> LET c == {n \in DOMAIN fs : fs[n] = F(o.frags[m])} IN IF c = {} THEN 0 ELSE CHOOSE n \in c : TRUE])
      extra(p) == SumSeq([n \in DOMAIN q.extra |-> IF q.extra[n].p = p THEN q.extra[n].w ELSE 0])
      wof(n) == IF q.op = "gram" THEN Len(q.frags[n].occ) ELSE q.frags[n].w
      labs == {fs[n].t.l : n \in DOMAIN fs}
      sumof(x) == SumSeq([n \in DOMAIN R |-> IF R[n].p.r[1] = x THEN R[n].w[1] ELSE 0])
      want(x) == SumSeq([n \in DOMAIN fs |-> IF fs[n].t.l = x THEN wof(n) ELSE 0]) + SumSeq([n \in DOMAIN q.extra |-> IF q.extra[n].p.r[1] = x THEN q.extra[n].w ELSE 0])
      ewesum(x) == SumF([n \in DOMAIN fs |-> IF fs[n].t.l = x THEN EweOf(q, n) ELSE <<0, 1>>])
      lexof(n) == Prod(<<fs[n].t.l, "Epsilon">>, <<>>, WordOf(fs[n], fs[n].t))
      at(p) == CHOOSE n \in DOMAIN R : R[n].p = p
      over(a, b) == Times(a, <<b[2], b[1]>>)
      nonterms(n) == Len(Nodes(fs[n].t)) - 1
  IN IF o.junk # <<>> THEN {"weights are not the expected fractions"}
     ELSE IF Cardinality(ps) # Len(R) THEN {"rule repeated"}
     ELSE IF Len(firsts) # Cardinality(multi) \/ Len(o.tpl) # Len(firsts) \/ (q.op = "gram" /\ Len(o.frags) # Len(firsts)) THEN {"one rule and template for each fragment"}
     ELSE
     (IF q.op = "gram" /\ \E m \in DOMAIN which : which[m] = 0 THEN {"unknown fragment"} ELSE
      LET frag(m) == IF q.op = "gram" THEN which[m] ELSE
                LET c == {n \in multi : TplOK(o.tpl[m], fs[n]) /\ Recovers(ps, art, firsts[m].p, fs[n])} IN IF Cardinality(c) = 1 THEN CHOOSE n \in c : TRUE ELSE 0
          fr == TLCEval([m \in DOMAIN firsts |-> frag(m)])
      IN IF \E m \in DOMAIN fr : fr[m] = 0 THEN {"fragment not recovered"} ELSE
      Clause("every fragment has a rule", ToSet(fr) = multi)
      \cup Clause("fragment recovered from its rule", \A m \in DOMAIN fr : Recovers(ps, art, firsts[m].p, fs[fr[m]]))
      \cup Clause("template of the fragment", \A m \in DOMAIN fr : TplOK(o.tpl[m], fs[fr[m]]))
      \cup Clause("weight of fragment", \A m \in DOMAIN fr : R[firsts[m].n].w = <<wof(fr[m]), 1>>)
      \cup Clause("weight of single words", \A n \in DOMAIN fs : Single(fs[n]) => lexof(n) \in ps /\ R[at(lexof(n))].w = <<wof(n) + extra(lexof(n)), 1>>)
      \cup Clause("weight of artificial rules", \A n \in DOMAIN R : R[n].p.r[1] \in art => R[n].w = <<1, 1>>)
      \cup Clause("sum of weights", \A x \in labs : sumof(x) = want(x))
      \cup Clause("no other rules", \A n \in DOMAIN R : R[n].p.r[1] \in art \/ isfirst(R[n].p) \/ (\E m \in DOMAIN fs : Single(fs[m]) /\ lexof(m) = R[n].p) \/ extra(R[n].p) > 0)
      \cup (IF q.op = "tsg" THEN {} ELSE
       Clause("occurrences of fragments", \A m \in DOMAIN fr : o.frags[m].occ = q.frags[fr[m]].occ)
       \cup (IF q.extra # <<>> THEN {} ELSE
         Clause("equal weights estimate", \A m \in DOMAIN fr : R[firsts[m].n].ewe = over(EweOf(q, fr[m]), ewesum(fs[fr[m]].t.l)))
         \cup Clause("equal weights estimate of words", \A n \in DOMAIN fs : Single(fs[n]) => R[at(lexof(n))].ewe = over(EweOf(q, n), ewesum(fs[n].t.l))))
       \cup Clause("bonnema weights", \A m \in DOMAIN fr : R[firsts[m].n].bon = Frac(Len(q.frags[fr[m]].occ), Pow2(nonterms(fr[m])) * NodesWith(q, fs[fr[m]].t.l)))
       \cup Clause("bonnema weights of words", \A n \in DOMAIN fs : Single(fs[n]) /\ extra(lexof(n)) = 0 => R[at(lexof(n))].bon = Frac(Len(q.frags[n].occ), NodesWith(q, fs[n].t.l)))
       \cup Clause("shortest derivation weights", \A n \in DOMAIN R : R[n].shortest = (IF R[n].p.r[1] \in art THEN <<1, 1>> ELSE <<1, 2>>))
       \cup Clause("other weights of artificial rules", \A n \in DOMAIN R : R[n].p.r[1] \in art => R[n].ewe = <<1, 1>> /\ R[n].bon = <<1, 1>>)))
Bad(r) == LET q == r.inp o == r.out IN
  IF r.err # "" THEN {"exception"}
  ELSE IF q.op = "flat" THEN BadFlat(q, o) ELSE BadGram(q, o)
TCheck == Report(Bad(Rec))
=============================================================================
