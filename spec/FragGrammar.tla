----------------------------- MODULE FragGrammar ----------------------------
(* Grammars of fragments: every fragment becomes one rule over its frontier *)
(* (open nodes and words), factored into rules with at most two children by *)
(* artificial nonterminals, and a template from which it is recovered.      *)
(* A fragment is [t, s]: tree and words; "None" marks positions below an    *)
(* open node.  Its units are its open nodes and preterminals, in order of   *)
(* their first position.                                                    *)
EXTENDS Fragments
IsUnit(x) == ~IsTerm(x) /\ x.k[1].i >= 0
RECURSIVE UnitsIn(_)
UnitsIn(x) == IF IsUnit(x) THEN <<x>> ELSE Cat([n \in DOMAIN x.k |-> UnitsIn(x.k[n])])
Units(f) == SortSeq(UnitsIn(f.t), LAMBDA a, b : First(a) < First(b))
Lexical(f, u) == f.s[u.k[1].i + 1] # "None"
WordOf(f, u) == f.s[u.k[1].i + 1]
Single(f) == IsUnit(f.t)
\* the tag of a word in the grammar identifies tag and word
LexLab(u, w) == u.l \o "@" \o w
\* what a unit contributes: word, or label of the open node
SymOf(f, u) == IF Lexical(f, u) THEN <<"word", WordOf(f, u), LexLab(u, WordOf(f, u))>> ELSE <<"open", u.l, "">>
\* the components of the fragment: sequences of <<unit, component>>
YieldOf(f) == LET us == TLCEval(Units(f))
      uc == TLCEval([n \in DOMAIN us |-> Runs(Yield(us[n]))])
      start(y) == {x \in {<<n, c>> : n \in DOMAIN us, c \in 1..(Max({Len(uc[m]) : m \in DOMAIN us}))} : x[2] \in DOMAIN uc[x[1]] /\ uc[x[1]][x[2]][1] = y}
      rs == Runs(Yield(f.t))
  IN TLCEval([r \in DOMAIN rs |-> Cat([y \in 1..(rs[r][2] - rs[r][1] + 1) |->
        LET st == start(rs[r][1] + y - 1) IN IF st = {} THEN <<>> ELSE <<CHOOSE x \in st : TRUE>>])])
\* adjacent positions of the same unit belong to one component
-----------------------------------------------------------------------------
(* The meaning of a set of rules R (productions), starting from one of them.*)
(* Nonterminals in A are artificial and are expanded; others are open.      *)
(* Result: [ok, parts, syms], parts refer to syms by number.                *)
Wrong == [ok |-> FALSE, parts |-> <<>>, syms |-> <<>>]
RECURSIVE Open1(_, _, _, _, _)
Open1(R, A, p, x, depth) ==  \* value of nonterminal x with as many components as p asks for
  IF depth = 0 THEN Wrong
  ELSE IF x[1] \in A THEN
     LET c == {r \in R : r.r[1] = x[1]} IN
     IF Cardinality(c) # 1 THEN Wrong
     ELSE LET r == CHOOSE y \in c : TRUE IN
       IF IsLex(r) THEN [ok |-> TRUE, parts |-> <<<<<<1, 1>>>>>>, syms |-> <<<<"word", r.w, x[1]>>>>]
       ELSE LET RECURSIVE Kids_(_, _)
                Kids_(m, acc) == IF m > Len(r.r) THEN acc
                  ELSE LET n == SumSeq([q \in DOMAIN r.yf |-> Cardinality({y \in DOMAIN r.yf[q] : r.yf[q][y] = m - 2})])
                       IN Kids_(m + 1, Append(acc, TLCEval(Open1(R, A, r, <<r.r[m], n>>, depth - 1))))
                kids == TLCEval(Kids_(2, <<>>))
                off(m) == SumSeq([q \in 1..(m - 1) |-> Len(kids[q].syms)])
                shifted(m) == [c_ \in DOMAIN kids[m].parts |-> [y \in DOMAIN kids[m].parts[c_] |-> <<kids[m].parts[c_][y][1] + off(m), kids[m].parts[c_][y][2]>>]]
            IN IF \E m \in DOMAIN kids : ~kids[m].ok THEN Wrong
               ELSE IF ~WellFormedYF(r.yf, [m \in DOMAIN kids |-> Len(kids[m].parts)]) THEN Wrong
               ELSE [ok |-> TRUE, parts |-> ApplyYF(r.yf, TLCEval([m \in DOMAIN kids |-> shifted(m)])),
                     syms |-> Cat([m \in DOMAIN kids |-> kids[m].syms])]
  ELSE [ok |-> x[2] > 0, parts |-> [c \in 1..x[2] |-> <<<<1, c>>>>], syms |-> <<<<"open", x[1], "">>>>]
\* the value of rule p: p is not used again for its own left-hand side
Value(R, A, p) == LET top == "<top>" IN
   TLCEval(Open1(R \cup {[p EXCEPT !.r = <<top>> \o Tail(p.r)]}, A \cup {top}, p, <<top, 1>>, 40))
\* adjacent components of a unit never occur in well-formed rules
Recovers(R, A, p, f) == LET v == Value(R, A, p) us == Units(f) IN
  /\ v.ok /\ v.parts = YieldOf(f) /\ v.syms = [n \in DOMAIN us |-> SymOf(f, us[n])]
-----------------------------------------------------------------------------
\* template: the fragment with every unit replaced by its number, from 0
RECURSIVE Template(_, _)
Template(us, x) == IF IsUnit(x) THEN Term((CHOOSE n \in DOMAIN us : us[n] = x) - 1)
                   ELSE Node(x.l, [n \in DOMAIN x.k |-> Template(us, x.k[n])])
TemplateOf(f) == IF Single(f) THEN Node(f.t.l, <<Term(0)>>) ELSE Template(TLCEval(Units(f)), f.t)
RECURSIVE Fill(_, _)
Fill(us, x) == IF IsTerm(x) THEN us[x.i + 1] ELSE Node(x.l, [n \in DOMAIN x.k |-> Fill(us, x.k[n])])
-----------------------------------------------------------------------------
(* A construction: left-factored; the last artificial nonterminal is new,   *)
(* others are shared by all fragments in which the same prefix of units has *)
(* the same configuration.                                                  *)
Name(n) == "<" \o ToString(n) \o ">"
NewName(lab, ids, key) == IF \E n \in DOMAIN ids : ids[n] = key THEN CHOOSE n \in DOMAIN ids : ids[n] = key ELSE Len(ids) + 1
RECURSIVE Chain(_, _, _, _, _)
\* prev: [lab, ys, key]: the units so far; result [rules, ids]
Chain(f, us, n, prev, acc) ==
  LET lab(u) == IF Lexical(f, u) THEN LexLab(u, WordOf(f, u)) ELSE u.l
      u == us[n]
      kids == <<[k |-> <<>>, i |-> 0, l |-> "", ys |-> prev.ys], [k |-> <<>>, i |-> 0, l |-> "", ys |-> Yield(u)]>>
      both == TLCEval(prev.ys \cup Yield(u))
      rs == Runs(both)
      yf == TLCEval([r \in DOMAIN rs |-> Compress([m \in 1..(rs[r][2] - rs[r][1] + 1) |-> IF rs[r][1] + m - 1 \in prev.ys THEN 0 ELSE 1])])
      final == n = Len(us)
      key == IF n = Len(us) - 1 THEN <<"new", Len(acc.ids) + 1>> ELSE <<prev.lab, lab(u), ToString(yf)>>
      no == NewName(f.t.l, acc.ids, key)
      nm == IF final THEN f.t.l ELSE f.t.l \o Name(no)
      ids == IF final \/ no <= Len(acc.ids) THEN acc.ids ELSE Append(acc.ids, key)
      a == TLCEval([rules |-> <<Prod(<<nm, prev.lab, lab(u)>>, yf, "")>> \o acc.rules, ids |-> ids])
  IN IF final THEN a ELSE Chain(f, us, n + 1, [lab |-> nm, ys |-> both], a)
LexRules(f, us) == LET ls == SelectSeq(us, LAMBDA u : Lexical(f, u)) IN [n \in DOMAIN ls |-> Prod(<<LexLab(ls[n], WordOf(f, ls[n])), "Epsilon">>, <<>>, WordOf(f, ls[n]))]
Flatten(f, ids) == LET us == TLCEval(Units(f)) IN
  IF Single(f) THEN [rules |-> <<Prod(<<f.t.l, "Epsilon">>, <<>>, WordOf(f, f.t))>>, ids |-> ids]
  ELSE LET u == us[1] l1 == IF Lexical(f, u) THEN LexLab(u, WordOf(f, u)) ELSE u.l
           c == IF Len(us) >= 3 THEN Chain(f, us, 2, [lab |-> l1, ys |-> Yield(u)], [rules |-> <<>>, ids |-> ids])
                ELSE LET nm == f.t.l \o Name(Len(ids) + 1) o == [n \in 1..Len(Runs(Yield(u))) |-> <<0>>] IN
                  IF Len(us) = 1 THEN [rules |-> <<Prod(<<f.t.l, nm>>, o, ""), Prod(<<nm, l1>>, o, "")>>, ids |-> Append(ids, <<"new", Len(ids) + 1>>)]
                  ELSE LET b == Chain(f, us, 2, [lab |-> l1, ys |-> Yield(u)], [rules |-> <<>>, ids |-> ids]) IN
                    [rules |-> <<[b.rules[1] EXCEPT !.r[2] = nm], Prod(<<nm, l1>>, o, "")>>, ids |-> Append(b.ids, <<"new", Len(ids) + 1>>)]
       IN TLCEval([rules |-> c.rules \o LexRules(f, us), ids |-> c.ids])
=============================================================================
