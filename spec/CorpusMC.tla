------------------------------ MODULE CorpusMC ------------------------------
(* A reader with two caches that are filled by whichever access comes       *)
(* first, and lazy iterators that read along.  Every answer to any history  *)
(* of requests equals the corpus.                                           *)
EXTENDS Corpus
CONSTANTS MaxSents, MaxIters, MaxOps, Dups
VARIABLES files, blockcache, treecache, iters, answers, ops
vars == <<files, blockcache, treecache, iters, answers, ops>>
Sents == files[1] \o files[2]
NoCache == <<0>>
Bounds == {<<a, b>> : a \in 0..2, b \in {-1, 0, 1, 2, 4}}
Init == /\ files \in {<<a, b>> : a, b \in UNION {[1..k -> 1..MaxSents] : k \in 0..2}}
        /\ (Dups \/ IsInjective(Sents))
        /\ blockcache = NoCache /\ treecache = NoCache /\ iters = <<>> /\ answers = {} /\ ops = 0
\* reading raises an error at an identifier that was read before
ReadAll == IF IsInjective(Sents) THEN Sents ELSE <<-1>>
Trees == /\ treecache' = IF treecache \in {NoCache, <<>>} /\ IsInjective(Sents) THEN Sents ELSE treecache
         /\ answers' = answers \cup {<<"trees", IF IsInjective(Sents) THEN treecache' ELSE <<-1>>>>}
         /\ UNCHANGED <<blockcache, iters>>
Blocks == /\ blockcache' = IF blockcache = NoCache /\ IsInjective(Sents) THEN Sents ELSE blockcache
          /\ answers' = answers \cup {<<"blocks", IF IsInjective(Sents) THEN blockcache' ELSE <<-1>>>>}
          /\ UNCHANGED <<treecache, iters>>
\* an iterator: next position, remaining bound
Iter == /\ Len(iters) < MaxIters
        /\ \E b \in Bounds : iters' = Append(iters, [pos |-> 0, from |-> b[1], to |-> b[2], got |-> <<>>, st |-> "on"])
        /\ UNCHANGED <<blockcache, treecache, answers>>
\* sentences before the start are read and skipped
Skip(it) == IF it.pos < it.from /\ it.pos < Len(Sents) THEN it.from ELSE it.pos
Step(it) == LET p == Min({Skip(it), Len(Sents)}) IN
  IF ~IsInjective(SubSeq(Sents, 1, Min({p + 1, Len(Sents)}))) /\ (it.to < 0 \/ p < it.to) THEN [it EXCEPT !.st = "error", !.pos = p]
  ELSE IF p >= Len(Sents) \/ (it.to >= 0 /\ p >= it.to) THEN [it EXCEPT !.st = "end", !.pos = p]
  ELSE [it EXCEPT !.pos = p + 1, !.got = Append(@, Sents[p + 1])]
NextItem == /\ \E n \in DOMAIN iters : iters[n].st = "on" /\ iters' = [iters EXCEPT ![n] = Step(@)]
            /\ UNCHANGED <<blockcache, treecache, answers>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED files /\ (Trees \/ Blocks \/ Iter \/ NextItem)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
AnswersRight == \A a \in answers : a[2] = (IF IsInjective(Sents) THEN Sents ELSE <<-1>>)
ItersRight == \A n \in DOMAIN iters : LET it == iters[n] want == Slice(Sents, it.from, it.to) IN
   /\ IsPrefix(it.got, want)
   /\ (it.st = "end" => it.got = want)
   /\ (it.st = "error" => ~IsInjective(SubSeq(Sents, 1, IF it.to < 0 THEN Len(Sents) ELSE Min({it.to, Len(Sents)}))))
\* names: the order is total on distinct names that differ in some component
Names == {"a", "b.x", "a.1.x", "a.2.x", "a.10.x", "a-b.x", "10.x", "9.x", "1.x", "a.01.x", "ab.x", ".x", "a.b.1.y"}
Small == {ns \in UNION {[1..k -> {"d", "e"} \X Names] : k \in 2..2} : IsInjective(ns)}
\* (all characters used in names are in the table)
ASSUME \A n \in Names : \A k \in 1..Len(n) : Ord(Ch(n, k)) > 0
ASSUME Ordered(<<<<"d", "a.10.x">>, <<"d", "a.9.x">>, <<"d", "a.1.x">>>>) = <<<<"d", "a.1.x">>, <<"d", "a.9.x">>, <<"d", "a.10.x">>>>
ASSUME Ordered(<<<<"d", "a.10.x">>, <<"d", "a.9.x">>, <<"d", "a.b.x">>>>) = <<<<"d", "a.10.x">>, <<"d", "a.9.x">>, <<"d", "a.b.x">>>>
ASSUME \A ns \in Small : Ordered(ns) = Ordered(<<ns[2], ns[1]>>) \/
         (ns[1][1] = ns[2][1] /\ LET a == Comps(ns[1][2]) b == Comps(ns[2][2]) IN ~CompLess(a, b) /\ ~CompLess(b, a))
\* transitive on triples
Trip == {ns \in [1..3 -> Names] : Cardinality({ns[1], ns[2], ns[3]}) = 3 /\ \A a, b \in 1..3 : ~Mixed(Comps(ns[a]), Comps(ns[b]))}
ASSUME \A ns \in Trip : (CompLess(Comps(ns[1]), Comps(ns[2])) /\ CompLess(Comps(ns[2]), Comps(ns[3]))) => CompLess(Comps(ns[1]), Comps(ns[3]))
=============================================================================
