----------------------------- MODULE SeqsTrace -----------------------------
EXTENDS Seqs, TraceBase
SetOf(s) == {s[n] : n \in DOMAIN s}
CatAll(ss) == FlattenSeq(ss)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
 LET o == r.out q == r.inp IN
 IF q.op = "merge" THEN
     Clause("stable merge", o.merged = StableMerge(q.ss))
     \cup Clause("merge without key", o.plain = [n \in DOMAIN o.merged |-> o.merged[n][1]])
     \cup Clause("consumes at most one ahead", \A n \in DOMAIN o.ahead : o.ahead[n] <= 1)
 ELSE IF q.op = "slice" THEN
     Clause("bounds select what slicing selects", o.sel = Selected(q.n, q.start, q.stop, q.step))
     \cup Clause("bounds in range", ~q.allow =>
          o.bounds[1] >= 0 /\ o.bounds[1] <= o.bounds[2] /\ o.bounds[2] <= q.n /\ o.bounds[3] = 1)
 ELSE IF q.op = "stepreject" THEN Clause("steps are rejected", o.rejected)
 ELSE IF q.op = "oset" THEN
   LET a == Dedup(q.a) b == Dedup(q.b) IN
     Clause("order", o.seq = a /\ o.rev = Reverse(a))
     \cup Clause("length", o.len = Len(a))
     \cup Clause("membership", o.isin = [n \in DOMAIN q.b |-> Contains(a, q.b[n])])
     \cup Clause("indexing", o.items = a)
     \cup Clause("intersection keeps left order", o.and = SelectSeq(a, LAMBDA x : Contains(b, x)))
     \cup Clause("union", o.or = Dedup(q.a \o q.b))
     \cup Clause("difference", o.sub = SelectSeq(a, LAMBDA x : ~Contains(b, x)))
     \cup Clause("symmetric difference", SetOf(o.xor) = (SetOf(a) \ SetOf(b)) \cup (SetOf(b) \ SetOf(a))
                                         /\ IsInjective(o.xor))
     \cup Clause("equality is set equality", o.eq = (SetOf(a) = SetOf(b)) /\ o.ne = (SetOf(a) # SetOf(b)))
     \cup Clause("equal sets have equal hashes", (SetOf(a) = SetOf(b)) => o.samehash)
     \cup Clause("subset", o.le = (SetOf(a) \subseteq SetOf(b)) /\ o.disj = (SetOf(a) \cap SetOf(b) = {}))
 ELSE IF q.op = "tok" THEN
     Clause("characters preserved in order", CatAll(o.toks) = NonSpace(q.text))
     \cup Clause("no empty tokens or spaces", \A n \in DOMAIN o.toks :
            o.toks[n] # <<>> /\ NonSpace(o.toks[n]) = o.toks[n])
     \cup Clause("punctuation stands alone", \A n \in DOMAIN o.toks :
            Len(o.toks[n]) > 1 => \A m \in DOMAIN o.toks[n] : o.toks[n][m] \notin Standalone)
 ELSE {"unknown op"}
TCheck == Report(Bad(Rec))
=============================================================================
