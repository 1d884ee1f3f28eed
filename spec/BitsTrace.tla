----------------------------- MODULE BitsTrace -----------------------------
EXTENDS Bits, TraceBase
Set(s) == {s[n] : n \in DOMAIN s}
IntSet(s) == \A n \in DOMAIN s : s[n] \in Nat
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
 LET A == Set(r.inp.a) o == r.out IN
 IF r.inp.op = "one" THEN LET p == r.inp.pos IN
     Clause("nextset", o.nextset = NextIn(A, p, -1))
     \cup Clause("nextunset", o.nextunset = NextOut(A, p, 64))
     \cup Clause("bitlength", o.bitlength = BitLen(A))
     \cup Clause("bitcount", o.bitcount = Cardinality(A))
     \cup Clause("testbit", \A f \in {"testbit", "test32", "test16", "test8"} : o[f] = (p \in A))
 ELSE IF r.inp.op = "many" THEN LET p == r.inp.pos B == Set(r.inp.b) n == r.inp.slots * 64 IN
     Clause("count", o.count = Cardinality(A))
     \cup Clause("length", o.length = BitLen(A))
     \cup Clause("nextset", o.nextset = NextIn(A, p, -1))
     \cup Clause("nextunset", o.nextunset = NextOut(A, p, n))
     \cup Clause("subset", o.subset = (A \subseteq B))
     \cup Clause("union", o.union = Ascending(A \cup B) /\ o.unionin = Ascending(A \cup B))
     \cup Clause("intersection", o.intersect = Ascending(A \cap B) /\ o.intersectin = Ascending(A \cap B))
     \cup Clause("iteration", o.iter = Ascending(A) /\ o.uniter = Ascending((0..(n - 1)) \ A))
     \cup Clause("set bit", o.setbit = Ascending(A \cup {p}))
     \cup Clause("clear bit", o.clearbit = Ascending(A \ {p}))
 ELSE IF r.inp.op = "py" THEN
     Clause("pyintbitcount", o.count = Cardinality(A))
     \cup Clause("pyintnextset", o.next = NextIn(A, r.inp.pos, -1))
     \cup Clause("fanout", \A n \in DOMAIN o.fanouts : o.fanouts[n] = Components(A))
     \cup Clause("getbits", o.getbits = Ascending(A))
     \cup Clause("ranges", o.ranges = RunSeqs(A))
     \cup Clause("rangeheads", o.heads = Ascending({x \in A : (x - 1) \notin A}))
 ELSE {"unknown op"}
TCheck == Report(Bad(Rec))
=============================================================================
