--------------------------- MODULE TreeValsTrace ---------------------------
EXTENDS TreeVals, TraceBase
ToPaths(ps) == ps
SetOf(s) == {s[n] : n \in DOMAIN s}
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
 LET o == r.out q == r.inp IN
 IF q.op = "cmp" THEN
   LET c == Cmp(q.a, q.b) IN
   Clause("equality", o.eq = (q.a = q.b) /\ o.ne = (q.a # q.b) /\ (c = 0) = (q.a = q.b))
   \cup Clause("equal frozen trees have equal hashes", (q.a = q.b) => o.samehash)
   \cup Clause("frozen equality", o.feq = (q.a = q.b) /\ o.mixed = (q.a = q.b))
   \cup Clause("sets of frozen trees", o.setsize = IF q.a = q.b THEN 1 ELSE 2)
   \cup Clause("order", o.lt = (c < 0) /\ o.gt = (c > 0) /\ o.le = (c <= 0) /\ o.ge = (c >= 0))
   \cup Clause("not equal to other objects", ~o.other)
 ELSE IF q.op = "disc" THEN
   LET e == Lex(q.a, q.sa) = Lex(q.b, q.sb) IN
   Clause("equality of trees with tokens", o.eq = e)
   \cup Clause("hash of trees with tokens", e => o.samehash)
 ELSE IF q.op = "copy" THEN
   Clause("copies are equal", \A n \in DOMAIN o.copies : o.copies[n] = q.t)
   \cup Clause("copies compare equal", \A n \in DOMAIN o.eqs : o.eqs[n])
   \cup Clause("types of copies", o.types = o.wanttypes)
   \cup Clause("annotation is copied", \A n \in DOMAIN o.annot : o.annot[n] = o.annot0)
   \cup Clause("edit took place", o.edited = Delete(q.t, q.path))
   \cup Clause("copies are independent of later edits", \A n \in DOMAIN o.after : o.after[n] = q.t)
   \cup Clause("original independent of edited copy", o.orig2 = q.t)
 ELSE IF q.op = "immut" THEN
   Clause("modifications of frozen trees are rejected", \A n \in DOMAIN o.rejected : o.rejected[n])
   \cup Clause("frozen tree unchanged", o.t = q.t /\ o.samehash)
 ELSE IF q.op = "traverse" THEN LET t == q.t ns == Nodes(t) IN
   Clause("preorder", o.pre = ns)
   \cup Clause("postorder", o.post = PostNodes(t))
   \cup Clause("conditional traversal", o.cond = SelectSeq(ns, LAMBDA x : Len(x.k) > 1)
               /\ o.condpost = SelectSeq(PostNodes(t), LAMBDA x : Len(x.k) > 1))
   \cup Clause("leaves", o.leaves = Leaves(t) /\ o.frozenleaves = Leaves(t))
   \cup Clause("height", o.height = Height(t))
   \cup Clause("preterminals", o.pos = Pos(t))
   \cup Clause("positions preorder", o.ppre = PrePaths(t))
   \cup Clause("positions postorder", o.ppost = PostPaths(t))
   \cup Clause("positions in both orders", o.pboth = BothPaths(t))
   \cup Clause("positions of leaves", o.pleaves = LeafPaths(t) /\ o.leafpos = LeafPaths(t))
   \cup Clause("lookup by path", o.at = [n \in DOMAIN PrePaths(t) |-> At(t, PrePaths(t)[n])])
   \cup Clause("spanning node", \A n \in DOMAIN o.span : o.span[n][3] = Spanning(t, o.span[n][1], o.span[n][2]))
   \cup Clause("leaf index out of range", o.leafneg /\ o.leafbig)
   \cup Clause("length and iteration", o.len = Len(t.k) /\ o.iter = t.k)
   \cup Clause("index of child by equality", \A n \in DOMAIN t.k : o.index[n] + 1 = Min({m \in DOMAIN t.k : t.k[m] = t.k[n]}))
   \cup Clause("find", o.find = LET s == SelectSeq(t.k, LAMBDA x : ~IsTerm(x) /\ x.l = "B") IN IF s = <<>> THEN <<>> ELSE <<s[1]>>)
 ELSE IF q.op = "edit" THEN
   IF q.kind = "set" THEN Clause("assignment by path", o.t = Replace(q.t, q.path, q.x))
   ELSE Clause("deletion by path", o.t = Delete(q.t, q.path))
 ELSE {"unknown op"}
TCheck == Report(Bad(Rec))
=============================================================================
