--------------------------- MODULE BracketsTrace ---------------------------
EXTENDS Brackets, TraceBase
Ids(n) == [m \in 1..n |-> ToString(m - 1)]
AllSome(s) == \A n \in DOMAIN s : s[n] # "None"
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
 LET o == r.out q == r.inp IN
 IF q.op = "parse" THEN LET p == Parse(q.s) IN
   Clause("malformed text is rejected", ~p.ok => ~o.ok)
   \cup Clause("well-formed text is accepted", p.ok => o.ok)
   \cup (IF p.ok /\ o.ok THEN Clause("parsed tree", o.t = p.t) \cup Clause("words", o.words = p.words) ELSE {})
 ELSE IF q.op = "print" THEN
   Clause("printed tree", o.str = Flat(q.t, Ids(q.n)))
   \cup Clause("parsing the printed tree", o.back = q.t)
   \cup Clause("parsing the pretty-printed tree", o.pback = q.t)
   \cup Clause("evaluating the representation", o.rback = q.t)
   \cup Clause("pretty-printing a short tree", Len(o.str) + 1 < q.margin => o.pretty = o.str)
 ELSE IF q.op = "bracket" THEN
   Clause("bracket notation", o.text = Bracketed(q.t, q.sent))
   \cup Clause("re-read tree", o.t = q.t /\ o.words = q.sent)
   \cup Clause("re-read tree without detection", o.t2 = q.t /\ o.words2 = q.sent)
   \cup Clause("re-read after reformatting", o.t3 = q.t /\ o.words3 = q.sent)
 ELSE IF q.op = "discbracket" THEN
   Clause("discbracket notation", o.text = DiscBracketed(q.t, q.sent))
   \cup Clause("re-read tree", o.t = q.t /\ o.words = q.sent)
   \cup Clause("re-read pretty-printed tree", o.t2 = q.t /\ o.words2 = q.sent)
   \cup Clause("re-read with detection", o.t3 = q.t /\ o.words3 = q.sent)
   \cup Clause("re-read pretty-printed with detection", o.t4 = q.t /\ o.words4 = q.sent)
   \cup Clause("re-read after reformatting", o.t5 = q.t /\ o.words5 = q.sent)
 ELSE IF q.op = "esc" THEN
   Clause("escaped", o.e = EscTok(q.s))
   \cup Clause("unescaping restores", o.back = q.s)
   \cup Clause("no brackets after escaping", \A n \in 1..Len(o.e) : Chr(o.e, n) \notin {"(", ")"})
   \cup Clause("PTB escaping restores", o.pback = q.s)
   \cup Clause("no brackets after PTB escaping", \A n \in 1..Len(o.p) : Chr(o.p, n) \notin {"(", ")"})
 ELSE {"unknown op"}
TCheck == Report(Bad(Rec))
=============================================================================
