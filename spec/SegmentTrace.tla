---------------------------- MODULE SegmentTrace ----------------------------
EXTENDS Segment, Formats, TraceBase
Symb(s) == TLCEval([n \in 1..Len(s) |-> IF Chr(s, n) = "\n" THEN "n" ELSE Chr(s, n)])
RECURSIVE RStrip(_)
RStrip(s) == IF s = "" THEN s ELSE IF Chr(s, Len(s)) \in White \cup {"\r"} THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Piece(s, x) == SubSeq(s, x[1], x[2])
\* discontinuous trees have tokens with indices, all of them
RECURSIVE IdxEnd(_, _)
IdxEnd(w, n) == IF n <= Len(w) /\ Chr(w, n) \in Digit THEN IdxEnd(w, n + 1) ELSE n
IsIdx(w) == LET n == IdxEnd(w, 1) IN n > 1 /\ n <= Len(w) /\ Chr(w, n) = "="
RECURSIVE Num(_, _)
DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
Num(w, acc) == IF w = "" THEN acc ELSE Num(SubSeq(w, 2, Len(w)), 10 * acc + DigitVal(Chr(w, 1)))
WIdx(w) == Num(SubSeq(w, 1, IdxEnd(w, 1) - 1), 0)
WTok(w) == SubSeq(w, IdxEnd(w, 1) + 1, Len(w))
RECURSIVE Unescape(_)
Unescape(s) == IF s = "" THEN "" ELSE IF Len(s) >= 5 /\ SubSeq(s, 1, 5) = "#LRB#" THEN "(" \o Unescape(SubSeq(s, 6, Len(s)))
  ELSE IF Len(s) >= 5 /\ SubSeq(s, 1, 5) = "#RRB#" THEN ")" \o Unescape(SubSeq(s, 6, Len(s)))
  ELSE Chr(s, 1) \o Unescape(SubSeq(s, 2, Len(s)))
TreeOf(s) == LET p == TLCEval(Parse(s)) disc == \A n \in DOMAIN p.words : IsIdx(p.words[n]) IN
  IF disc THEN [t |-> Renumber([n \in 0..(Len(p.words) - 1) |-> WIdx(p.words[n + 1])], p.t),
                sent |-> [m \in DOMAIN p.words |-> Unescape(WTok(p.words[CHOOSE n \in DOMAIN p.words : WIdx(p.words[n]) = m - 1]))]]
  ELSE [t |-> p.t, sent |-> [n \in DOMAIN p.words |-> Unescape(p.words[n])]]
\* yields <<"tree", t, sent, rest>> or <<"text", text>>
NLPos(s) == IndexOf(s, "\n", 1)
RECURSIVE Lines(_)
Lines(s) == LET n == NLPos(s) IN IF n = 0 THEN (IF s = "" THEN <<>> ELSE <<s>>)
            ELSE <<SubSeq(s, 1, n - 1)>> \o Lines(SubSeq(s, n + 1, Len(s)))
TreeItem(s, g, other) == LET r == TreeOf(Piece(s, g.tree)) rest == RStrip(Piece(s, g.rest)) n == NLPos(rest) IN
  IF other /\ n > 0 THEN <<[k |-> "tree", t |-> r.t, sent |-> r.sent, rest |-> SubSeq(rest, 1, n - 1)],
                           [k |-> "text", t |-> Term(0), sent |-> <<>>, rest |-> SubSeq(rest, n, Len(rest))]>>
  ELSE <<[k |-> "tree", t |-> r.t, sent |-> r.sent, rest |-> rest]>>
StartOfLine(s, n) == LET ps == {m \in 1..(n - 1) : Chr(s, m) = "\n"} IN IF ps = {} THEN 1 ELSE Max(ps) + 1
\* lines before the first tree
Leading(s, gs) == LET e == IF gs = <<>> THEN Len(s) ELSE StartOfLine(s, gs[1].tree[1]) - 1 ls == Lines(SubSeq(s, 1, e)) IN
  [n \in DOMAIN ls |-> [k |-> "text", t |-> Term(0), sent |-> <<>>, rest |-> RStrip(ls[n])]]
ExpectBrk(q) == LET gs == TLCEval(Segments(Symb(q.text), q.robust)) IN
  (IF q.other THEN Leading(q.text, gs) ELSE <<>>) \o Cat([n \in DOMAIN gs |-> TreeItem(q.text, gs[n], q.other)])
SameItem(a, b) == a.k = b.k /\ a.rest = b.rest /\ (a.k = "tree" => Proper(a.t) /\ a.t = b.t /\ a.sent = b.sent)
BadBrk(q, o) ==
  IF q.strict /\ Stray(Symb(q.text)) THEN Clause("unbalanced bracket is reported", o.err)
  ELSE LET e == TLCEval(ExpectBrk(q)) IN
   Clause("no error", ~o.err)
   \cup Clause("number of trees", Len(SelectSeq(o.items, LAMBDA x : x.k = "tree")) = Len(SelectSeq(e, LAMBDA x : x.k = "tree")))
   \cup Clause("trees and texts", Len(o.items) = Len(e) /\ \A n \in DOMAIN e : SameItem(o.items[n], e[n]))
\* blocks with annotated trees; kept: the complete blocks
BadBlocks(q, o) ==
  IF q.strict /\ q.malformed THEN Clause("malformed nesting is reported", o.err)
  ELSE Clause("no error", ~o.err)
   \cup Clause("number of trees", Len(o.items) = Len(q.want))
   \cup Clause("trees", Len(o.items) = Len(q.want) => \A n \in DOMAIN q.want :
       LET w == q.want[n] x == o.items[n] IN
        IF w.k = "text" THEN x.k = "text" /\ x.rest = w.rest
        ELSE x.k = "tree" /\ Proper(x.t) /\ x.sent = w.sent /\ x.rest = w.rest
             /\ EdgesBag(Norm(x.t)) = EdgesBag(Norm(IF q.fmt = "export" THEN Remain("export", w.t) ELSE w.t)))
Bad(r) == IF r.err # "" THEN {"exception"} ELSE
  IF r.inp.op = "brk" THEN BadBrk(r.inp, r.out) ELSE BadBlocks(r.inp, r.out)
TCheck == Report(Bad(Rec))
=============================================================================
