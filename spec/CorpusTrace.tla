---------------------------- MODULE CorpusTrace ----------------------------
EXTENDS Corpus, Formats, TraceBase
PU == INSTANCE Punct
HE == INSTANCE Heads
\* what reader options do to a sentence: root label, punctuation, head rules
WithRoot(q, t) == IF q.root = "" \/ t.l = q.root THEN t ELSE [l |-> q.root, i |-> -1, k |-> <<t>>]
Empties(q, t) == IF ~q.noempty THEN {} ELSE UNION {Yield(x) : x \in {y \in NodeSet(t) : IsPre(y) /\ y.l = "-NONE-"}}
Without(q, t, sent) == IF Empties(q, t) = {} THEN [t |-> t, sent |-> sent] ELSE PU!Drop(t, sent, Empties(q, t))
WithPunct(q, t, sent) == IF q.punct = "" \/ sent = <<>> THEN [t |-> t, sent |-> sent] ELSE PU!Apply(q.punct, t, sent)
RECURSIVE Fields(_, _)
Fields(q, t) == IF t.i >= 0 THEN t
  ELSE [l |-> t.l, i |-> -1, u |-> q.up[t.l], b |-> q.up[t.l], m |-> q.up[t.l], h |-> FALSE, f |-> "", fs |-> <<>>,
        k |-> [n \in DOMAIN t.k |-> Fields(q, t.k[n])]]
RECURSIVE HeadsIn(_, _)
\* index of the head child of each constituent in order of the tree
HeadsIn(t, lines) == IF t.i >= 0 THEN <<>>
  ELSE <<IF t.k = <<>> \/ t.k[1].i >= 0 THEN 0 ELSE HE!HeadIdx(t, lines)>> \o Cat([n \in DOMAIN t.k |-> HeadsIn(t.k[n], lines)])
HeadMarks(q, t) == IF q.lines = <<>> THEN <<>> ELSE HeadsIn(TLCEval(Fields(q, t)), q.lines)
\* the sentences in the order of the corpus: records [s, f] of sentence and file
FileOf(q, f) == CHOOSE n \in DOMAIN q.files : <<q.files[n].dir, q.files[n].name>> = f
InOrder(q) == LET o == Ordered([n \in DOMAIN q.files |-> <<q.files[n].dir, q.files[n].name>>]) IN
  Cat([n \in DOMAIN o |-> LET f == q.files[FileOf(q, o[n])] IN [m \in DOMAIN f.sents |-> [s |-> f.sents[m], f |-> f]]])
NoExt(s) == SubSeq(s, 1, Len(s) - 4)
KeyAt(q, so, n) == LET s == q.sents[so[n].s] IN
  CASE q.fmt \in {"bracket", "discbracket"} -> ToString(n)
    [] q.fmt \in {"export", "tiger"} -> s.key
    [] q.fmt = "alpino" -> so[n].f.last \o "/" \o NoExt(so[n].f.name)
    [] q.fmt = "ftb" -> Stem(so[n].f.name) \o "-" \o s.key
CmtAt(q, s) == IF q.fmt \in {"export", "discbracket", "alpino"} /\ s.cmt # "" THEN s.cmt ELSE "None"
\* what the corpus contains, up to the first sentence that cannot be read
Items(q) == LET so == TLCEval(InOrder(q)) IN TLCEval([n \in DOMAIN so |-> LET s == q.sents[so[n].s] IN
  LET w == TLCEval(IF s.bad \/ q.op = "conv" THEN [t |-> s.t, sent |-> s.sent] ELSE LET e == TLCEval(Without(q, s.t, s.sent)) IN WithPunct(q, WithRoot(q, e.t), e.sent)) IN
  [key |-> KeyAt(q, so, n), t |-> w.t, sent |-> w.sent, hd |-> IF q.op = "conv" THEN <<>> ELSE HeadMarks(q, w.t),
   cmt |-> CmtAt(q, s), blk |-> s.blk, bad |-> s.bad]])
BadAt(q, its) == LET b == {n \in DOMAIN its : its[n].bad \/ (q.fmt = "export" /\ \E m \in 1..(n - 1) : its[m].key = its[n].key)}
  IN IF b = {} THEN Len(its) + 1 ELSE Min(b)
\* the answer to each request; state: [pos, to, dead] for each iterator
NewIt(r) == [pos |-> 0, from |-> r.a, to |-> r.b, dead |-> FALSE]
\* an iterator asked for cnt items; sentences before the start are read, too
RECURSIVE Take(_, _, _, _, _)
Take(it, cnt, its, bad, got) ==
  IF it.dead \/ cnt = 0 THEN [items |-> got, err |-> FALSE, it |-> it]
  ELSE IF it.pos < it.from THEN
     IF bad <= Min({it.from, Len(its)}) THEN [items |-> got, err |-> TRUE, it |-> [it EXCEPT !.dead = TRUE]]
     ELSE Take([it EXCEPT !.pos = it.from], cnt, its, bad, got)
  ELSE IF it.pos >= Len(its) \/ (it.to >= 0 /\ it.pos >= it.to) THEN [items |-> got, err |-> FALSE, it |-> [it EXCEPT !.dead = TRUE]]
  ELSE IF bad = it.pos + 1 THEN [items |-> got, err |-> TRUE, it |-> [it EXCEPT !.dead = TRUE]]
  ELSE Take([it EXCEPT !.pos = @ + 1], cnt - 1, its, bad, Append(got, its[it.pos + 1]))
AnsNext(it, cnt, its, bad) == Take(it, cnt, its, bad, <<>>)
AsDict(its, f(_)) == [n \in DOMAIN its |-> <<its[n].key, f(its[n])>>]
PreLab(t, n) == LET p == CHOOSE y \in NodeSet(t) : IsPre(y) /\ y.k[1].i = n IN p.l
Tagged(x) == [n \in DOMAIN x.sent |-> <<x.sent[n], PreLab(x.t, n - 1)>>]
ItemOK(q, a, b) == /\ a.key = b.key /\ a.t = b.t /\ a.sent = b.sent /\ a.cmt = b.cmt
                   /\ a.blk = b.blk /\ a.hd = b.hd
Answer(q, r, o, its, bad, st) == LET dict == r.op \in {"trees", "sents", "tagged", "blocks"} IN
  IF dict THEN (IF bad <= Len(its) THEN (IF o.err THEN {} ELSE {"error expected"})
      ELSE IF o.err THEN {"exception: " \o r.op}
      ELSE Clause(r.op, o.res = (CASE r.op = "trees" -> AsDict(its, LAMBDA x : x.t) [] r.op = "sents" -> AsDict(its, LAMBDA x : x.sent)
                          [] r.op = "tagged" -> AsDict(its, Tagged) [] r.op = "blocks" -> AsDict(its, LAMBDA x : x.blk))))
  ELSE IF r.op = "iter" THEN {}
  ELSE LET w == AnsNext(st[r.k], r.cnt, its, bad) IN
    Clause("number of items", Len(o.items) = Len(w.items))
    \cup Clause("items", \A n \in 1..Min({Len(o.items), Len(w.items)}) : ItemOK(q, o.items[n], w.items[n]))
    \cup Clause("error", o.err = w.err)
RECURSIVE Play(_, _, _, _, _, _)
Play(q, o, n, its, bad, st) == IF n > Len(q.script) THEN {}
  ELSE LET r == q.script[n] b == Answer(q, r, o[n], its, bad, st) IN
   IF b # {} THEN b
   ELSE Play(q, o, n + 1, its, bad, IF r.op = "iter" THEN Append(st, NewIt(r))
          ELSE IF r.op = "next" THEN [st EXCEPT ![r.k] = AnsNext(@, r.cnt, its, bad).it] ELSE st)
BadAccess(q, o) == LET its == Items(q) IN Play(q, o.res, 1, its, BadAt(q, its), <<>>)
-----------------------------------------------------------------------------
\* conversion on the command line: slice, maximum length, numbering, format
NoLongTail(q, its) == LET s == Slice(its, q.a, q.b) IN
  IF q.maxlen < 0 THEN s ELSE SelectSeq(s, LAMBDA x : Len(x.sent) <= q.maxlen)
OutKey(q, xs, n) == CASE q.out \in {"bracket", "discbracket"} -> ToString(n)
    [] q.out = "export" -> IF q.renumber THEN ToString(n) ELSE xs[n].key
BadConv(q, o) == LET xs == TLCEval(NoLongTail(q, Items(q))) IN
  IF q.out = "tokens" THEN Clause("text", o.text = Cat([n \in DOMAIN xs |-> <<Join(xs[n].sent, " ")>>]))
  ELSE IF q.out = "wordpos" THEN Clause("text", o.text = Cat([n \in DOMAIN xs |-> LET w == Tagged(xs[n]) IN
        <<Join(TLCEval([m \in DOMAIN w |-> w[m][1] \o "/" \o w[m][2]]), " ")>>]))
  ELSE Clause("number of sentences", Len(o.items) = Len(xs))
    \cup Clause("sentences", \A n \in 1..Min({Len(o.items), Len(xs)}) :
        o.items[n].t = xs[n].t /\ o.items[n].sent = xs[n].sent)
    \cup Clause("identifiers", \A n \in 1..Min({Len(o.items), Len(xs)}) : o.items[n].key = OutKey(q, xs, n))
    \cup Clause("comments", q.out # "bracket" => \A n \in 1..Min({Len(o.items), Len(xs)}) : o.items[n].cmt = xs[n].cmt)
-----------------------------------------------------------------------------
Bad(r) == IF r.err # "" THEN {"exception"}
  ELSE IF r.inp.op = "conv" THEN BadConv(r.inp, r.out) ELSE BadAccess(r.inp, r.out)
TCheck == Report(Bad(Rec))
=============================================================================
