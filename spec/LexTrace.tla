------------------------------ MODULE LexTrace ------------------------------
(* Signatures and unknown word models of the real code. *)
EXTENDS TraceBase, Lexicon
BadSig(q, o) == Clause("signature", o.sig = Sig(q.m, q.w, q.loc, ToSet(q.lex)))
BadModel(q, o) ==
  LET m == Model(q) tr == Train(q, m) rules == LexRules(q, m, tr) known == Known(rules)
      gram == ToSet(o.gram) tags == {x[1] : x \in m.tags}
      test == [s \in DOMAIN q.test |-> [n \in DOMAIN q.test[s] |-> TestWord(q, m, known, q.test[s][n], n - 1)]]
  IN Clause("lexicon", ToSet(o.lex) = m.lex)
     \cup Clause("closed", ToSet(o.closed) = m.closed)
     \cup Clause("sigs", ToSet(o.sigs) = m.sigs)
     \cup Clause("words", ToSet(o.words) = m.words)
     \cup Clause("tags", ToSet(o.tags) = m.tags)
     \cup Clause("wordtags", {<<<<x[1], x[2]>>, x[3]>> : x \in ToSet(o.wordtags)} = m.wordtags)
     \cup Clause("train", o.train = tr)
     \cup Clause("smooth", ToSet(o.extra) = Extra(m))
     \cup Clause("rules", gram = rules /\ Len(o.gram) = Cardinality(gram))
     \cup Clause("known", ToSet(o.known) = known)
     \cup Clause("pclosed", ToSet(o.pclosed) = m.closed)
     \cup Clause("test", o.test = test)
     \* every token can be tagged, and by every tag if nothing is known about it
     \cup Clause("covered", \A s \in DOMAIN o.test : Len(o.test[s]) = Len(q.test[s]) /\ \A n \in DOMAIN o.test[s] : \E x \in gram : x[2] = o.test[s][n] /\ x[3] > 0)
     \cup Clause("anytag", \A t \in tags : \E x \in gram : x[1] = t /\ x[2] = UNK /\ x[3] >= 1)
     \cup Clause("kept", \A s \in DOMAIN o.test : \A n \in DOMAIN o.test[s] : LET e == q.test[s][n] IN
            e \in known /\ ~IsNumber(e) => o.test[s][n] = e)
Bad(r) == IF r.err # "" THEN {"error"} ELSE IF r.inp.op = "sig" THEN BadSig(r.inp, r.out) ELSE BadModel(r.inp, r.out)
TCheck == Report(Bad(Rec))
TSpec == TInit /\ [][TNext]_i
=============================================================================
