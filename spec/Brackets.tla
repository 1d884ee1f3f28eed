------------------------------ MODULE Brackets ------------------------------
(* Bracketed notation: a parser as a state machine over characters, and     *)
(* printing.                                                                *)
EXTENDS Trees
Chr(s, n) == SubSeq(s, n, n)
White == {" ", "\n", "\t"}
(* tokens: "(" ++ label, ")", or a word                                     *)
RECURSIVE WordEnd(_, _)
WordEnd(s, n) == IF n > Len(s) \/ Chr(s, n) \in White \cup {"(", ")"} THEN n ELSE WordEnd(s, n + 1)
RECURSIVE SkipWhite(_, _)
SkipWhite(s, n) == IF n <= Len(s) /\ Chr(s, n) \in White THEN SkipWhite(s, n + 1) ELSE n
RECURSIVE Tokens(_, _)
Tokens(s, from) == LET n == SkipWhite(s, from) IN
  IF n > Len(s) THEN <<>>
  ELSE IF Chr(s, n) = ")" THEN <<<<")", "">>>> \o Tokens(s, n + 1)
  ELSE IF Chr(s, n) = "(" THEN
     LET a == SkipWhite(s, n + 1) b == WordEnd(s, a) IN
     <<<<"(", SubSeq(s, a, b - 1)>>>> \o Tokens(s, b)
  ELSE LET b == WordEnd(s, n) IN <<<<"w", SubSeq(s, n, b - 1)>>>> \o Tokens(s, b)
\* the state: a stack of open constituents; terminals are numbered and their
\* words collected
NoTree == [ok |-> FALSE]
Put(st, x) == [st EXCEPT !.stack[Len(st.stack)].k = Append(@, x)]
Shift(st, tok) ==
  IF tok[1] = "(" THEN IF st.stack = <<>> /\ st.done # <<>> THEN [st EXCEPT !.err = TRUE]
                       ELSE [st EXCEPT !.stack = Append(@, [l |-> tok[2], k |-> <<>>])]
  ELSE IF st.stack = <<>> THEN [st EXCEPT !.err = TRUE]
  ELSE IF tok[1] = "w" THEN [Put(st, Term(Len(st.words))) EXCEPT !.words = Append(@, tok[2])]
  ELSE LET top == st.stack[Len(st.stack)] t == Node(top.l, top.k)
           rest == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
       IN IF rest.stack = <<>> THEN [rest EXCEPT !.done = <<t>>] ELSE Put(rest, t)
State0 == [stack |-> <<>>, done |-> <<>>, words |-> <<>>, err |-> FALSE]
RECURSIVE Run(_, _, _)
Run(st, toks, n) == IF st.err \/ n > Len(toks) THEN st
                    ELSE Run(TLCEval(Shift(st, toks[n])), toks, n + 1)
Parse(s) == LET e == Run(State0, TLCEval(Tokens(s, 1)), 1) IN
  IF e.err \/ e.stack # <<>> \/ e.done = <<>> THEN NoTree
  ELSE [ok |-> TRUE, t |-> e.done[1], words |-> e.words]
\* printing; w(i) is the text of terminal i
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE Flat(_, _)
Flat(t, w) == IF IsTerm(t) THEN w[t.i + 1]
  ELSE "(" \o t.l \o " " \o Join(TLCEval([n \in DOMAIN t.k |-> Flat(t.k[n], w)]), " ") \o ")"
RECURSIVE Escape(_, _)
Escape(s, n) == IF n > Len(s) THEN "" ELSE
  (CASE Chr(s, n) = "(" -> "#LRB#" [] Chr(s, n) = ")" -> "#RRB#" [] OTHER -> Chr(s, n)) \o Escape(s, n + 1)
\* None stands for a missing word
EscTok(s) == IF s = "None" THEN "" ELSE Escape(s, 1)
Bracketed(t, sent) == Flat(t, TLCEval([n \in DOMAIN sent |-> EscTok(sent[n])])) \o "\n"
DiscBracketed(t, sent) == Flat(t, TLCEval([n \in DOMAIN sent |->
     ToString(n - 1) \o "=" \o EscTok(sent[n])])) \o "\n"
=============================================================================
