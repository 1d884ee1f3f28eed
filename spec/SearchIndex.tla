----------------------------- MODULE SearchIndex -----------------------------
(* Indexes of files stored on disk.  The trees of a file are stored in      *)
(* terms of the numbering of a vocabulary, which belongs to the set of      *)
(* files that were opened together.  Stored indexes are used again when     *)
(* their modification times show that they are current.  Several actions    *)
(* may happen in the same tick of the clock.                                *)
EXTENDS Integers, FiniteSets
CONSTANTS NF, MaxTime, MaxVersion,
  PerSet  \* does every set of files have its own vocabulary?
Files == 1..NF
Sets == SUBSET Files \ {{}}
None == [time |-> -1, gen |-> -1, ver |-> -1]
VARIABLES now, gen,
  file,   \* version of contents and modification time
  ct,     \* stored trees: version of the contents, vocabulary, time
  vocab,  \* per key: generation and time
  used    \* what was used by the last search: for each file <<version used, version, vocabulary of the trees, vocabulary>>
vars == <<now, gen, file, ct, vocab, used>>
Key(S) == IF PerSet THEN S ELSE Files
Init == /\ now = 1 /\ gen = 0 /\ file = [f \in Files |-> [ver |-> 0, time |-> 0]]
        /\ ct = [f \in Files |-> None] /\ vocab = [S \in Sets |-> None] /\ used = {}
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<gen, file, ct, vocab, used>>
Write == \E f \in Files : /\ file[f].ver < MaxVersion
  /\ file' = [file EXCEPT ![f] = [ver |-> @.ver + 1, time |-> now]] /\ UNCHANGED <<now, gen, ct, vocab, used>>
Fresh(S) == /\ vocab[Key(S)] # None
            /\ \A f \in S : ct[f] # None /\ vocab[Key(S)].time > ct[f].time /\ ct[f].time > file[f].time
Used(S, c, v) == {<<c[f].ver, file[f].ver, c[f].gen, v[Key(S)].gen>> : f \in S}
Reuse == \E S \in Sets : /\ Fresh(S) /\ used' = Used(S, ct, vocab) /\ UNCHANGED <<now, gen, file, ct, vocab>>
\* trees are stored first, and the vocabulary after it, possibly some time later
Create == \E S \in Sets, d \in {0, 1} : /\ ~Fresh(S) /\ now + d <= MaxTime
  /\ gen' = gen + 1 /\ now' = now + d
  /\ ct' = [f \in Files |-> IF f \in S THEN [ver |-> file[f].ver, gen |-> gen', time |-> now] ELSE ct[f]]
  /\ vocab' = [vocab EXCEPT ![Key(S)] = [gen |-> gen', time |-> now', ver |-> 0]]
  /\ used' = Used(S, ct', vocab') /\ UNCHANGED file
Next == Tick \/ Write \/ Reuse \/ Create
Bound == gen <= MaxTime + 2
\* checked right after the search, when file has not changed
Current == \A u \in used : u[1] = u[2] /\ u[3] = u[4]
=============================================================================
