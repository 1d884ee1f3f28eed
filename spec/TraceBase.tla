----------------------------- MODULE TraceBase -----------------------------
(* Scaffolding shared by all trace specifications.  A trace is a sequence   *)
(* of records [inp, out, err] logged from the real implementation.  Each    *)
(* record is consumed by one step; the extending module defines             *)
(*   TCheck == Report(Bad(Rec))                                             *)
(* where Bad(r) is the set of names of the clauses of the specification     *)
(* that the record violates (a total verdict: {} means accepted).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceStart == atoi(IOEnv.START)
TInit == i = TraceStart
TNext == i < Len(Trace) /\ i' = i + 1
Rec == Trace[i]
Report(b) == b = {} \/ PrintT(<<"BAD", i, b>>)
\* [n -> clause] helper: the names of the clauses that are false.
Clause(name, holds) == IF holds THEN {} ELSE {name}
============================================================================
