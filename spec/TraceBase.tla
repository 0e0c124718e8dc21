----------------------------- MODULE TraceBase ------------------------------
(* Replays recorded histories of the implementation. One initial state per   *)
(* recorded trace; each transition consumes one recorded step and names       *)
(* every clause of the specification the step violates.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos
tvars == <<tid, pos>>

Step == Trace[tid].steps[pos + 1]
More == pos < Len(Trace[tid].steps)

Need(cond, name) == IF cond THEN {} ELSE {name}
Say(S) == \A cl \in S :
  PrintT("FAIL|" \o ToString(tid) \o "|" \o ToString(pos + 1) \o "|" \o cl)

(* a call that was expected to return: its outcome must be a well-formed     *)
(* result, judged by clauses ok                                               *)
Returned(e, ok) ==
  CASE e.k = "ok"  -> ok
    [] e.k = "exc" -> {"the call raised an exception"}
    [] e.k = "odd" -> {"the result is malformed"}
(* a call that must be refused *)
Refused(e) == Need(e.k = "exc", "an invalid input was accepted")
=============================================================================
