----------------------------- MODULE TraceHistory -----------------------------
(* Recorded histories of calls. objs: values of the objects at the start; alone:  *)
(* results of the calls, each made as the only one;                               *)
(* step: f (the call), r (its result), after (values of the objects, which the     *)
(* results given so far, still in use, have joined), with the                      *)
(* values as numbers that are equal iff the values are.                           *)
EXTENDS TraceBase, History
VARIABLES memo, store
hvars == <<tid, pos, memo, store>>
Judge(e) ==
  IF e.k = "odd" THEN {"the result is malformed"}
  ELSE Need(Touched(store, e.after) = {}, "the call leaves what it is given and what is in use as it was")
       \cup Need(Agrees(memo, e.f, e.r), "the same call gives the same result")
TraceInit == tid \in 1..Len(Trace) /\ pos = 0 /\ memo = Trace[tid].alone /\ store = Trace[tid].objs
TraceNext == /\ More
             /\ Say(Judge(Step))
             /\ memo' = Learn(memo, Step.f, Step.r)
             /\ store' = Step.after
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_hvars
=============================================================================
