---------------------------- MODULE TraceSearch -----------------------------
(* Replays what the prunings of the two beam searches did with partial        *)
(* lay-ups, against Search.                                                     *)
EXTENDS Search, TraceBase

(* op "prune": c, n (plies of the laminate), bot, top, level; r = the kept    *)
(* orientations ([] when the branch is dropped)                                *)
Prune(t, e) ==
  LET c == t.c
      kept == Range(e.r)
  IN Need(e.level = NextLevel(c.sym, t.n, e.bot, e.top), "harness: level")
     \cup Need(kept \subseteq Range(c.angles),
               "pruning invents an orientation")
     \cup Need(Distinct(e.r), "pruning repeats an orientation")
     \cup IF ~PartialOK(c, t.n, e.bot, e.top, FALSE) THEN {}
          ELSE Need(kept \subseteq May(c, t.n, e.bot, e.top),
                    "pruning keeps an orientation that breaks a guideline")
               \cup Need(Must(c, t.n, e.bot, e.top) \subseteq kept,
                         "pruning discards an admissible orientation")
Judge(t, e) ==
  CASE e.op \in {"prune_bella", "prune_layla"} -> Returned(e, Prune(t, e))
    [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Trace[tid], Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
