------------------------------ MODULE LaylaGen ------------------------------
(* LAYLA as a state machine, for some sizes of laminates, partitions, targets *)
(* and limits: levels of the search, the choice at the end of a run, and the   *)
(* runs that follow.                                                           *)
EXTENDS Layla, TLC, Json
CONSTANTS Cfg, Sizes, Targets, Settings, Runs
C == Cfg
ASet == Range(C.angles)
VARIABLES size, tgt, set, run, prev, beam, done
vars == <<size, tgt, set, run, prev, beam, done>>
(* Sizes[i]: n, g (groups); Settings[i]: weights, limits and penalties *)
N == Sizes[size].n
G == Sizes[size].g
Q == [n |-> N, tg |-> Targets[tgt]] @@ Settings[set]
Init == /\ size \in DOMAIN Sizes /\ tgt \in DOMAIN Targets /\ set \in DOMAIN Settings
        /\ run = 1 /\ prev = <<>> /\ beam = LayRoot /\ done = FALSE
AtEnd == beam.r = Turns(C.sym, N)
Descend == /\ ~done /\ ~AtEnd /\ beam.may # {}
           /\ beam' = LayLevel(C, Q, G, prev, beam)
           /\ UNCHANGED <<size, tgt, set, run, prev, done>>
(* the best lay-up, when known for sure *)
Scores == {<<LayEstimate(C, Q, G, beam.r - 1, prev, x), x>> : x \in beam.may}
Best == LaySurvive(Scores, beam.sure, LayBlur(C, Q), 1)
Chosen == GuideOf(C, N, CHOOSE x \in Best.sure : TRUE)
Again == /\ ~done /\ AtEnd /\ Cardinality(Best.may) = 1 /\ Best.sure # {}
         /\ run < Runs /\ Chosen # prev
         /\ prev' = Chosen /\ run' = run + 1 /\ beam' = LayRoot
         /\ UNCHANGED <<size, tgt, set, done>>
Finish == /\ ~done
          /\ \/ beam.may = {}
             \/ AtEnd /\ (Cardinality(Best.may) # 1 \/ Best.sure = {})
             \/ AtEnd /\ Cardinality(Best.may) = 1 /\ Best.sure # {}
                /\ (run = Runs \/ Chosen = prev)
          /\ done' = TRUE
          /\ UNCHANGED <<size, tgt, set, run, prev, beam>>
Next == Descend \/ Again \/ Finish
Spec == Init /\ [][Next]_vars

Settled == beam.sure \subseteq beam.may
Legal == \A x \in beam.may :
  /\ Len(x[1]) + Len(x[2]) = beam.r
  /\ beam.r > 0 => PartialOK(C, N, x[1], x[2], FALSE)
(* every ply is laid once, from the surfaces inwards *)
TurnOf == [r \in 0..(Turns(C.sym, N) - 1) |-> RankPos(C.sym, N, r)]
Order == /\ Cardinality(Range(TurnOf)) = Turns(C.sym, N)
         /\ Range(TurnOf) \subseteq 1..N
         /\ EndOf(G, Len(G)) = Turns(C.sym, N)
         /\ beam.r > 0 => \A x \in beam.may :
              {y[1] : y \in NodePlies(C, N, x)} =
              {y[1] : y \in Mirrored(C, N, {<<TurnOf[r], 0>> : r \in 0..(beam.r - 1)})}
(* what is assumed never overlaps what is laid, and completes the laminate     *)
Disjoint == beam.r > 0 /\ prev # <<>> => \A x \in beam.may :
  LET pl == {y[1] : y \in NodePlies(C, N, x)}
      ext == {y[1] : y \in Assumed(C, N, G, beam.r - 1, prev)}
  IN /\ pl \cap ext = {}
     /\ EndsGroup(G, beam.r - 1) => pl \cup ext = 1..N
(* only one lay-up leaves a group *)
OneEach == beam.r > 0 /\ ~AtEnd /\ EndsGroup(G, beam.r - 1) =>
  Cardinality(beam.sure) <= 1
AllOf(n) ==
  {s \in (IF C.sym THEN {Whole(TRUE, n, h, <<>>) : h \in [1..HalfUp(n) -> ASet]}
          ELSE [1..n -> ASet]) : Compliant(C, n, s)}
Everything == [k \in DOMAIN Sizes |-> AllOf(Sizes[k].n)]
All == Everything[size]
Free == Len(G) = 1 /\ Q.locf >= 100000 /\ Q.glob >= 100000 /\ Q.globp >= 100000
Complete3 == AtEnd /\ Free => {GuideOf(C, N, x) : x \in beam.sure} = All
(* at the end, the estimate is the value of the laminate *)
Exact == AtEnd => \A y \in Scores :
  Near(y[1], LayWorth(C, Q, GuideOf(C, N, y[2])), LayBlur(C, Q))
Optimal == AtEnd /\ Free /\ Cardinality(Best.may) = 1 /\ Best.sure # {} =>
  LET mine == LayWorth(C, Q, Chosen) - 2 * LayBlur(C, Q)
  IN \A s \in All : LayWorth(C, Q, s) >= mine
(* with one group nothing is assumed: the second run repeats the first          *)
Repeats == AtEnd /\ Len(G) = 1 /\ run = 2 /\ Cardinality(Best.may) = 1 /\ Best.sure # {} =>
  Chosen = prev
(* with free limits, assuming the previous plies, only the last group differs   *)
(* in what it can do: the last group always finds the best completion           *)
Completion == AtEnd /\ Q.locf >= 100000 /\ Q.globp >= 100000 /\ Q.glob >= 100000
   /\ Cardinality(Best.may) = 1 /\ Best.sure # {} =>
  LET k == IF Len(G) = 1 THEN 0 ELSE EndOf(G, Len(G) - 1)
      fixed == {TurnOf[r] : r \in 0..(k - 1)}
      ss == Chosen
      mine == LayWorth(C, Q, ss) - 2 * LayBlur(C, Q)
      same(s) == \A p \in fixed : s[p] = ss[p]
  IN \A s \in All : same(s) => LayWorth(C, Q, s) >= mine
Emit == done => PrintT("GEN|" \o ToJson([size |-> size, tgt |-> tgt, set |-> set,
                                         run |-> run]))
=============================================================================
