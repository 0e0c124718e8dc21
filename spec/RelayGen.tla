------------------------------ MODULE RelayGen ------------------------------
(* Stage 1 of the relay as a state machine. Walker goes over the slots from   *)
(* the surfaces to the mid-plane and takes plies over as long as the rules    *)
(* can still be met by what is left; then the remaining slots are opened and  *)
(* the queue is filled. TLC explores every input laminate of a given size.    *)
EXTENDS Relay, TLC, Json
CONSTANTS Cfg, N, EmitCases
C == Cfg
ASet == Range(C.angles)
S == Slots(C.sym, N)
VARIABLES ss,     \* the input: its plies are revealed when the walker sees them
          k,      \* slots taken over
          phase   \* "walk", "fill", "done"
vars == <<ss, k, phase>>
Blank == [i \in 1..N |-> Unknown]
Put(s, i, a) == LET p == SlotPos(C.sym, N, i) IN
  IF C.sym THEN [s EXCEPT ![p] = a, ![N + 1 - p] = a] ELSE [s EXCEPT ![p] = a]

Init == /\ ss \in (IF HasMiddle(C.sym, N)
                   THEN {[Blank EXCEPT ![Middle(N)] = m] : m \in {0, 90}}
                   ELSE {Blank})
        /\ k = 0 /\ phase = "walk"
Possible(s, j) == Needs(C, N, LAMBDA a : SlotCount(s, C.sym, j, a)) <= S - j
Take(a) == /\ phase = "walk" /\ k < S
           /\ ss' = Put(ss, k + 1, a)
           /\ Possible(ss', k + 1)
           /\ k' = k + 1 /\ phase' = phase
Stop(a) == /\ phase = "walk" /\ k < S
           /\ ~Possible(Put(ss, k + 1, a), k + 1)
           /\ phase' = "fill" /\ UNCHANGED <<ss, k>>
Fill(a) == /\ phase = "fill" /\ k < S
           /\ ss' = Put(ss, k + 1, a)
           /\ Possible(ss', k + 1)
           /\ k' = k + 1 /\ phase' = phase
Finish == k = S /\ phase # "done" /\ phase' = "done" /\ UNCHANGED <<ss, k>>
Next == Finish \/ \E a \in ASet : Take(a) \/ Stop(a) \/ Fill(a)
Spec == Init /\ [][Next]_vars

(* the relay can always go on *)
NoDeadEnd == Feasible(C, N) /\ phase # "done" => ENABLED Next
AlwaysPossible == Feasible(C, N) => Possible(ss, k)
DoneRight == phase = "done" => TenMet(C, ss, <<>>) /\ BalMet(C, ss, <<>>)
(* Needs is right: what it calls possible is what some filling achieves       *)
RECURSIVE PutAll(_, _, _)
PutAll(s, j, plies) == IF plies = <<>> THEN s
  ELSE PutAll(Put(s, j + 1, Head(plies)), j + 1, Tail(plies))
Met(s) == TenMet(C, s, <<>>) /\ BalMet(C, s, <<>>)
NeedsRight == S - k <= 3 =>
  LET reachable == \E f \in [1..(S - k) -> ASet] : Met(PutAll(ss, k, f))
  IN /\ Possible(ss, k) => reachable
     /\ ~HasMiddle(C.sym, N) /\ reachable => Possible(ss, k)
(* beyond some slot nothing can be kept *)
Monotone == [][phase = "walk" /\ k' > k => Possible(ss, k)]_vars
Emit == EmitCases /\ phase = "walk" /\ k = S => PrintT("GEN|" \o ToJson(ss))
=============================================================================
