------------------------------ MODULE FlexGen -------------------------------
(* Stage 4 as a state machine: from any compliant laminate, admissible swaps  *)
(* of blocks and shifts of plies in any order. The moves of each kind are     *)
(* exactly those of Flex; orders stay compliant, plies and surfaces stay.     *)
EXTENDS Flex, TLC, Json
CONSTANTS Cfg, N, EmitCases
C == Cfg
ASet == Range(C.angles)
VARIABLES ss, start
vars == <<ss, start>>

Laminates ==
  {s \in [1..N -> ASet] : C.sym => \A i \in 1..N : s[i] = s[N + 1 - i]}
Init == \E s \in Laminates :
          /\ Strict(C, s)
          /\ HasMiddle(C.sym, N) => s[Middle(N)] \in {0, 90}
          /\ DamTol(s, C)
          /\ ss = s /\ start = s
SwapStep == \E p \in BlockSwaps(C, ss) :
              LET s2 == SwapBlocks(C, ss, p[1], p[2]) IN
              /\ (C.diso => Diso(s2, C.delta))
              /\ ss' = s2 /\ UNCHANGED start
ShiftStep == \E i \in 1..Len(Visit(C, N)) : \E m \in Shifts(C, N, i, N) :
              LET s2 == Shift(C, ss, m[1], m[2]) IN
              /\ Strict(C, s2)
              /\ ss' = s2 /\ UNCHANGED start
Next == SwapStep \/ ShiftStep
Spec == Init /\ [][Next]_vars
Kept == Permuted(C, start, ss)
(* contiguity need not be tested for swaps: the runs keep their lengths *)
StillStrict == Strict(C, ss)
StillDamTol == DamTol(ss, C)
(* normalised second moments of area sum up to 1, so |xi| <= 1 *)
Weights == SumTo(N, LAMBDA i : ZWeight(N, i)) = 2 * N * N * N
Bounded == \A k \in 1..4 : LampamD(ss, k, 5000) \in -5005..5005
Emit == EmitCases /\ ss = start => PrintT("GEN|" \o ToJson([ss |-> ss]))
=============================================================================
