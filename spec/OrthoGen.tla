-------------------------------- MODULE OrthoGen --------------------------------
(* A laminate is mirrored, turned by ninety degrees, turned over; then its plies  *)
(* may be put in a symmetric order. Its orthotropy parameters follow.             *)
EXTENDS Ortho, Json, TLC
CONSTANTS Materials, APart, BPart, DPart, EmitCases
VARIABLES U, l, turns, start
vars == <<U, l, turns, start>>
Init == /\ U \in Materials
        /\ \E a \in APart, b \in BPart, d \in DPart : l = a \o b \o d
        /\ Exact(U, l, FALSE)
        /\ turns = 0
        /\ start = l
Mirrored == l' = Mirror(l) /\ UNCHANGED <<U, turns, start>>
Turned90 == l' = Turn90(l) /\ turns' = 1 - turns /\ UNCHANGED <<U, start>>
Over == l' = TurnOver(l) /\ UNCHANGED <<U, turns, start>>
Next == Mirrored \/ Turned90 \/ Over
Spec == Init /\ [][Next]_vars

Known(q) == q[2] # 0
Same(q, p) == (Known(q) <=> Known(p)) /\ (Known(q) => Value(q) = Value(p))
P == Parameters(U, l, FALSE)
FollowsTurns ==
  LET Q == Parameters(U, start, FALSE) IN
  \A i \in 1..12 : Same(P[i], Q[IF turns = 1 THEN Turned[i] ELSE i])
SymmetricAlike ==
  LET k == Uncoupled(l) S == Parameters(U, k, TRUE) Q == Parameters(U, k, FALSE) IN
  Det(Reduced(BenD(U, k))) # 0 => \A i \in 1..12 : Same(S[i], Q[i])
(* a laminate without in-plane coupling of normal and shear terms has none left   *)
(* when it does not couple in-plane and bending terms                             *)
BalancedNone ==
  (l[3] = 0 /\ l[4] = 0) =>
    /\ \A i \in 1..6 : P[i][1] = 0
    /\ l = Uncoupled(l) => \A i \in 7..12 : P[i][1] = 0
(* the inverse: product of a matrix and its cofactors *)
Inverse ==
  LET A == ExtA(U, l) a == Adj(A) IN
  /\ A.xx * a.xx + A.xy * a.xy + A.xs * a.xs = Det(A)
  /\ A.xx * a.xy + A.xy * a.yy + A.xs * a.ys = 0
  /\ A.xx * a.xs + A.xy * a.ys + A.xs * a.ss = 0
  /\ A.xs * a.xs + A.ys * a.ys + A.ss * a.ss = Det(A)
Emit == EmitCases => PrintT("GEN|" \o ToJson([u |-> U, l |-> l]))
================================================================================
