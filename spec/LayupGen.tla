------------------------------ MODULE LayupGen ------------------------------
(* The lay-up table: a stack is laid ply by ply and every guideline is        *)
(* tracked incrementally, as an inspector next to the table would. The        *)
(* invariants state that the incremental tracker agrees with the definitions  *)
(* in Guidelines on the whole stack; every reachable stack is printed as a    *)
(* case for the implementation.                                               *)
EXTENDS Guidelines, TLC, Json
CONSTANTS AnglesList, MaxPlies, Delta, EmitCases
ASet == {AnglesList[i] : i \in DOMAIN AnglesList}

VARIABLES ss,      \* plies laid so far
          run,     \* length of the current block of equal plies
          worst,   \* longest block so far
          turn,    \* largest turn between adjacent plies so far
          excess   \* per angle ply counts
vars == <<ss, run, worst, turn, excess>>

Init == /\ ss = <<>> /\ run = 0 /\ worst = 0 /\ turn = 0
        /\ excess = [a \in ASet |-> 0]
Lay(a) ==
  /\ Len(ss) < MaxPlies
  /\ ss' = Append(ss, a)
  /\ run' = IF ss # <<>> /\ ss[Len(ss)] = a THEN run + 1 ELSE 1
  /\ worst' = Max2(worst, run')
  /\ turn' = IF ss = <<>> THEN 0 ELSE Max2(turn, Turn(ss[Len(ss)], a))
  /\ excess' = [excess EXCEPT ![a] = @ + 1]
Next == \E a \in ASet : Lay(a)
Spec == Init /\ [][Next]_vars

ContigAgrees == \A n \in 2..6 : Contig(ss, n) <=> worst <= n
DisoAgrees == \A d \in {15, 30, 45, 60, 89, 90} : Diso(ss, d) <=> turn <= d
BalAgrees == Balanced(ss) <=> BalExcess(excess) = 0
CountsAgree == \A a \in ASet : excess[a] = Count(ss, a)
(* violations are never undone by laying more plies *)
Monotone == [][\A n \in 2..6 : /\ ContigBad(ss, n) \subseteq ContigBad(ss', n)
                               /\ DisoBad(ss, Delta) \subseteq DisoBad(ss', Delta)]_vars
(* the rules do not depend on the side the stack is read from *)
Mirror == LET m == RevSeq(ss) IN
  /\ \A n \in 2..4 : Contig(m, n) = Contig(ss, n)
  /\ Diso(m, Delta) = Diso(ss, Delta)
  /\ Balanced(m) = Balanced(ss)
  /\ Len(ss) >= 2 => \A r \in 1..3 :
       DamTol(m, [dam_tol |-> TRUE, dam_tol_rule |-> r])
         = DamTol(ss, [dam_tol |-> TRUE, dam_tol_rule |-> r])
(* rule 2 implies rule 3 implies rule 1 *)
DamTolOrder == Len(ss) >= 2 =>
  LET d(r) == DamTol(ss, [dam_tol |-> TRUE, dam_tol_rule |-> r])
  IN (d(2) => d(3)) /\ (d(3) => d(1))
TenMonotone == \A p \in {10, 25} :
  LET P == [p0 |-> p, p45 |-> p, p90 |-> p, p135 |-> p, p45_135 |-> 0]
      Q == [p0 |-> p, p45 |-> 0, p90 |-> p, p135 |-> 0, p45_135 |-> 2 * p]
      ok(R) == TenOK(R, Count(ss, 0), Count(ss, 45), Count(ss, 90),
                     Count(ss, -45), Len(ss))
  IN ok(P) => ok(Q)
Emit == EmitCases => PrintT("GEN|" \o ToJson(ss))
=============================================================================
