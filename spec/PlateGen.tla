------------------------------ MODULE PlateGen -------------------------------
(* A plate is loaded and laid up ply by ply. The plates are printed as cases.   *)
EXTENDS Plate, Json
CONSTANTS Angs, MaxPlies, Loads, U, EmitCases
VARIABLES ss, p, modes
vars == <<ss, p, modes>>
Plates == {[lx |-> a, ly |-> b, nx |-> l[1], ny |-> l[2]] : a \in 1..2, b \in 1..2, l \in Loads}
Init == ss = <<>> /\ p \in Plates /\ modes \in {1, 3}
Lay(a) == Len(ss) < MaxPlies /\ ss' = Append(ss, a) /\ UNCHANGED <<p, modes>>
Next == \E a \in Angs : Lay(a)
Spec == Init /\ [][Next]_vars

X == Lampam(ss, 9)
Y == Lampam(ss, 10)
F == OfStack(U, ss, p, modes)
Laid0 == ss # <<>>
Turned(s) == [i \in DOMAIN s |-> IF s[i] <= 0 THEN s[i] + 90 ELSE s[i] - 90]
Tol == F \div 100 + 3
(* upside down, mirrored, turned with the plate: the same factor *)
Upside == Laid0 => OfStack(U, RevSeq(ss), p, modes) = F
MirrorPlate == Laid0 => Near(OfStack(U, [i \in DOMAIN ss |-> Neg(ss[i])], p, modes), F, Tol)
TurnPlate == Laid0 =>
  Near(OfStack(U, [i \in DOMAIN ss |-> IF Turned(ss)[i] = -90 THEN 90 ELSE Turned(ss)[i]],
               [lx |-> p.ly, ly |-> p.lx, nx |-> p.ny, ny |-> p.nx], modes), F, Tol)
(* tension counts as compression; more load, less factor; more modes, less factor *)
Signs == Laid0 => OfStack(U, ss, [p EXCEPT !.nx = -@, !.ny = -@], modes) = F
Loaded == Laid0 => Near(2 * OfStack(U, ss, [p EXCEPT !.nx = 2 * @, !.ny = 2 * @], modes), F, 2)
MoreModes == Laid0 => OfStack(U, ss, p, modes + 1) <= F
(* stiffnesses of a material that exists are positive *)
Stable == Laid0 => D11(U, X, Y) > 0 /\ D22(U, X, Y) > 0 /\ D66(U, Y) > 0 /\ F > 0
Emit == (EmitCases /\ Laid0) => PrintT("GEN|" \o ToJson([ss |-> ss, p |-> p, modes |-> modes]))
=============================================================================
