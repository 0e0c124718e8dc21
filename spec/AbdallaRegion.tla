---------------------------- MODULE AbdallaRegion ---------------------------
(* The lamination-parameter region of the 10% rule of Abdalla: design facts.  *)
EXTENDS Guidelines, TLC
CONSTANTS Q, Grid
VARIABLES x, y, u, v
vars == <<x, y, u, v>>
Lattice == {k \in (-1000)..1000 : k % Grid = 0}
Init == x = -1000 /\ y = -1000 /\ u = 0 /\ v = 0
Move(dx, dy) == /\ x + dx \in Lattice /\ y + dy \in Lattice
                /\ x' = x + dx /\ y' = y + dy /\ u' = -x' /\ v' = y'
Next == Move(Grid, 0) \/ Move(0, Grid)
Spec == Init /\ [][Next]_vars
Symmetric0 == AbdallaOK(Q, x, y) = AbdallaOK(Q, -x, y)
CornersIn == AbdallaOK(Q, Q, Q) /\ AbdallaOK(Q, -Q, Q) /\ AbdallaOK(Q, 0, -Q)
             /\ ~AbdallaOK(Q, 0, -Q - 1) /\ ~AbdallaOK(Q, 0, Q + 1)
             /\ ~AbdallaOK(Q, Q + 1, Q)
Bounded == AbdallaOK(Q, x, y) => AbsI(x) <= Q /\ AbsI(y) <= Q
(* mid-points with the mirrored point and with the bottom vertex stay inside *)
ConvexMid == AbdallaOK(Q, x, y) =>
   AbdallaOK(Q, 0, y) /\ AbdallaOK(Q, x \div 2, (y - Q) \div 2 + 1)
=============================================================================
