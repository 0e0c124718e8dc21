----------------------------- MODULE Guidelines -----------------------------
(* The lay-up design guidelines as definitions on stacking sequences         *)
(* (sequences of fibre orientations in degrees, outermost ply first).        *)
EXTENDS Angles

(* ---- contiguity: at most n adjacent plies share a direction ------------- *)
WindowBad(ss, i, n) == \A k \in 1..n : ss[i] = ss[i + k]
ContigBad(ss, n) ==
  IF n < 2 THEN {} ELSE {i \in 1..(Len(ss) - n) : WindowBad(ss, i, n)}
Contig(ss, n) == ContigBad(ss, n) = {}

(* ---- disorientation: adjacent plies turn by at most delta --------------- *)
DisoBad(ss, delta) == {i \in 1..(Len(ss) - 1) : Turn(ss[i], ss[i+1]) > delta}
Diso(ss, delta) == DisoBad(ss, delta) = {}

(* Rules 2 and 3 of damage tolerance fix two plies at each surface; the turn *)
(* inside those pairs is exempt from the disorientation/contiguity rules.    *)
TwoPlyRule(c) == c.dam_tol /\ c.dam_tol_rule \in {2, 3}
Inner(ss) == SubSeq(ss, 2, Len(ss) - 1)
Core(ss, c) == IF TwoPlyRule(c) THEN Inner(ss) ELSE ss

(* ---- damage tolerance --------------------------------------------------- *)
Pm45 == {45, -45}
DamTol(ss, c) ==
  IF ~c.dam_tol THEN TRUE
  ELSE LET n == Len(ss) IN
    CASE c.dam_tol_rule = 1 -> ss[1] \in Pm45 /\ ss[n] \in Pm45
      [] c.dam_tol_rule = 2 -> /\ {ss[1], ss[2], ss[n], ss[n-1]} \subseteq Pm45
                               /\ ss[1] = -ss[2] /\ ss[n] = -ss[n-1]
      [] c.dam_tol_rule = 3 -> {ss[1], ss[2], ss[n], ss[n-1]} \subseteq Pm45

(* ---- balance ------------------------------------------------------------ *)
Balanced(ss) == \A a \in Range(ss) :
                   a \notin {0, 90} => Count(ss, a) = Count(ss, -a)
(* excess of +theta over -theta plies, summed over theta; counts is a        *)
(* function from the allowed angles to ply counts                            *)
BalExcess(counts) ==
  SumOver({a \in DOMAIN counts : a > 0 /\ a < 90},
         LAMBDA a : AbsI(counts[a] - counts[-a]))

(* ---- 10% rule on ply counts (doubled counts: a half ply may occur) ------ *)
(* n0, n45, n90, n135 and the total N are doubled counts; percentages are    *)
(* whole numbers                                                             *)
Short(pc, n, N) == Max2(0, pc * N - 100 * n)
TenShort(p, n0, n45, n90, n135, N) ==
    Short(p.p0, n0, N) + Short(p.p45, n45, N) + Short(p.p90, n90, N)
  + Short(p.p135, n135, N) + Short(p.p45_135, n45 + n135, N)
TenOK(p, n0, n45, n90, n135, N) == TenShort(p, n0, n45, n90, n135, N) = 0
TenOKRelaxed(p, n0, n45, n90, n135, N, eq45, eq090) ==
  /\ IF eq090 THEN Short(p.p0 + p.p90, n0 + n90, N) = 0
              ELSE Short(p.p0, n0, N) = 0 /\ Short(p.p90, n90, N) = 0
  /\ IF eq45 THEN Short(p.p45 + p.p135, n45 + n135, N) = 0
             ELSE Short(p.p45, n45, N) = 0 /\ Short(p.p135, n135, N) = 0
  /\ Short(p.p45_135, n45 + n135, N) = 0

(* the counted plies of a stack with unknown plies (666) and a queue of the  *)
(* orientations still to be placed (for symmetric stacks: per half)          *)
QueueCount(ss, queue, sym, a) ==
  IF sym THEN LET h == Len(ss) \div 2 IN
                2 * (Count(SubSeq(ss, 1, h), a) + Count(queue, a))
                + (IF Len(ss) % 2 = 1 /\ ss[h + 1] = a THEN 1 ELSE 0)
         ELSE Count(ss, a) + Count(queue, a)

(* ---- 10% rule on lamination parameters (Abdalla) ------------------------ *)
(* q = 1 - 4p; the admissible in-plane parameters lie between the parabola   *)
(* q*y = 2x^2 - q^2 and the line y = q. Here q, x, y are scaled by 1000.     *)
AbdallaOK(q, x, y) == /\ q * q + q * y - 2 * x * x >= 0
                      /\ y <= q
(* signed margins, to stay away from rounding at the boundary *)
AbdallaClear(q, x, y) == /\ AbsI(q * q + q * y - 2 * x * x) > 10
                         /\ q # y

(* ---- symmetry ----------------------------------------------------------- *)
Symmetric(ss) == \A i \in 1..Len(ss) : ss[i] = ss[Len(ss) + 1 - i]
=============================================================================
