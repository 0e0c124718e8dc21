------------------------------- MODULE Refine -------------------------------
(* Stage 2 of the relay: plies of the inner part of the laminate change their *)
(* orientation, one by one or, in balanced laminates, by pairs +theta/-theta, *)
(* to get closer to in-plane targets. Ply counts stay compliant.               *)
EXTENDS Relay

(* ---- lamination parameters ------------------------------------------------*)
(* in-plane lamination parameters, scaled by sc; <<cos2, cos4, sin2, sin4>>   *)
(* sc divides 10^6 *)
ScaledPair(p, den, sc) ==   \* (p[1] + p[2] * sqrt 3) / den, times sc
  ((p[1] * sc) + p[2] * (1732051 \div (1000000 \div sc))) \div den

SumTrig(ss, k) ==
  <<SumTo(Len(ss), LAMBDA i : TwoTrig(ss[i])[k][1]),
    SumTo(Len(ss), LAMBDA i : TwoTrig(ss[i])[k][2])>>
LampamA(ss, k, sc) == ScaledPair(SumTrig(ss, k), 2 * Len(ss), sc)
(* in the region of Abdalla, up to rounding *)
AbdallaNear(c, plies, slack) ==
  LET x == LampamA(plies, 1, 1000)
      y == LampamA(plies, 2, 1000)
  IN /\ c.q * c.q + c.q * y - 2 * x * x >= -slack
     /\ y <= c.q + slack \div 500

(* ---- which plies may change ------------------------------------------------*)
(* the inner pA percent of the laminate, never the plies of damage tolerance  *)
(* nor the middle ply                                                          *)
OuterFixed(c, n, pA) == Max2(FixedPlies(c), ((100 - pA) * n) \div 200)
Region(c, n, pA) ==
  LET f == OuterFixed(c, n, pA) IN
  {i \in 1..n : /\ i > f /\ i <= n - f
                /\ c.sym => i <= n \div 2}
InRegion(c, ss, queue, pA, a) ==
  Cardinality({i \in Region(c, Len(ss), pA) : ss[i] = a}) + Count(queue, a)

(* ---- elementary changes ---------------------------------------------------*)
NonNeg(c) == {a \in Range(c.angles) : a >= 0}
(* the plies taken out or put in by a change, as a sequence *)
Pair(a) == IF a \in {0, 90} THEN <<a, a>> ELSE <<a, -a>>
Moves(c) ==
  IF c.bal THEN {<<Pair(m[1]), Pair(m[2])>> : m \in {x \in NonNeg(c) \X NonNeg(c) : x[1] # x[2]}}
  ELSE {<<<<m[1]>>, <<m[2]>>>> : m \in {x \in Range(c.angles) \X Range(c.angles) : x[1] # x[2]}}
(* balanced laminates: at the end, one ply 0 <-> 90 *)
Swaps(c) == IF c.bal THEN {<<<<0>>, <<90>>>>, <<<<90>>, <<0>>>>} ELSE {}
Available(c, ss, queue, pA, m) ==
  \A i \in DOMAIN m[1] : InRegion(c, ss, queue, pA, m[1][i]) >= Count(m[1], m[1][i])
Double(c, s) == IF c.sym THEN s \o s ELSE s
(* ply count of an orientation after a change *)
AfterCount(c, ss, queue, m, a) ==
  LET w == IF c.sym THEN 2 ELSE 1
  IN Count(ss, a) + w * (Count(queue, a) - Count(m[1], a) + Count(m[2], a))
TenAfter(c, ss, queue, m) ==
  LET f(a) == AfterCount(c, ss, queue, m, a)
  IN ~c.ten \/ TenOK(c.p, f(0), f(45), f(90), f(-45), Len(ss))

(* one step of the refinement: from (s, q) to (s2, q2) *)
Changed(s, s2, R) == {i \in R : s[i] # s2[i]}
Depth(n, i) == AbsI(2 * i - (n + 1))
(* innermost plies of an orientation change first; plies of the queue are the *)
(* innermost ones                                                              *)
InnermostFirst(c, pA, s, q, s2, q2) ==
  LET n == Len(s)
      R == Region(c, n, pA)
      D == Changed(s, s2, R)
  IN \A i \in D :
       /\ \A j \in R \ D : s[j] = s[i] => Depth(n, j) >= Depth(n, i)
       /\ Count(q2, s[i]) = 0
IsMove(c, s, q, s2, q2, m) ==
  LET A == Range(c.angles)
      f(a) == AfterCount(c, s, q, m, a)
      w == IF c.sym THEN 2 ELSE 1
  IN \A a \in A : Count(s2, a) + w * Count(q2, a) = f(a)

(* ---- the objective of the refinement --------------------------------------*)
(* lp, target: scaled by sc; coef: small integers                              *)
ObjA(coef, lp, target) == SumTo(4, LAMBDA k : coef[k] * (lp[k] - target[k]) * (lp[k] - target[k]))
LampamAfter(c, ss, queue, m, sc) ==
  LET w == IF c.sym THEN 2 ELSE 1
      plies == Placed(ss, queue, c.sym)
      d(k) == LET a == SumTrig(plies, k)  r == SumTrig(m[1], k)  g == SumTrig(m[2], k)
              IN <<a[1] + w * (g[1] - r[1]), a[2] + w * (g[2] - r[2])>>
  IN [k \in 1..4 |-> ScaledPair(d(k), 2 * Len(ss), sc)]
=============================================================================
