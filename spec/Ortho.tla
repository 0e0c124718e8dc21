--------------------------------- MODULE Ortho ---------------------------------
(* The twelve in-plane orthotropy parameters of a laminate: how much the normal   *)
(* and shear terms of its in-plane stiffness (six ratios) and of its in-plane     *)
(* compliance (six ratios) are coupled. Material invariants are integers and      *)
(* lamination parameters are halves, so that every ratio is a ratio of integers.  *)
EXTENDS Integers, Sequences, FiniteSets

OAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN OAbs(a) ELSE Gcd(b, a % OAbs(b))

(* a stiffness matrix (xx, xy, yy, ss, xs, ys), times four; l: four lamination    *)
(* parameters in halves (cos 2, cos 4, sin 2, sin 4); z: 1 for the matrices of    *)
(* extension and bending, 0 for the one of coupling                               *)
Stiff(U, l, z) ==
  [xx |-> 4 * U[1] * z + 2 * U[2] * l[1] + 2 * U[3] * l[2],
   xy |-> 4 * U[4] * z - 2 * U[3] * l[2],
   yy |-> 4 * U[1] * z - 2 * U[2] * l[1] + 2 * U[3] * l[2],
   ss |-> 4 * U[5] * z - 2 * U[3] * l[2],
   xs |-> U[2] * l[3] + 2 * U[3] * l[4],
   ys |-> U[2] * l[3] - 2 * U[3] * l[4]]
ExtA(U, l) == Stiff(U, SubSeq(l, 1, 4), 1)      (* 4 A  *)
CouB(U, l) == Stiff(U, SubSeq(l, 5, 8), 0)      (* 16 B *)
BenD(U, l) == Stiff(U, SubSeq(l, 9, 12), 1)     (* 48 D *)

(* the matrix of the cofactors, which a symmetric inverse is proportional to      *)
Adj(m) ==
  [xx |-> m.yy * m.ss - m.ys * m.ys,
   xy |-> m.xs * m.ys - m.xy * m.ss,
   yy |-> m.xx * m.ss - m.xs * m.xs,
   ss |-> m.xx * m.yy - m.xy * m.xy,
   xs |-> m.xy * m.ys - m.yy * m.xs,
   ys |-> m.xy * m.xs - m.xx * m.ys]
Det(m) == LET a == Adj(m) IN m.xx * a.xx + m.xy * a.xy + m.xs * a.xs
Row(m, i) == CASE i = 1 -> <<m.xx, m.xy, m.xs>> [] i = 2 -> <<m.xy, m.yy, m.ys>>
               [] i = 3 -> <<m.xs, m.ys, m.ss>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
(* B E B for symmetric B and E *)
Sandwich(B, E) ==
  LET be(i) == [j \in 1..3 |-> Dot(Row(B, i), Row(E, j))]
      el(i, j) == Dot(be(i), Row(B, j))
  IN [xx |-> el(1, 1), xy |-> el(1, 2), yy |-> el(2, 2), ss |-> el(3, 3),
      xs |-> el(1, 3), ys |-> el(2, 3)]
Fields == {"xx", "xy", "yy", "ss", "xs", "ys"}
Reduced(m) ==
  LET g == Gcd(Gcd(Gcd(m.xx, m.xy), Gcd(m.yy, m.ss)), Gcd(m.xs, m.ys))
      dv(x) == IF x < 0 THEN -((-x) \div g) ELSE x \div g
  IN IF g = 0 THEN m ELSE [f \in Fields |-> dv(m[f])]
Within(m, b) == \A f \in Fields : OAbs(m[f]) <= b
Zero(m) == \A f \in Fields : m[f] = 0

(* the in-plane stiffness left when bending is free: A - B D^-1 B, to a factor    *)
Left(U, l) ==
  LET D == Reduced(BenD(U, l))
      g == IF Zero(D) THEN 1 ELSE
             LET d == BenD(U, l) f == CHOOSE x \in Fields : D[x] # 0 IN d[f] \div D[f]
      A == ExtA(U, l)
      S == Sandwich(CouB(U, l), Adj(D))
  IN [f \in Fields |-> 4 * g * Det(D) * A[f] - 3 * S[f]]
(* compliance, to a factor *)
Compl(U, l, sym) == IF sym THEN Adj(ExtA(U, l)) ELSE Adj(Reduced(Left(U, l)))
Exact(U, l, sym) == \/ sym
                    \/ /\ Det(Reduced(BenD(U, l))) # 0
                       /\ Within(Reduced(Left(U, l)), 10000)

(* six ratios of a matrix: each as <<numerator, denominator>> *)
Ratios(m) == <<<<m.xs, m.xx>>, <<m.xs, m.xy>>, <<m.xs, m.ss>>,
               <<m.ys, m.xy>>, <<m.ys, m.yy>>, <<m.ys, m.ss>>>>
Parameters(U, l, sym) == Ratios(ExtA(U, l)) \o Ratios(Compl(U, l, sym))

(* the absolute value of a ratio in millionths, cut off at a thousand *)
RECURSIVE Places(_, _, _)
Places(r, d, k) == IF k = 0 THEN 0
                   ELSE ((r * 10) \div d) * (10^(k - 1)) + Places((r * 10) % d, d, k - 1)
Big == 1000 * 1000000
Value(q) == LET n == OAbs(q[1]) d == OAbs(q[2]) IN
            IF n \div d >= 1000 THEN Big
            ELSE (n \div d) * 1000000 + Places(n % d, d, 6)
Near(a, b) == OAbs(a - b) <= 4 + (b \div 500000)

(* what becomes of the lamination parameters of a laminate *)
Scale12(l, k) == [i \in 1..12 |-> k[i] * l[i]]
Mirror(l) == Scale12(l, <<1, 1, -1, -1, 1, 1, -1, -1, 1, 1, -1, -1>>)
Turn90(l) == Scale12(l, <<-1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>)
TurnOver(l) == Scale12(l, <<1, 1, 1, 1, -1, -1, -1, -1, 1, 1, 1, 1>>)
Uncoupled(l) == Scale12(l, <<1, 1, 1, 1, 0, 0, 0, 0, 1, 1, 1, 1>>)
(* where a turn of ninety degrees takes each parameter *)
Turned == <<5, 4, 6, 2, 1, 3, 11, 10, 12, 8, 7, 9>>
================================================================================
