-------------------------------- MODULE Plate --------------------------------
(* Buckling of a simply supported orthotropic plate under compression in two   *)
(* directions. Stiffnesses in 1/30 GPa; the factor of a mode is given without   *)
(* the dimension of the thickness (times 12 / (pi^2 h^3)), in thousandths.      *)
(* u: the five invariants of the material in 1/30 GPa; x, y: the out-of-plane   *)
(* lamination parameters cos 2t and cos 4t in 1/10000; sides 1 or 2, loads small *)
EXTENDS Penalties

D11(u, x, y) == u[1] + (u[2] * x + u[3] * y) \div 10000
D22(u, x, y) == u[1] + (u[3] * y - u[2] * x) \div 10000
D12(u, y) == u[4] - (u[3] * y) \div 10000
D66(u, y) == u[5] - (u[3] * y) \div 10000
(* p: lx, ly, nx, ny *)
Mode(u, x, y, p, m, n) ==
  LET g == IF p.lx = p.ly THEN p.lx ELSE 1
      X == p.lx \div g  Y == p.ly \div g
      a == m * m * Y * Y  b == n * n * X * X
      k == D11(u, x, y) * a * a + 2 * (D12(u, y) + 2 * D66(u, y)) * a * b
           + D22(u, x, y) * b * b
      load == a * AbsI(p.nx) + b * AbsI(p.ny)
      den == 30 * X * Y * X * Y * load * g * g
  IN IF k \div den > 1000000 THEN 1000000000 ELSE Scaled(k, den, 1000)
(* the critical factor: the least over the modes tested *)
Critical(u, x, y, p, modes) ==
  Min({Mode(u, x, y, p, m, n) : m \in 1..modes, n \in 1..modes})
OfStack(u, s, p, modes) == Critical(u, Lampam(s, 9), Lampam(s, 10), p, modes)
(* stiffnesses are rounded to 1/30 GPa *)
CloseTo(r, want) == Near(r, want, want \div 80 + 4)
(* anisotropy of bending and twisting: squares of gamma and delta, in 1/1000;   *)
(* v, w: the lamination parameters sin 2t and sin 4t in 1/10000                  *)
D16(u, v, w) == (u[2] * v + 2 * u[3] * w) \div 20000
D26(u, v, w) == (u[2] * v - 2 * u[3] * w) \div 20000
WholeRoot(x) == CHOOSE k \in 0..(x + 1) : k * k <= x /\ (k + 1) * (k + 1) > x
Gamma(d16, d11, d22) == Scaled(d16 * d16, d11 * WholeRoot(d11 * d22), 1000)
OfTwist(u, s) ==
  LET x == Lampam(s, 9)  y == Lampam(s, 10)  v == Lampam(s, 11)  w == Lampam(s, 12)
      a == D11(u, x, y)  b == D22(u, x, y)
  IN <<Gamma(D16(u, v, w), a, b), Gamma(D26(u, v, w), b, a)>>
=============================================================================
