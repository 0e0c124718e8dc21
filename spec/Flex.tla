-------------------------------- MODULE Flex --------------------------------
(* Stage 4 of the relay: the plies of a compliant laminate are permuted to get*)
(* closer to out-of-plane targets: swaps of blocks of plies (same orientation,*)
(* same thickness) and shifts of one ply. Nothing else changes.                *)
EXTENDS Refine

(* ---- out-of-plane lamination parameters -----------------------------------*)
Cube(x) == x * x * x
(* second moment of area of ply i (n^3/4 times the normalised one) *)
ZWeight(n, i) == (Cube(2 * i - n) - Cube(2 * i - 2 - n))
SumZ(ss, k) ==
  <<SumTo(Len(ss), LAMBDA i : ZWeight(Len(ss), i) * TwoTrig(ss[i])[k][1]),
    SumTo(Len(ss), LAMBDA i : ZWeight(Len(ss), i) * TwoTrig(ss[i])[k][2])>>
(* weights sum up to 2 n^3; TwoTrig is twice the cosine; scaled by sc <= 5000 *)
ScaledZ(p, n, sc) ==
  LET den == 4 * n * n * n
      \* quotient and remainder, to stay within 32 bits
      part(x) == ((x * (sc \div 50)) \div den) * 50
                 + ((((x * (sc \div 50)) % den) * 50 + den \div 2) \div den)
  IN part(p[1]) + ((part(p[2]) * 17320 + 5000) \div 10000)
LampamD(ss, k, sc) == ScaledZ(SumZ(ss, k), Len(ss), sc)
LampamDs(ss, sc) == [k \in 1..4 |-> LampamD(ss, k, sc)]
ObjD(coef, target, ss) == ObjA(coef, LampamDs(ss, 5000), target)

(* ---- plies that never move ------------------------------------------------*)
Movable(c, n) ==
  LET f == FixedPlies(c) IN
  {i \in 1..n : /\ i > f /\ i <= n - f
                /\ ~(HasMiddle(c.sym, n) /\ i = Middle(n))}
Half(c, n) == IF c.sym THEN {i \in Movable(c, n) : i <= n \div 2} ELSE Movable(c, n)
Mirror(c, s) ==    \* repeats in the upper half what the lower half says
  IF ~c.sym THEN s
  ELSE [i \in DOMAIN s |-> IF 2 * i > Len(s) + 1 THEN s[Len(s) + 1 - i] ELSE s[i]]

(* ---- swaps of blocks ------------------------------------------------------*)
(* maximal runs of equal plies, in one half when symmetric; the run that      *)
(* touches the middle ply and equals it belongs to the middle                  *)
Span(c, n) == IF c.sym THEN n \div 2 ELSE n
RunEnd(ss, hi, i) ==
  CHOOSE j \in i..hi : /\ \A k \in i..j : ss[k] = ss[i]
                       /\ j < hi => ss[j + 1] # ss[i]
Blocks(c, ss) ==
  LET n == Len(ss)  hi == Span(c, n)
      starts == {i \in 1..hi : i = 1 \/ ss[i - 1] # ss[i]}
      all == {<<i, RunEnd(ss, hi, i)>> : i \in starts}
  IN {b \in all : /\ b[1]..b[2] \subseteq Movable(c, n)
                  /\ ~(HasMiddle(c.sym, n) /\ b[2] = hi /\ ss[hi] = ss[Middle(n)])}
SwapBlocks(c, ss, a, b) ==
  Mirror(c, [i \in DOMAIN ss |->
     IF i \in a[1]..a[2] THEN ss[b[1]]
     ELSE IF i \in b[1]..b[2] THEN ss[a[1]] ELSE ss[i]])
SameSize(a, b) == a[2] - a[1] = b[2] - b[1]
(* a block keeps its neighbours apart: no merger with an adjacent block;      *)
(* adjacent blocks are not swapped                                             *)
Apart(c, ss, s2, b) ==
  LET n == Len(ss) IN
  /\ b[1] > 1 => s2[b[1] - 1] # s2[b[1]]
  /\ (b[2] < Span(c, n) \/ HasMiddle(c.sym, n)) => s2[b[2] + 1] # s2[b[2]]
BlockSwaps(c, ss) ==
  {p \in Blocks(c, ss) \X Blocks(c, ss) :
     /\ p[1][2] + 1 < p[2][1] /\ SameSize(p[1], p[2])
     /\ ss[p[1][1]] # ss[p[2][1]]
     /\ LET s2 == SwapBlocks(c, ss, p[1], p[2])
        IN Apart(c, ss, s2, p[1]) /\ Apart(c, ss, s2, p[2])}

(* ---- shifts of one ply ----------------------------------------------------*)
(* the ply at j goes to i, nearer to the surface; those between move inwards  *)
Shift(c, ss, i, j) ==
  Mirror(c, [k \in DOMAIN ss |->
     IF k = i THEN ss[j]
     ELSE IF i < k /\ k <= j THEN ss[k - 1]
     ELSE IF j <= k /\ k < i THEN ss[k + 1] ELSE ss[k]])
(* order in which plies are visited: outermost first *)
Visit(c, n) ==
  LET f == FixedPlies(c) IN
  IF c.sym THEN [i \in 1..Max2(0, (n \div 2) - f) |-> i + f]
  ELSE [i \in 1..Max2(0, n - 2 * f) |-> SlotPos(FALSE, n, i + 2 * f)]
(* width: how many plies further in may be brought out *)
Shifts(c, n, i, width) ==
  {<<Visit(c, n)[i], Visit(c, n)[j]>> :
     j \in (i + 1)..Min2(Len(Visit(c, n)), i + width)}

(* all neighbours compatible, the surface plies included *)
Strict(c, ss) == /\ c.diso => Diso(ss, c.delta)
                 /\ c.contig => Contig(ss, c.n_contig)

(* ---- what the stage guarantees --------------------------------------------*)
Permuted(c, s, s2) ==
  LET n == Len(s) IN
  /\ Len(s2) = n
  /\ SameBag(s, s2)
  /\ c.sym => Symmetric(s2)
  /\ \A i \in 1..n : i \notin Movable(c, n) => s2[i] = s[i]
=============================================================================
