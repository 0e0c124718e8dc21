------------------------------- MODULE Angles -------------------------------
(* Fibre orientations in whole degrees, their distance modulo 180 degrees,  *)
(* exact trigonometry for multiples of 15 degrees in (a + b*sqrt(3))/2, and *)
(* exact comparison helpers for reals recorded as scaled integers.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
AbsI(a)    == IF a < 0 THEN -a ELSE a

(* smallest rotation between two fibre directions, 0..90 *)
Turn(a, b) == LET d == (a - b) % 180 IN Min2(d, 180 - d)

Neg(a) == IF a = 90 THEN 90 ELSE -a

(* twice cos(x) for x a multiple of 30 degrees, as <<a, b>> = a + b*sqrt(3) *)
TwoCos(x) ==
  LET t == x % 360 IN
  CASE t = 0   -> <<2, 0>>
    [] t = 30  -> <<0, 1>>
    [] t = 60  -> <<1, 0>>
    [] t = 90  -> <<0, 0>>
    [] t = 120 -> <<-1, 0>>
    [] t = 150 -> <<0, -1>>
    [] t = 180 -> <<-2, 0>>
    [] t = 210 -> <<0, -1>>
    [] t = 240 -> <<-1, 0>>
    [] t = 270 -> <<0, 0>>
    [] t = 300 -> <<1, 0>>
    [] t = 330 -> <<0, 1>>
TwoSin(x) == TwoCos(x - 90)

(* cos 2t, cos 4t, sin 2t, sin 4t of a multiple of 15 degrees (doubled) *)
TwoTrig(angle) == << TwoCos(2 * angle), TwoCos(4 * angle),
                     TwoSin(2 * angle), TwoSin(4 * angle) >>

(* floor of num/den in units of 1/scale; den > 0; no 32-bit overflow as    *)
(* long as den*scale and the result fit                                     *)
Scaled(num, den, scale) == (num \div den) * scale
                           + ((num % den) * scale) \div den
Near(x, y, tol) == AbsI(x - y) <= tol
(* a recorded real r (times scale) equals num/den *)
IsRat(r, num, den, scale) == Near(r, Scaled(num, den, scale), 2)

Count(ss, a) == Cardinality({i \in DOMAIN ss : ss[i] = a})
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
SumTo(n, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, 1..n)
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range(s) \cup Range(t) : Count(s, x) = Count(t, x)
Slice(s, a, b) == SubSeq(s, a, b)
LastN(s, n) == SubSeq(s, Max2(1, Len(s) - n + 1), Len(s))
FirstN(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
=============================================================================
