--------------------------------- MODULE Tools ---------------------------------
(* The small tools: enumeration of subsets, subset sums, sorting according to a  *)
(* given order, element-wise maxima, displays.                                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

(* subsets of the positions of a sequence, as bits: those of the binary numbers  *)
Bits(n) == [1..n -> {0, 1}]
Nr(t) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, t)
Ones(n) == [i \in 1..n |-> 1]
Zeros(n) == [i \in 1..n |-> 0]
(* the next subset and its number; -1 before the first and after the last        *)
NextSubset(t, rank) ==
  LET n == Len(t) IN
  IF rank = -1 THEN [t |-> t, rank |-> 0]
  ELSE IF t = Ones(n) THEN [t |-> Zeros(n), rank |-> -1]
  ELSE [t |-> CHOOSE u \in Bits(n) : Nr(u) = Nr(t) + 1, rank |-> rank + 1]

SumOf(t, v) == FoldLeft(LAMBDA a, i : a + t[i] * v[i], 0, [i \in DOMAIN v |-> i])
Solutions(v, s) == {t \in Bits(Len(v)) : SumOf(t, v) = s}
(* sums that can be formed, as a table from 0 to s: the largest position used is *)
(* that of the value given                                                       *)
Formed(v, s) == {SumOf(t, v) : t \in Bits(Len(v))} \cap 0..s

(* backing up: the last one before a position (positions counted from 0)         *)
BackUp(u, told) == LET S == {i \in 0..(told - 1) : u[i + 1] = 1} IN
                   IF S = {} THEN -1 ELSE Max(S)

(* sorted as the order tells, the others after it, each part in ascending order  *)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
FirstAt(order, x) == Min({i \in DOMAIN order : order[i] = x} \cup {Len(order) + 1})
SortedBy(s, order) ==
  \A i, j \in DOMAIN s : i < j =>
     LET a == FirstAt(order, s[i])  b == FirstAt(order, s[j]) IN
     a < b \/ (a = b /\ s[i] <= s[j])
Same(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

(* element-wise maxima; a single number counts for every element                 *)
Maxima(a, b) ==
  LET n == IF Len(a) = 1 THEN Len(b) ELSE Len(a)
      at(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
  IN [i \in 1..n |-> IF at(a, i) > at(b, i) THEN at(a, i) ELSE at(b, i)]

(* lists in lines of at most n elements; an empty list takes no line             *)
Lines(s, n) == [k \in 1..((Len(s) + n - 1) \div n) |->
                  SubSeq(s, (k - 1) * n + 1, IF k * n > Len(s) THEN Len(s) ELSE k * n)]

(* orientations are the same half a turn away: the least angle between two, and  *)
(* the one to turn by, ninety degrees counting as positive                       *)
AbsOf(x) == IF x < 0 THEN -x ELSE x
TurnBy(a, b) == CHOOSE d \in (-89)..90 : ((b - a - d) % 180) = 0
(* a ply counted from the nearer surface; its depth below the other one          *)
FromSurface(i, n) == IF 2 * i < n THEN i ELSE n - 1 - i
(* twice the distance of two plies from each other regarding the mid-surface, or *)
(* of one from the mid-surface (j = -1), times the number of plies over two      *)
Apart(i, j, n) == IF j = -1 THEN AbsOf(2 * FromSurface(i, n) - n)
                  ELSE 2 * AbsOf(FromSurface(i, n) - FromSurface(j, n))
=============================================================================
