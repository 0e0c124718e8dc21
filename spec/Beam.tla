-------------------------------- MODULE Beam --------------------------------
(* The search of BELLA for the orientations of the plies of the guide stack:  *)
(* level by level, each partial lay-up gets every admissible next ply; the    *)
(* best partial lay-ups survive. A partial lay-up of a structure is judged by *)
(* the distance of the lamination parameters of the plies laid so far to the  *)
(* targets, panel by panel.                                                    *)
EXTENDS Search, Rework

(* ---- targets and weights --------------------------------------------------*)
Usual(c) == Range(c.angles) = {0, 45, -45, 90}
FineTarget(c, t) ==
  [k \in 1..12 |->
     IF (c.sym /\ k \in 5..8) \/ (c.bal /\ k \in {3, 4}) \/ (c.oopo /\ k \in {11, 12})
     THEN 0 ELSE t[k]]
(* up to a common factor; co: coefficient of out-of-plane orthotropy *)
FineWeights(c, w, co) ==
  LET cut == [k \in 1..12 |->
        IF \/ c.sym /\ k \in 5..8
           \/ Usual(c) /\ k \in {4, 8, 12}
           \/ c.bal /\ k \in {3, 4}
           \/ c.oopo /\ k \in {11, 12}
        THEN 0 ELSE w[k]]
      used == Cardinality({k \in 1..12 : cut[k] # 0})
      sum == SumTo(12, LAMBDA k : cut[k])
  IN IF ~c.oopo THEN cut
     ELSE [k \in 1..12 |-> IF k = 11 \/ (k = 12 /\ ~Usual(c)) THEN sum * co
                            ELSE used * cut[k]]

(* ---- value of a set of plies of a laminate --------------------------------*)
(* pl: set of <<position, orientation>> in a laminate of n plies (n <= 12)    *)
(* w, t: fine weights (sum at most 6 or so) and targets, scaled by 1000;      *)
(* the value is scaled by 10000                                                *)
Real(p, den) == (p[1] * 20000 + p[2] * 34641 + den) \div (2 * den)
Square(d) == (d * d + 5000) \div 10000
PairSum(pl, k, f(_)) ==
  <<SumOver(pl, LAMBDA x : f(x[1]) * TwoTrig(x[2])[k][1]),
    SumOver(pl, LAMBDA x : f(x[1]) * TwoTrig(x[2])[k][2])>>
YWeight(n, i) == 2 * i - n - 1
Value(n, pl, w, t) ==
  LET one(i) == 1
      y(i) == YWeight(n, i)
      z(i) == ZWeight(n, i)
      lp(k) == IF k <= 4 THEN Real(PairSum(pl, k, one), 2 * n)
               ELSE IF k <= 8 THEN Real(PairSum(pl, k - 4, y), n * n)
               ELSE Real(PairSum(pl, k - 8, z), 4 * n * n * n)
      sq(k) == IF w[k] = 0 THEN 0
               ELSE LET d == lp(k) - 10 * t[k] IN w[k] * Square(d)
      part(g) == SumTo(4, LAMBDA k : sq(4 * g + k))
      heavy(g) == SumTo(4, LAMBDA k : w[4 * g + k])
      big(g) == IF heavy(g) = 0 THEN 0
                ELSE CASE g = 0 -> 2 * n * n * Cardinality(pl)
                       [] g = 1 -> 2 * n * SumOver(pl, LAMBDA x :
                                      IF y(x[1]) = 0 THEN 1 ELSE 2 * AbsI(y(x[1])))
                       [] g = 2 -> SumOver(pl, LAMBDA x : z(x[1]))
      den == heavy(0) * big(0) + heavy(1) * big(1) + heavy(2) * big(2)
  IN IF den = 0 THEN 0
     ELSE (part(0) * big(0) + part(1) * big(1) + part(2) * big(2)) \div den
PliesOf(s) == {<<i, s[i]>> : i \in DOMAIN s}
(* lamination parameters of a whole laminate, scaled by 10000 *)
Lampam(s, k) ==
  LET n == Len(s)
      pl == PliesOf(s)
      one(i) == 1
      y(i) == YWeight(n, i)
      z(i) == ZWeight(n, i)
  IN IF k <= 4 THEN Real(PairSum(pl, k, one), 2 * n)
     ELSE IF k <= 8 THEN Real(PairSum(pl, k - 4, y), n * n)
     ELSE Real(PairSum(pl, k - 8, z), 4 * n * n * n)
(* value of a whole laminate: the weighted squares of the distances *)
FullValue(s, w, t) ==
  LET sq(k) == IF w[k] = 0 THEN 0 ELSE w[k] * Square(Lampam(s, k) - 10 * t[k])
      heavy == SumTo(12, LAMBDA k : w[k])
  IN IF heavy = 0 THEN 0 ELSE SumTo(12, sq) \div heavy

(* ---- partial lay-ups of the guide stack -----------------------------------*)
(* node: <<bottom, top>>; rows: layout of the drops, rows[i][p] = -1: dropped *)
Laid(N, node) ==
  {<<p, node[1][p]>> : p \in DOMAIN node[1]}
  \cup {<<N - Len(node[2]) + p, node[2][p]>> : p \in DOMAIN node[2]}
InPanel(c, row, laid) ==
  LET n == Cardinality({p \in DOMAIN row : row[p] # -1})
      pos(p) == Cardinality({x \in 1..p : row[x] # -1})
      here == {<<pos(x[1]), x[2]>> : x \in {y \in laid : row[y[1]] # -1}}
  IN here \cup IF c.sym THEN {<<n + 1 - x[1], x[2]>> : x \in here} ELSE {}
(* s: record with rows, counts, w, W, T *)
Estimate(c, s, node) ==
  LET laid == Laid(Len(s.rows[1]), node) IN
  SumTo(Len(s.rows), LAMBDA i :
    s.w[i] * Value(s.counts[i], InPanel(c, s.rows[i], laid), s.W[i], s.T[i]))
Blur(s) == 2 + 4 * SumTo(Len(s.w), LAMBDA i : s.w[i])

(* ---- the search ------------------------------------------------------------*)
Kids(c, N, node) ==
  {Extend(c.sym, node[1], node[2], a) : a \in May(c, N, node[1], node[2])}
(* Estimates are known up to a blur. sure: nodes known to be considered; may: *)
(* nodes possibly considered (a superset). Those that certainly and possibly   *)
(* are among the lim best ones:                                                *)
Survive(c, s, sure, may, lim) ==
  IF Cardinality(may) <= lim THEN [sure |-> sure, may |-> may]
  ELSE LET est == {<<Estimate(c, s, x), x>> : x \in may}
           certain == {y \in est : y[2] \in sure}
           blur == Blur(s)
       IN [sure |-> {x[2] : x \in {z \in certain :
                       Cardinality({y \in est : y[1] <= z[1] + blur}) <= lim}},
           may |-> {x[2] : x \in {z \in est :
                       Cardinality({y \in certain : y[1] < z[1] - blur}) < lim}}]
(* lims: loc, glob, fin (last level); loose: lay-ups followed                  *)
(* b.sure \subseteq partial lay-ups \subseteq b.may                            *)
Level(c, s, lims, b) ==
  LET N == Len(s.rows[1])
      last == b.r + 1 = Turns(c.sym, N)
      loc(x) == LET k == Kids(c, N, x)
                IN Survive(c, s, k, k, IF last THEN 100000 ELSE lims.loc)
      one == {<<x, loc(x)>> : x \in b.may}
      k == Survive(c, s, UNION {y[2].sure : y \in {z \in one : z[1] \in b.sure}},
                   UNION {y[2].may : y \in one}, IF last THEN lims.fin ELSE lims.glob)
  IN [r |-> b.r + 1, sure |-> k.sure, may |-> k.may,
      clear |-> b.clear /\ b.sure = b.may, lost |-> FALSE,
      calls |-> b.calls + SumOver(b.may, LAMBDA x : Cardinality(Kids(c, N, x)))]
Root == [r |-> 0, sure |-> {<<<<>>, <<>>>>}, may |-> {<<<<>>, <<>>>>},
         clear |-> TRUE, calls |-> 0, lost |-> FALSE]
RECURSIVE Levels(_, _, _, _)
Levels(c, s, lims, b) ==
  IF b.r = Turns(c.sym, Len(s.rows[1])) \/ b.may = {} THEN b
  \* too many lay-ups of about the same value
  ELSE IF Cardinality(b.may) > 50 + lims.loose THEN [b EXCEPT !.sure = {}, !.lost = TRUE]
  ELSE Levels(c, s, lims, Level(c, s, lims, b))
Beam(c, s, lims) == Levels(c, s, lims, Root)
GuideOf(c, N, node) == Whole(c.sym, N, node[1], node[2])
=============================================================================
