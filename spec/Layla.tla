-------------------------------- MODULE Layla -------------------------------
(* The optimiser of single laminates, LAYLA. The plies are taken from the     *)
(* surfaces inwards in groups; each group is searched level by level, and     *)
(* only its best lay-up is kept. A partial lay-up is judged on the lamination *)
(* parameters of its plies plus those of the plies that the later groups had  *)
(* in the previous run, if any; the runs are repeated until the laminate does *)
(* not change any more.                                                        *)
EXTENDS Beam

(* q: n (plies), w (weights), tg (targets), norm, cb, co, c10 (coefficients of *)
(* balance, out-of-plane orthotropy, 10%), sbal, sipo, sten (penalties used),  *)
(* loc, locf, glob, globp (limits); c.bal: balance or in-plane orthotropy      *)
LayTarget(c, q) == FineTarget(c, q.tg)
LayWeights(c, q) ==
  LET cut == [k \in 1..12 |->
        IF \/ c.sym /\ k \in 5..8
           \/ Usual(c) /\ k \in {4, 8, 12}
           \/ c.bal /\ k \in {3, 4}
           \/ c.oopo /\ k \in {11, 12}
        THEN 0 ELSE q.w[k]]
      used == Cardinality({k \in 1..12 : cut[k] # 0})
      sum == SumTo(12, LAMBDA k : cut[k])
      ipo == c.bal /\ q.sipo
  IN IF ~c.oopo /\ ~ipo THEN cut
     ELSE [k \in 1..12 |->
             IF ipo /\ (k = 3 \/ (k = 4 /\ ~Usual(c))) THEN sum * q.cb
             ELSE IF c.oopo /\ (k = 11 \/ (k = 12 /\ ~Usual(c))) THEN sum * q.co
             ELSE used * cut[k]]

(* ---- groups: sizes g, ranks of plies from 0 --------------------------------*)
EndOf(g, i) == SumTo(i, LAMBDA j : g[j])
GroupAt(g, r) == Min({i \in DOMAIN g : r < EndOf(g, i)})
EndsGroup(g, r) == r + 1 = EndOf(g, GroupAt(g, r))
LocLimit(q, g, r) ==
  IF EndsGroup(g, r) THEN 100000 ELSE IF GroupAt(g, r) = Len(g) THEN q.locf ELSE q.loc
GlobLimit(q, g, r) ==
  IF EndsGroup(g, r) THEN (IF GroupAt(g, r) = Len(g) THEN 100000 ELSE 1)
  ELSE IF GroupAt(g, r) = Len(g) /\ r + 2 = EndOf(g, Len(g)) THEN q.globp ELSE q.glob

(* ---- value of a partial lay-up ---------------------------------------------*)
RankPos(sym, n, r) ==       \* the position of the ply of rank r (from 0)
  IF sym THEN r + 1 ELSE IF r % 2 = 0 THEN r \div 2 + 1 ELSE n - r \div 2
Mirrored(c, n, pl) == pl \cup IF c.sym THEN {<<n + 1 - x[1], x[2]>> : x \in pl} ELSE {}
NodePlies(c, n, node) ==
  Mirrored(c, n, {<<p, node[1][p]>> : p \in DOMAIN node[1]}
      \cup {<<n - Len(node[2]) + p, node[2][p]>> : p \in DOMAIN node[2]})
(* plies of the groups after that of rank r, in the previous laminate         *)
Assumed(c, n, g, r, prev) ==
  IF prev = <<>> THEN {}
  ELSE Mirrored(c, n, {<<RankPos(c.sym, n, k), prev[RankPos(c.sym, n, k)]>> :
                         k \in EndOf(g, GroupAt(g, r))..(Turns(c.sym, n) - 1)})
LayLp(n, pl, k) ==
  LET one(i) == 1
      y(i) == YWeight(n, i)
      z(i) == ZWeight(n, i)
  IN IF k <= 4 THEN Real(PairSum(pl, k, one), 2 * n)
     ELSE IF k <= 8 THEN Real(PairSum(pl, k - 4, y), n * n)
     ELSE Real(PairSum(pl, k - 8, z), 4 * n * n * n)
(* share of the area and of the second moment of area of these plies *)
AreaShare(n, pl) == Scaled(Cardinality(pl), n, 10000)
BendShare(n, pl) == Scaled(SumOver(pl, LAMBDA x : ZWeight(n, x[1])), 2 * n * n * n, 10000)
Norm(q, d) == IF q.norm = 1 THEN AbsI(d) ELSE Square(d)
(* pl: plies laid; ext: plies assumed *)
LayValue(c, q, w, t, pl, ext) ==
  LET n == q.n
      sq(k) == IF w[k] = 0 THEN 0
               ELSE w[k] * Norm(q, LayLp(n, pl \cup ext, k) - 10 * t[k])
      part(g) == SumTo(4, LAMBDA k : sq(4 * g + k))
      heavy(g) == SumTo(4, LAMBDA k : w[4 * g + k])
      big(g) == IF heavy(g) = 0 THEN 0
                ELSE CASE g = 0 -> 2 * n * n * Cardinality(pl)
                       [] g = 1 -> 2 * n * SumOver(pl, LAMBDA x :
                                      IF YWeight(n, x[1]) = 0 THEN 1
                                      ELSE 2 * AbsI(YWeight(n, x[1])))
                       [] g = 2 -> SumOver(pl, LAMBDA x : ZWeight(n, x[1]))
      den == heavy(0) * big(0) + heavy(1) * big(1) + heavy(2) * big(2)
  IN IF den = 0 THEN 0
     ELSE (part(0) * big(0) + part(1) * big(1) + part(2) * big(2)) \div den
(* penalties, scaled by 10000 *)
LayFactor(co, pen) == 10000 + co * pen
LayTimes(x, f) == (x \div 10000) * f + ((x % 10000) * f) \div 10000
HowMany(pl, a) == Cardinality({x \in pl : x[2] = a})
PartTen(c, q, pl) ==
  IF ~(c.ten /\ q.sten) THEN 0
  ELSE Scaled(TenShort(c.p, HowMany(pl, 0), HowMany(pl, 45), HowMany(pl, 90),
                       HowMany(pl, -45), Cardinality(pl)), 100 * Cardinality(pl), 10000)
PartIpo(c, q, pl, ext) ==
  IF ~(c.bal /\ q.sipo) THEN 0
  ELSE LET x == pl \cup ext IN
       ((AbsI(LayLp(q.n, x, 3)) + AbsI(LayLp(q.n, x, 4))) * AreaShare(q.n, pl)) \div 20000
PartBal(c, q, pl) ==
  IF ~(c.bal /\ q.sbal) THEN 0
  ELSE LayTimes(Scaled(SumOver({a \in Range(c.angles) : a \in 1..89},
                   LAMBDA a : AbsI(HowMany(pl, a) - HowMany(pl, -a))), Cardinality(pl), 10000),
                AreaShare(q.n, pl))
PartOopo(c, q, pl, ext) ==
  IF ~c.oopo THEN 0
  ELSE LET x == pl \cup ext IN
       ((AbsI(LayLp(q.n, x, 11)) + AbsI(LayLp(q.n, x, 12))) * BendShare(q.n, pl)) \div 20000
LayScore(c, q, w, t, pl, ext, whole) ==
  LayTimes(LayTimes(LayTimes(LayValue(c, q, w, t, pl, ext),
    LayFactor(q.c10, IF whole THEN PartTen(c, q, pl) ELSE 0)),
    LayFactor(q.cb, Max2(PartIpo(c, q, pl, ext), PartBal(c, q, pl)))),
    LayFactor(q.co, PartOopo(c, q, pl, ext)))
LayBlur(c, q) == 6 + 10 * (1 + (IF c.ten /\ q.sten THEN q.c10 ELSE 0))
                 * (1 + (IF c.bal /\ (q.sipo \/ q.sbal) THEN q.cb ELSE 0))
                 * (1 + (IF c.oopo THEN q.co ELSE 0))
(* estimate of a partial lay-up whose last ply has rank r                      *)
LayEstimate(c, q, g, r, prev, node) ==
  LayScore(c, q, LayWeights(c, q), LayTarget(c, q), NodePlies(c, q.n, node),
           Assumed(c, q.n, g, r, prev), EndsGroup(g, r))

(* ---- the search of one run ---------------------------------------------------*)
LaySurvive(est, sure, blur, lim) ==   \* est: set of <<estimate, node>>
  IF Cardinality(est) <= lim THEN [sure |-> sure, may |-> {x[2] : x \in est}]
  ELSE LET certain == {y \in est : y[2] \in sure}
       IN [sure |-> {x[2] : x \in {z \in certain :
                       Cardinality({y \in est : y[1] <= z[1] + blur}) <= lim}},
           may |-> {x[2] : x \in {z \in est :
                       Cardinality({y \in certain : y[1] < z[1] - blur}) < lim}}]
LayLevel(c, q, g, prev, b) ==
  LET n == q.n
      r == b.r
      blur == LayBlur(c, q)
      kids(x) == {<<LayEstimate(c, q, g, r, prev, y), y>> : y \in Kids(c, n, x)}
      one == {<<x, kids(x)>> : x \in b.may}
      two == {<<y[1], LaySurvive(y[2], {z[2] : z \in y[2]}, blur, LocLimit(q, g, r))>> : y \in one}
      sure == UNION {y[2].sure : y \in {z \in two : z[1] \in b.sure}}
      may == UNION {y[2].may : y \in two}
      k == LaySurvive({x \in UNION {y[2] : y \in one} : x[2] \in may}, sure, blur,
                      GlobLimit(q, g, r))
  IN [r |-> r + 1, sure |-> k.sure, may |-> k.may, lost |-> FALSE]
LayRoot == [r |-> 0, sure |-> {<<<<>>, <<>>>>}, may |-> {<<<<>>, <<>>>>}, lost |-> FALSE]
RECURSIVE LayLevels(_, _, _, _, _)
LayLevels(c, q, g, prev, b) ==
  IF b.r = Turns(c.sym, q.n) \/ b.may = {} THEN b
  \* too many lay-ups of about the same value
  ELSE IF Cardinality(b.may) > 50 + q.loose THEN [b EXCEPT !.sure = {}, !.lost = TRUE]
  ELSE LayLevels(c, q, g, prev, LayLevel(c, q, g, prev, b))
LayRun(c, q, g, prev) == LayLevels(c, q, g, prev, LayRoot)
(* distance of a whole laminate to the targets, and its value with penalties   *)
LayDistance(c, q, s) ==
  LET w == LayWeights(c, q)  t == LayTarget(c, q)
      sq(k) == IF w[k] = 0 THEN 0 ELSE w[k] * Norm(q, Lampam(s, k) - 10 * t[k])
      heavy == SumTo(12, LAMBDA k : w[k])
  IN IF heavy = 0 THEN 0 ELSE SumTo(12, sq) \div heavy
LayWorth(c, q, s) ==
  LET pl == PliesOf(s) IN
  LayTimes(LayTimes(LayTimes(LayDistance(c, q, s),
    LayFactor(q.c10, PartTen(c, q, pl))),
    LayFactor(q.cb, Max2(PartIpo(c, q, pl, {}), PartBal(c, q, pl)))),
    LayFactor(q.co, PartOopo(c, q, pl, {})))
=============================================================================
