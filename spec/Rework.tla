------------------------------- MODULE Rework -------------------------------
(* Redesign of the ply drops of a blended structure around its reference      *)
(* panel. Thinner panels drop plies of the reference, one (or one pair) at a  *)
(* time; thicker panels get plies added. Every laminate met on the way obeys  *)
(* contiguity and the 10% rule (and disorientation for added plies); an       *)
(* angled ply that makes a balanced laminate unbalanced is followed by the    *)
(* opposite one. Panels are ordered by thickness.                              *)
EXTENDS Flex

Cover(c) == IF c.covering THEN c.n_covering ELSE 0
Unit(c) == IF c.sym THEN 2 ELSE 1
Plies(row) == SelectSeq(row, LAMBDA a : a # -1)
Both(c, w, p) == IF c.sym THEN {p, w + 1 - p} ELSE {p}
Without(row, D) == [i \in DOMAIN row |-> IF i \in D THEN -1 ELSE row[i]]
Only(row, A) == [i \in DOMAIN row |-> IF i \in A THEN row[i] ELSE -1]

TenFine(c, s) == IF c.ten /\ c.abdalla THEN AbdallaNear(c, s, 3000) ELSE TenMet(c, s, <<>>)
(* contiguity is counted without the outermost plies under rules 2 and 3 *)
ThinFine(c, s) == (c.contig => Contig(Core(s, c), c.n_contig)) /\ TenFine(c, s)
ThickFine(c, s) == ThinFine(c, s) /\ (c.diso => Diso(Core(s, c), c.delta))

(* balance: the angled ply that waits for its opposite, Unknown when none *)
Fits(c, q, a) == ~c.bal \/ q = Unknown \/ a = -q
Wait(c, q, a) == IF ~c.bal \/ q # Unknown \/ a \in {0, 90} THEN Unknown ELSE a

(* ---- thinner panels: drops ------------------------------------------------*)
(* a configuration: D dropped places, done the drops of the panels designed,  *)
(* q the waiting ply                                                           *)
DropPlaces(c, w) ==
  IF c.sym THEN (Cover(c) + 1)..(w \div 2) ELSE (Cover(c) + 1)..(w - Cover(c))
MayDrop(c, row, k, p) ==
  /\ p \notin k.D /\ row[p] # -1 /\ Fits(c, k.q, row[p])
  /\ ThinFine(c, Plies(Without(row, k.D \cup Both(c, Len(row), p))))
Drop(c, row, k, p) ==
  [D |-> k.D \cup Both(c, Len(row), p), done |-> k.done, q |-> Wait(c, k.q, row[p])]
RECURSIVE DropMany(_, _, _, _, _)
DropMany(c, row, K, cand, m) ==
  IF m = 0 \/ K = {} THEN K
  ELSE DropMany(c, row,
         UNION {{Drop(c, row, k, p) : p \in {x \in cand : MayDrop(c, row, k, x)}} : k \in K},
         cand, m - 1)
(* cands: for each panel, the places that may be dropped there *)
RECURSIVE ThinTo(_, _, _, _, _, _)
ThinTo(c, row, counts, i, K, cands) ==
  IF i = 0 \/ K = {} THEN K
  ELSE LET m == (counts[i + 1] - counts[i]) \div Unit(c)
           K2 == DropMany(c, row, K, cands[i], m)
       IN ThinTo(c, row, counts, i - 1,
                 {[k EXCEPT !.done = <<k.D>> \o k.done] : k \in K2}, cands)
NoDrop == [D |-> {}, done |-> <<>>, q |-> Unknown]
ThinAll(c, row, counts, ref) ==
  ThinTo(c, row, counts, ref - 1, {NoDrop},
         [i \in 1..(ref - 1) |-> DropPlaces(c, Len(row))])
ThinStacks(row, k) == [i \in DOMAIN k.done |-> Plies(Without(row, k.done[i]))]

(* ---- thicker panels: additions --------------------------------------------*)
(* s with a ply (a pair) of orientation a after its p first plies *)
Insert(c, s, p, a) ==
  LET n == Len(s) IN
  IF c.sym
  THEN SubSeq(s, 1, p) \o <<a>> \o SubSeq(s, p + 1, n - p) \o <<a>> \o SubSeq(s, n - p + 1, n)
  ELSE SubSeq(s, 1, p) \o <<a>> \o SubSeq(s, p + 1, n)
AddPlaces(c, n) == IF c.sym THEN Cover(c)..(n \div 2) ELSE Cover(c)..(n - Cover(c))
MayAdd(c, k, p, a) == Fits(c, k.q, a) /\ ThickFine(c, Insert(c, k.cur, p, a))
Add(c, k, p, a) ==
  [cur |-> Insert(c, k.cur, p, a), done |-> k.done, q |-> Wait(c, k.q, a)]
RECURSIVE AddMany(_, _, _)
AddMany(c, K, m) ==
  IF m = 0 \/ K = {} THEN K
  ELSE AddMany(c, UNION {
         {Add(c, k, x[1], x[2]) :
            x \in {y \in AddPlaces(c, Len(k.cur)) \X Range(c.angles) :
                     MayAdd(c, k, y[1], y[2])}} : k \in K}, m - 1)
RECURSIVE ThickTo(_, _, _, _)
ThickTo(c, counts, i, K) ==     \* i: panel designed last
  IF i = Len(counts) \/ K = {} THEN K
  ELSE LET m == (counts[i + 1] - counts[i]) \div Unit(c)
           K2 == AddMany(c, K, m)
       IN ThickTo(c, counts, i + 1, {[k EXCEPT !.done = Append(k.done, k.cur)] : k \in K2})
ThickAll(c, s, counts, ref) ==
  ThickTo(c, counts, ref, {[cur |-> s, done |-> <<>>, q |-> Unknown]})

(* is a table the outcome of additions to the reference panel? A: places of   *)
(* the table filled so far                                                     *)
MayFill(c, row, k, p) ==
  LET w == Len(row) IN
  /\ p \notin k.A /\ Fits(c, k.q, row[p])
  /\ Cardinality({x \in k.A : x < p}) >= Cover(c)
  /\ Cardinality({x \in k.A : x > p}) >= Cover(c)
  /\ ThickFine(c, Plies(Only(row, k.A \cup Both(c, w, p))))
Fill(c, row, k, p) ==
  [A |-> k.A \cup Both(c, Len(row), p), q |-> Wait(c, k.q, row[p])]
RECURSIVE FillMany(_, _, _, _, _)
FillMany(c, row, K, cand, m) ==
  IF m = 0 \/ K = {} THEN K
  ELSE FillMany(c, row,
         UNION {{Fill(c, row, k, p) : p \in {x \in cand : MayFill(c, row, k, x)}} : k \in K},
         cand, m - 1)
RECURSIVE FillFrom(_, _, _, _)
FillFrom(c, rows, i, K) ==      \* i: panel designed last
  IF i = Len(rows) \/ K = {} THEN K
  ELSE LET w == Len(rows[i])
           new == {p \in 1..w : rows[i][p] = -1 /\ rows[i + 1][p] # -1}
           low == IF c.sym THEN {p \in new : 2 * p < w + 1} ELSE new
       IN FillFrom(c, rows, i + 1, FillMany(c, rows[i + 1], K, low, Cardinality(low)))
FillAll(c, rows, ref) ==
  FillFrom(c, rows, ref,
           {[A |-> {p \in DOMAIN rows[ref] : rows[ref][p] # -1}, q |-> Unknown]})

(* ---- objective -------------------------------------------------------------*)
(* of one laminate: coA, coD small weights, tA, tD targets scaled by 1000     *)
LampamAs(s, sc) == [k \in 1..4 |-> LampamA(s, k, sc)]
PanelObj(s, co, t) ==
  ObjA(co.A, LampamAs(s, 1000), t.A) + ObjA(co.D, LampamDs(s, 1000), t.D)
PanelBlur(s, co, t) ==
  LET e(x, y) == 6 * AbsI(x - y) + 9
      a == LampamAs(s, 1000)
      d == LampamDs(s, 1000)
  IN SumTo(4, LAMBDA k : co.A[k] * e(a[k], t.A[k]) + co.D[k] * e(d[k], t.D[k]))
(* w: weight of the panel; cd: weight of a disorientation *)
Penal(c, s, cd) ==
  1 + cd * (IF c.diso THEN Cardinality(DisoBad(Core(s, c), c.delta)) ELSE 0)

(* ---- general ---------------------------------------------------------------*)
(* a thinner laminate only drops plies of a thicker one *)
DropsOf(thin, thick) ==
  /\ Len(thin) = Len(thick)
  /\ \A i \in DOMAIN thin : thin[i] \in {-1, thick[i]}
NestedRows(rows) == \A i \in 1..(Len(rows) - 1) : DropsOf(rows[i], rows[i + 1])
(* at most one angled ply (pair) waits for its opposite *)
NearlyBalanced(c, s) ==
  LET P == {a \in Range(c.angles) : a > 0 /\ a < 90}
      d(a) == AbsI(Count(s, a) - Count(s, -a))
  IN /\ \A a \in P : d(a) <= Unit(c)
     /\ Cardinality({a \in P : d(a) # 0}) <= 1
=============================================================================
