------------------------------ MODULE Blending ------------------------------
(* The multi-panel structure, its blending strip, the division of panels     *)
(* into groups of plies and the ply-drop layouts.                            *)
(* A ply-drop layout is a table with one row per panel and one column per    *)
(* ply of the thickest panel; -1 marks a dropped ply.                        *)
EXTENDS Guidelines

(* ---- ply-drop spacing: between two consecutive dropped plies of the       *)
(* layout at a boundary there are at least md continuous plies               *)
Drops(row) == SetToSortSeq({i \in DOMAIN row : row[i] = -1}, LAMBDA a, b : a < b)
RowMissing(row, md) ==
  LET d == Drops(row) IN
  SumTo(Len(d) - 1, LAMBDA k : Max2(0, md - (d[k + 1] - d[k] - 1)))
(* the layout at the boundary between panels with rows r1 and r2: columns    *)
(* that cover none of them are removed; the drops are those of the thinner   *)
BoundaryRow(r1, r2) ==
  LET cols == SelectSeq([i \in DOMAIN r1 |-> i],
                        LAMBDA i : r1[i] # -1 \/ r1[i] # r2[i])
      a == [k \in DOMAIN cols |-> r1[cols[k]]]
      b == [k \in DOMAIN cols |-> r2[cols[k]]]
  IN IF -1 \in Range(a) THEN a ELSE b
(* total spacing penalty times Sc; bounds: <<i, j, weight>> on strip panels; *)
(* an absent row (panel not designed yet) is the empty sequence              *)
SpacingSc(pdl, before, after, bounds, md, Sc) ==
  SumTo(Len(bounds), LAMBDA k :
    LET i == bounds[k][1]  j == bounds[k][2]  w == bounds[k][3] IN
    IF pdl[i] = <<>> \/ pdl[j] = <<>> THEN 0
    ELSE LET row == BoundaryRow(before[i] \o pdl[i] \o after[i],
                                before[j] \o pdl[j] \o after[j]) IN
         IF row = <<>> THEN 0 ELSE Scaled(w * RowMissing(row, md), Len(row), Sc))
SpacingMet(pdl, before, after, bounds, md) ==
  \A k \in DOMAIN bounds :
    LET i == bounds[k][1]  j == bounds[k][2] IN
    bounds[k][3] = 0 \/ pdl[i] = <<>> \/ pdl[j] = <<>> \/
    RowMissing(BoundaryRow(before[i] \o pdl[i] \o after[i],
                           before[j] \o pdl[j] \o after[j]), md) = 0
NoPlies(n) == [i \in 1..n |-> <<>>]

(* ---- multi-panel structure ---------------------------------------------- *)
(* ids: panel identifiers; nbrs: per panel the listed neighbour identifiers  *)
Edges(ids, nbrs) ==
  LET idx(x) == CHOOSE i \in DOMAIN ids : ids[i] = x IN
  {<<Min2(i, idx(x)), Max2(i, idx(x))>> :
      <<i, x>> \in UNION {{<<p, y>> : y \in Range(nbrs[p])} : p \in DOMAIN ids}}
RECURSIVE Spread(_, _)
Spread(S, E) ==
  LET T == S \cup {p \in UNION {{e[1], e[2]} : e \in E} :
                     \E e \in E : \/ e[1] = p /\ e[2] \in S
                                  \/ e[2] = p /\ e[1] \in S}
  IN IF T = S THEN S ELSE Spread(T, E)
Connected(n, E) == Spread({1}, E) = 1..n
(* the weight the user gave to a boundary, in whichever order of the IDs     *)
GivenWeight(ids, ws, e) ==
  LET m == {k \in DOMAIN ws : \/ ws[k][1] = ids[e[1]] /\ ws[k][2] = ids[e[2]]
                              \/ ws[k][2] = ids[e[1]] /\ ws[k][1] = ids[e[2]]}
  IN IF m = {} THEN -1 ELSE ws[CHOOSE k \in m : TRUE][3]

(* ---- blending strip ------------------------------------------------------ *)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
StripCounts(plies) == Sorted(Range(plies))
Guide(plies, p) == CHOOSE k \in 1..Len(StripCounts(plies)) :
                       StripCounts(plies)[k] = plies[p]
(* symmetric panels: a thicker panel cannot lose the middle ply              *)
MiddleOK(plies) == \A a, b \in Range(plies) : a % 2 = 1 /\ b > a => b % 2 = 1
RefIndex(counts, ref) ==
  IF \A k \in DOMAIN counts : counts[k] < ref THEN Len(counts)
  ELSE CHOOSE k \in DOMAIN counts :
         counts[k] >= ref /\ \A q \in 1..(k - 1) : counts[q] < ref
StripEdges(plies, E) ==
  {<<Min2(Guide(plies, e[1]), Guide(plies, e[2])),
     Max2(Guide(plies, e[1]), Guide(plies, e[2]))>> :
       e \in {x \in E : plies[x[1]] # plies[x[2]]}}
StripWeight(plies, E, w(_), se) ==
  SumOver({e \in E : {Guide(plies, e[1]), Guide(plies, e[2])} = {se[1], se[2]}
                     /\ plies[e[1]] # plies[e[2]]}, w)

(* weightings (times 10000) while panel k is designed, the reference panel    *)
(* being r: the panels not reached yet count with the panel being designed    *)
StepWeights(w, r, k) ==
  LET lo == IF k < r THEN 1 ELSE r + 1
      hi == IF k < r THEN r - 1 ELSE Len(w)
      tot == SumOver(lo..hi, LAMBDA p : w[p])
      sc(x) == (2 * x * 10000 + tot) \div (2 * tot)
  IN IF k = r THEN <<>>
     ELSE IF k < r
     THEN [q \in 1..(r - k) |-> IF q = 1 THEN sc(SumOver(1..k, LAMBDA p : w[p]))
                                ELSE sc(w[k + q - 1])]
     ELSE [q \in 1..(k - r) |-> IF q = k - r
                                THEN sc(SumOver(k..Len(w), LAMBDA p : w[p]))
                                ELSE sc(w[r + q])]
(* the walk from the reference panel to the thinnest/thickest panel: the     *)
(* laminate loses/gains `unit` plies per step; a step belongs to the panel   *)
(* whose ply count it approaches                                             *)
ThinWalk(counts, ref, unit) ==
  LET n == (counts[ref] - counts[1]) \div unit IN
  [s \in 1..n |->
     LET after == counts[ref] - s * unit
         p == CHOOSE k \in 1..(ref - 1) : /\ counts[k] <= after
                                          /\ counts[k + 1] > after
     IN [panel |-> p, before |-> after + unit, after |-> after,
         new |-> after + unit = counts[p + 1], designed |-> ref - 1 - p]]
ThickWalk(counts, ref, unit) ==
  LET n == (counts[Len(counts)] - counts[ref]) \div unit IN
  [s \in 1..n |->
     LET after == counts[ref] + s * unit
         p == CHOOSE k \in (ref + 1)..Len(counts) : /\ counts[k] >= after
                                                    /\ counts[k - 1] < after
     IN [panel |-> p, before |-> after - unit, after |-> after,
         new |-> after - unit = counts[p - 1], designed |-> p - ref - 1]]
WalkRegular(counts, unit) == \A k \in DOMAIN counts :
                                (counts[k] - counts[1]) % unit = 0

(* ---- groups of plies ----------------------------------------------------- *)
MinGroups(n, gmin, gmax) ==
  LET ok == {k \in 1..Max2(n, 1) : k * gmin <= n /\ n <= k * gmax}
  IN IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A q \in ok : k <= q
GroupsOK(sizes, n, gmin, gmax) ==
  /\ Len(sizes) = MinGroups(n, gmin, gmax)
  /\ SumTo(Len(sizes), LAMBDA k : sizes[k]) = n
  /\ \A k \in DOMAIN sizes : gmin <= sizes[k] /\ sizes[k] <= gmax
  /\ \A k \in 1..(Len(sizes) - 1) : sizes[k] <= sizes[k + 1]
(* first plies (from 0): symmetric laminates are filled from the surface     *)
(* inwards; otherwise groups alternate between the two surfaces              *)
FirstPliesSym(sizes) == [k \in DOMAIN sizes |-> SumTo(k - 1, LAMBDA q : sizes[q])]
FirstPliesAsym(sizes, n) == [k \in DOMAIN sizes |->
  IF k % 2 = 1 THEN SumOver({q \in 1..(k - 1) : q % 2 = 1}, LAMBDA q : sizes[q])
  ELSE n - SumOver({q \in 1..k : q % 2 = 0}, LAMBDA q : sizes[q])]
(* ply drops of a thinner panel: spread in proportion to the group sizes      *)
(* (within less than two plies of the exact share), what remains going to     *)
(* the larger groups first when only one other panel (the thickest) exists    *)
DropsOK(drops, sizes, nd) ==
  LET n == SumTo(Len(sizes), LAMBDA k : sizes[k]) IN
  /\ Len(drops) = Len(sizes)
  /\ SumTo(Len(drops), LAMBDA k : drops[k]) = nd
  /\ \A k \in DOMAIN drops :
        /\ drops[k] >= 0 /\ drops[k] <= sizes[k]
        /\ drops[k] * n - nd * sizes[k] < 2 * n
        /\ nd * sizes[k] - drops[k] * n < 2 * n
DropsClose(drops, sizes, nd) ==
  LET n == SumTo(Len(sizes), LAMBDA k : sizes[k]) IN
  /\ \A k \in DOMAIN drops : LET f == (nd * sizes[k]) \div n IN
        drops[k] \in {f, f + 1}
  /\ \A i, k \in DOMAIN drops : sizes[i] > sizes[k] =>
        (drops[k] = (nd * sizes[k]) \div n + 1
           => drops[i] >= (nd * sizes[i]) \div n + 1
              \/ (nd * sizes[k]) % n = 0 \/ (nd * sizes[i]) % n = 0)
(* layouts can be nested: a thinner panel drops at least as many plies in     *)
(* every group as a thicker one                                               *)
DropsNested(drops) == \A p \in 1..(Len(drops) - 1) :
                        \A k \in DOMAIN drops[p] : drops[p][k] >= drops[p + 1][k]

(* ---- ply-drop layouts ----------------------------------------------------- *)
Kept(row) == {i \in DOMAIN row : row[i] # -1}
NestedRows(pdl) == \A p \in 1..(Len(pdl) - 1) : Kept(pdl[p]) \subseteq Kept(pdl[p + 1])
(* kept plies are numbered consecutively from `base`                         *)
Numbered(row, base) == \A i \in Kept(row) :
    row[i] = base + Cardinality({k \in Kept(row) : k < i})
(* in a symmetric layout the second half mirrors the first                   *)
NumberedSym(row, base) ==
  LET n == Len(row)  h == (n + 1) \div 2 IN
  /\ Numbered(SubSeq(row, 1, h), base)
  /\ \A i \in 1..n : row[i] = row[n + 1 - i]
Covered(pdl, nc) == \A p \in DOMAIN pdl : \A i \in 1..nc :
                      pdl[p][i] # -1 /\ pdl[p][Len(pdl[p]) + 1 - i] # -1
(* columns of group k (sym: in the first half)                               *)
GroupCols(sizes, sym, nc, k) ==
  LET n == SumTo(Len(sizes), LAMBDA q : sizes[q])
      f == IF sym THEN FirstPliesSym(sizes)[k] ELSE FirstPliesAsym(sizes, n)[k]
  IN (nc + f + 1)..(nc + f + sizes[k])

(* all nested rows of one group: width n, drops[p] dropped plies in panel p  *)
(* (non-increasing), no ply of the sets Top/Bottom dropped                   *)
RECURSIVE Chains(_, _, _)
Chains(n, drops, k) ==     \* sequences of drop sets, panels k..Len(drops)
  IF k > Len(drops) THEN {<<>>}
  ELSE UNION {{<<S>> \o rest : rest \in
                 {r \in Chains(n, drops, k + 1) : r = <<>> \/ r[1] \subseteq S}}
              : S \in {T \in SUBSET (1..n) : Cardinality(T) = drops[k]}}
RowOf(n, S) == [i \in 1..n |-> IF i \in S THEN -1
                               ELSE Cardinality({k \in 1..i : k \notin S})]
AllLayouts(n, drops) == {[p \in DOMAIN drops |-> RowOf(n, c[p])] :
                           c \in Chains(n, drops, 1)}

(* ---- conversions ----------------------------------------------------------- *)
PliesOf(row) == SelectSeq(row, LAMBDA x : x # -1)
FromGuide(guide, pdl) == [p \in DOMAIN pdl |-> [i \in DOMAIN pdl[p] |->
                             IF pdl[p][i] = -1 THEN -1 ELSE guide[i]]]
(* position in the panel of the ply at column c of the table, 0 if dropped   *)
PosInPanel(row, c) == IF row[c] = -1 THEN 0
                      ELSE Cardinality({i \in 1..c : row[i] # -1})
(* column of the k-th ply of the panel *)
ColOfPly(row, k) == CHOOSE c \in DOMAIN row : PosInPanel(row, c) = k
=============================================================================
