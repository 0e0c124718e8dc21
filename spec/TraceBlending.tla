--------------------------- MODULE TraceBlending ----------------------------
(* Conformance of the multi-panel structure, the blending strip, the group   *)
(* division, the ply-drop layouts and the layout conversions.                *)
EXTENDS TraceBase, Blending

Sc == 100000
Rows(n, before) == IF before = <<>> THEN NoPlies(n) ELSE before
Near2(x, y, tol) == AbsI(x - y) <= tol

(* weight (times 100) of an edge of the structure *)
EdgeW(e, ed) == IF e.wgiven THEN GivenWeight(e.ids, e.weights, ed) ELSE 100
StructEdges(e) == Edges(e.ids, e.nbrs)
StructOK(e) ==
  /\ Distinct(e.ids)
  /\ Connected(Len(e.ids), StructEdges(e))
  /\ e.wgiven => \A ed \in StructEdges(e) : EdgeW(e, ed) # -1
ToSeq2(S) == {<<x[1], x[2]>> : x \in S}
AsSet(rows) == {rows[i] : i \in DOMAIN rows}

StructClauses(e) ==
  IF ~StructOK(e) THEN Refused(e)
  ELSE Returned(e, LET E == StructEdges(e)  n == Len(e.ids) IN
    Need(AsSet(e.r.bounds) = E /\ Len(e.r.bounds) = Cardinality(E),
         "one boundary per pair of neighbour panels")
    \cup Need(\A k \in DOMAIN e.r.bounds : k \in DOMAIN e.r.bids /\
              {e.r.bids[k][1], e.r.bids[k][2]} =
              {e.ids[e.r.bounds[k][1]], e.ids[e.r.bounds[k][2]]},
         "boundaries in panel identifiers")
    \cup Need(AsSet(e.r.w) = {<<ed[1], ed[2], EdgeW(e, ed)>> : ed \in E},
         "each boundary has the weight given by the user")
    \cup Need(e.r.n_max = Max(Range(e.plies)) /\ e.r.n_min = Min(Range(e.plies)),
         "largest and smallest ply counts")
    \cup Need(e.r.thick = [p \in 1..n |-> e.plies[p] = Max(Range(e.plies))],
         "thickest panels flagged")
    \cup Need(e.plies[e.r.ind_thick] = Max(Range(e.plies)), "index of a thickest panel")
    \cup Need(e.r.mid = [p \in 1..n |-> IF e.sym /\ e.plies[p] % 2 = 1
                                        THEN (e.plies[p] + 1) \div 2 ELSE 0],
         "position of the middle plies")
    \cup Need(e.r.hasmid = (e.sym /\ \E p \in 1..n : e.plies[p] % 2 = 1),
         "some panel has a middle ply")
    \cup Need(e.r.thickmid = (e.r.hasmid /\ e.r.n_max % 2 = 1),
         "the thickest panel has a middle ply")
    \cup Need(Len(e.r.nb) = n /\ \A p \in 1..n :
                /\ Range(e.r.nb[p]) = {q \in 1..n : q # p /\ <<Min2(p, q), Max2(p, q)>> \in E}
                /\ Distinct(e.r.nb[p]),
         "neighbours of each panel")
    \cup Need(Range(e.r.thickest) = {p \in 1..n : e.plies[p] = Max(Range(e.plies))},
         "list of the thickest panels")
    \cup Need(e.r.area = SumTo(n, LAMBDA p : e.areas[p]), "total area")
    \cup Need(e.r.patches = SumTo(n, LAMBDA p : e.areas[p] * e.plies[p]),
         "total area of all plies")
    \cup Need(e.r.weight = e.r.patches, "weight of the structure"))

Idx(s) == 1..Len(s)
StripClauses(e) ==
  IF e.sym /\ ~MiddleOK(e.plies) THEN Refused(e)
  ELSE Returned(e,
    LET E == StructEdges(e)
        C == StripCounts(e.plies)
        P == Len(C)
        SE == StripEdges(e.plies, E)
        ref == RefIndex(C, e.ref)
        unit == IF e.sym THEN 2 ELSE 1
        pw == [k \in 1..P |-> SumOver({p \in Idx(e.plies) : e.plies[p] = C[k]},
                                      LAMBDA p : e.pweights[p])]
        thin == ThinWalk(C, ref, unit)
        thick == ThickWalk(C, ref, unit)
        row(x) == <<x.panel, x.before, x.after, IF x.new THEN 1 ELSE 0, x.designed>>
    IN
    Need(e.r.counts = C, "strip panels are the distinct ply counts in increasing order")
    \cup Need(e.r.guide = [p \in Idx(e.plies) |-> Guide(e.plies, p)],
         "each panel is mapped to the strip panel of its ply count")
    \cup Need(Len(e.r.rep) = P /\ \A k \in 1..P : e.plies[e.r.rep[k]] = C[k],
         "each strip panel is represented by a panel of its ply count")
    \cup Need(e.r.pcounts = C, "panels of the strip")
    \cup Need(AsSet(e.r.bounds) = SE /\ Len(e.r.bounds) = Cardinality(SE),
         "strip boundaries join the panels of different ply counts that touch")
    \cup Need(AsSet(e.r.w) = {<<s[1], s[2], StripWeight(e.plies, E,
                                  LAMBDA ed : EdgeW(e, ed), s)>> : s \in SE},
         "weights of the merged boundaries are added up")
    \cup Need(e.r.pw = pw, "panel weightings of equal ply counts are added up")
    \cup Need(e.r.ref = ref /\ e.r.nref = C[ref], "reference panel")
    \cup Need(e.r.pwl = <<>> \/
              (Len(e.r.pwl) = P /\ \A k \in 1..P :
                 LET x == StepWeights(pw, ref, k) IN
                 /\ Len(e.r.pwl[k]) = Len(x)
                 /\ \A q \in DOMAIN x : Near2(e.r.pwl[k][q], x[q], 1)),
         "weightings of the panels designed at each step")
    \cup Need(e.r.thick = P, "thickest strip panel")
    \cup Need(e.r.nthin = ref /\ e.r.nthick = P + 1 - ref,
         "numbers of panels on either side of the reference panel")
    \cup Need(e.r.mid = [k \in 1..P |-> IF e.sym /\ C[k] % 2 = 1
                                        THEN (C[k] + 1) \div 2 ELSE 0],
         "position of the middle plies")
    \cup IF WalkRegular(C, unit)
         THEN Need(e.r.thin = [s \in DOMAIN thin |-> row(thin[s])],
                   "steps from the reference panel to the thinnest")
              \cup Need(e.r.thicktab = [s \in DOMAIN thick |-> row(thick[s])],
                   "steps from the reference panel to the thickest")
         ELSE {})

DivideClauses(e) ==
  LET P == Len(e.counts)
      lam == e.counts[P] - 2 * e.nc
      n == IF e.sym THEN lam \div 2 ELSE lam
      nd(p) == IF e.counts[p] = e.counts[P] THEN 0
               ELSE IF e.sym THEN (e.counts[P] \div 2) - (e.counts[p] \div 2)
               ELSE e.counts[P] - e.counts[p]
  IN IF n < 1 \/ MinGroups(n, e.gmin, e.gmax) = 0 THEN Refused(e)
     ELSE Returned(e,
       Need(GroupsOK(e.r.sizes, n, e.gmin, e.gmax),
            "fewest groups within the size limits that hold all plies")
       \cup Need(e.r.n_groups = Len(e.r.sizes), "number of groups")
       \cup Need(e.r.first = IF e.sym THEN FirstPliesSym(e.r.sizes)
                             ELSE FirstPliesAsym(e.r.sizes, n),
            "first ply of each group")
       \cup Need(Len(e.r.drops) = P /\ \A p \in 1..P :
                   DropsOK(e.r.drops[p], e.r.sizes, nd(p)),
            "ply drops of each panel spread evenly over the groups")
       \cup Need(P # 2 \/ (e.sym /\ e.counts[P] % 2 = 1) \/
                 DropsClose(e.r.drops[1], e.r.sizes, nd(1)),
            "ply drops of the thinner of two panels follow the group sizes")
       \cup Need(DropsNested(e.r.drops),
            "thinner panels drop at least as many plies in every group")
       \cup Need(Len(e.r.psizes) = P /\ \A p \in 1..P : e.r.psizes[p] =
                   [k \in DOMAIN e.r.sizes |-> e.r.sizes[k] - e.r.drops[p][k]],
            "plies of each panel in each group")
       \cup Need(\A k \in DOMAIN e.r.sizes : e.r.calc[k] =
                   [p \in 1..P |-> e.r.drops[p][k]],
            "ply drops per group along the strip"))

LaylaDivideClauses(e) ==
  LET n == IF e.sym THEN e.plies \div 2 ELSE e.plies
      odd == e.sym /\ e.plies % 2 = 1
      core(s) == [s EXCEPT ![Len(s)] = @ - (IF odd THEN 1 ELSE 0)]
  IN IF n < 1 \/ MinGroups(n, e.gmin, e.gmax) = 0 THEN Refused(e)
     ELSE Returned(e,
       IF Len(e.r.sizes) = 0 THEN {"no group"} ELSE
       Need(GroupsOK(core(e.r.sizes), n, e.gmin, e.gmax),
            "fewest groups within the size limits that hold all plies")
       \cup Need(e.r.n_groups = Len(e.r.sizes), "number of groups")
       \cup Need(e.r.first = IF e.sym THEN FirstPliesSym(core(e.r.sizes))
                             ELSE FirstPliesAsym(e.r.sizes, n),
            "first ply of each group"))

(* a generated layout: counts per strip panel, structure and numbering       *)
LayoutOK(e, pdl) ==
  LET P == Len(e.counts)  N == e.counts[P] IN
  Need(Len(pdl) = P /\ \A p \in 1..P : Len(pdl[p]) = N,
       "one row per strip panel and one column per ply")
  \cup IF Len(pdl) = P /\ \A p \in 1..P : Len(pdl[p]) = N THEN
     Need(\A p \in 1..P : Cardinality(Kept(pdl[p])) = e.counts[p],
          "each panel keeps its number of plies")
     \cup Need(NestedRows(pdl), "the plies of a panel continue in the thicker panels")
     \cup Need(\A p \in 1..P : IF e.sym THEN NumberedSym(pdl[p], 1) ELSE Numbered(pdl[p], 1),
          "kept plies are numbered from the surface")
     \cup Need(Covered(pdl, e.nc), "covering plies are never dropped")
     \cup Need(\A k \in DOMAIN e.sizes : \A p \in 1..P :
            Cardinality({c \in GroupCols(e.sizes, e.sym, e.nc, k) : pdl[p][c] = -1})
              = e.drops[p][k],
          "ply drops of each group as planned by the division")
     ELSE {}
PenaltyOf(e, pdl) == SpacingSc(pdl, NoPlies(Len(pdl)), NoPlies(Len(pdl)),
                               e.bounds, e.md, Sc)
PdlsClauses(e) ==
  Returned(e,
    Need(Len(e.r) >= 1 /\ Len(e.r) <= e.n_ini, "at most the requested number of layouts")
    \cup UNION {LayoutOK(e, e.r[q]) : q \in DOMAIN e.r}
    \cup Need(Distinct(e.r), "layouts are pairwise different")
    \cup IF e.spacing /\ \A q \in DOMAIN e.r : LayoutOK(e, e.r[q]) = {}
         THEN Need(\A q \in 1..(Len(e.r) - 1) :
                     PenaltyOf(e, e.r[q]) <= PenaltyOf(e, e.r[q + 1]) + 2
                     \/ (PenaltyOf(e, e.r[q]) = 0),
                   "layouts with ply-drop spacing violations come last, best first")
         ELSE {})

(* one group, explored exhaustively: all layouts are known here               *)
Mirror(pdl) == [p \in DOMAIN pdl |-> RevSeq(pdl[p])]
GroupPenalty(e, pdl) ==
  LET P == Len(pdl) IN
  IF ~e.spacing THEN 0 ELSE
  SpacingSc(pdl, Rows(P, e.before), IF e.mirror THEN Mirror(pdl) ELSE Rows(P, e.after),
            e.bounds, e.md, Sc)
Marks(pdl) == [p \in DOMAIN pdl |-> Kept(pdl[p])]
GroupClauses(e) ==
  Returned(e,
    LET all == AllLayouts(e.n, e.drops)
        pen(m) == GroupPenalty(e, m)
        byMarks == [m \in {Marks(x) : x \in all} |->
                      pen(CHOOSE x \in all : Marks(x) = m)]
        K == Min2(e.keep, Cardinality(all))
        shape == \A q \in DOMAIN e.r : Len(e.r[q]) = Len(e.drops)
                    /\ \A p \in DOMAIN e.drops : Len(e.r[q][p]) = e.n
    IN Need(shape, "one row per strip panel and one column per ply of the group")
       \cup IF ~shape THEN {} ELSE
         Need(\A q \in DOMAIN e.r : Marks(e.r[q]) \in DOMAIN byMarks,
              "nested layouts with the planned ply drops")
         \cup Need(\A q \in DOMAIN e.r : \A p \in DOMAIN e.drops :
                      Numbered(e.r[q][p], 0), "kept plies are numbered from 0")
         \cup Need(\A a, b \in DOMAIN e.r : a # b => Marks(e.r[a]) # Marks(e.r[b]),
              "layouts are pairwise different")
         \cup IF \E q \in DOMAIN e.r : Marks(e.r[q]) \notin DOMAIN byMarks THEN {} ELSE
           LET pr == [q \in DOMAIN e.r |-> byMarks[Marks(e.r[q])]]
               free == {m \in DOMAIN byMarks : byMarks[m] = 0}
           IN Need(Len(e.r) = K, "as many layouts as requested and available")
              \cup Need(\A q \in 1..(Len(pr) - 1) : pr[q] <= pr[q + 1] + 2,
                   "best layouts first")
              \cup Need(IF Cardinality(free) >= K THEN \A q \in DOMAIN pr : pr[q] = 0
                        ELSE LET worst == IF Len(pr) = 0 THEN 0 ELSE Max(Range(pr))
                                 left == {m \in DOMAIN byMarks :
                                            byMarks[m] < worst - 2} IN
                             left \subseteq {Marks(e.r[q]) : q \in DOMAIN e.r},
                   "no better layout was left out"))

(* whole-structure store of initial layouts explored exhaustively: one group  *)
WholeClauses(e) ==
  Returned(e,
    LET P == Len(e.drops)
        halves == AllLayouts(e.n, e.drops)
        marks(h) == [p \in 1..P |-> h[p]]
        full(h) == IF e.sym THEN [p \in 1..P |-> h[p] \o RevSeq(h[p])] ELSE h
        pen(h) == IF e.spacing THEN SpacingSc(full(h), NoPlies(P), NoPlies(P), e.bounds, e.md, Sc) ELSE 0
        byMarks == [m \in {Marks(h) : h \in halves} |->
                      pen(CHOOSE h \in halves : Marks(h) = m)]
        HalfMarks(r) == [p \in 1..P |-> {c \in Kept(r[p]) : c <= e.n}]
        K == Min2(e.keep, Cardinality(halves))
        shape == \A q \in DOMAIN e.r : Len(e.r[q]) = P
                    /\ \A p \in 1..P : Len(e.r[q][p]) = (IF e.sym THEN 2 ELSE 1) * e.n
    IN Need(shape, "one row per strip panel and one column per ply")
       \cup IF ~shape \/ \E q \in DOMAIN e.r : HalfMarks(e.r[q]) \notin DOMAIN byMarks
            THEN {"nested layouts with the planned ply drops"} ELSE
         LET pr == [q \in DOMAIN e.r |-> byMarks[HalfMarks(e.r[q])]]
             free == {m \in DOMAIN byMarks : byMarks[m] = 0}
         IN Need(Len(e.r) = K, "as many layouts as requested and available")
            \cup Need(Distinct(e.r), "layouts are pairwise different")
            \cup Need(\A q \in 1..(Len(pr) - 1) : pr[q] <= pr[q + 1] + 2,
                 "best layouts first")
            \cup Need(IF Cardinality(free) >= K THEN \A q \in DOMAIN pr : pr[q] = 0
                      ELSE LET worst == IF Len(pr) = 0 THEN 0 ELSE Max(Range(pr))
                               left == {m \in DOMAIN byMarks : byMarks[m] < worst - 2} IN
                           left \subseteq {HalfMarks(e.r[q]) : q \in DOMAIN e.r},
                 "no better layout was left out"))

(* in-plane orthotropy: the shear couplings of the in-plane parameters vanish *)
Ipo(ss) == \A i \in {3, 4} :
   /\ SumTo(Len(ss), LAMBDA k : TwoTrig(ss[k])[i][1]) = 0
   /\ SumTo(Len(ss), LAMBDA k : TwoTrig(ss[k])[i][2]) = 0
TenMet(e) ==
  LET s == e.ss  d(a) == 2 * Count(s, a) IN
  TenOKRelaxed(e.c.p, d(0), d(45), d(90), d(-45), 2 * Len(s), e.eq45, e.eq090)
LayUpAllowed(e) ==
  /\ e.want = 0 \/ Len(e.ss) = e.want
  /\ DamTol(e.ss, e.c)
  /\ e.c.bal /\ ~e.nobal => Balanced(e.ss)
  /\ e.ipo /\ ~e.noipo => Ipo(e.ss)
  /\ e.c.diso => Diso(Core(e.ss, e.c), e.c.delta)
  /\ e.c.contig => Contig(e.ss, e.c.n_contig)
  /\ e.c.ten => TenMet(e)

Clauses(e) ==
  CASE e.op = "spacing_row" -> Returned(e,
         Need(IsRat(e.r, RowMissing(e.row, e.md), Len(e.row), Sc),
              "missing continuous plies between ply drops, relative to the length"))
    [] e.op = "spacing" -> Returned(e,
         LET P == Len(e.pdl) IN
         Need(IF e.active
              THEN Near2(e.r, SpacingSc(e.pdl, Rows(P, e.before), Rows(P, e.after),
                                        e.bounds, e.md, Sc), 2 + Len(e.bounds))
              ELSE e.r = 0,
              "weighted spacing penalty over the strip boundaries")
         \cup Need(e.active => ((e.r = 0) <=> SpacingMet(e.pdl, Rows(P, e.before),
                                        Rows(P, e.after), e.bounds, e.md)),
              "zero penalty exactly when the spacing rule is met"))
    [] e.op = "spacing_mp" -> Returned(e,
         LET C == StripCounts(e.plies)
             P == Len(C)
             pdl == [k \in 1..P |-> e.pdl[CHOOSE p \in Idx(e.plies) : e.plies[p] = C[k]]]
         IN Need(Near2(e.r, SpacingSc(pdl, NoPlies(P), NoPlies(P), e.bounds, e.md, Sc),
                       2 + Len(e.bounds)),
              "the penalty of the structure is that of its blending strip"))
    [] e.op = "spacing_filter" -> Returned(e,
         Need(e.r = SelectSeq(e.pdls, LAMBDA pdl : \A k \in DOMAIN e.bounds :
                LET i == e.bounds[k][1]  j == e.bounds[k][2]
                    a == e.before[i] \o pdl[i] \o e.after[i]
                    b == e.before[j] \o pdl[j] \o e.after[j]
                    cols == SelectSeq([q \in DOMAIN a |-> q],
                                      LAMBDA q : a[q] >= 0 \/ a[q] # b[q])
                IN /\ RowMissing([q \in DOMAIN cols |-> a[cols[q]]], e.md) = 0
                   /\ RowMissing([q \in DOMAIN cols |-> b[cols[q]]], e.md) = 0),
              "kept exactly the layouts that meet the spacing rule"))
    [] e.op = "same_pdl" -> Returned(e,
         Need(e.r = \A k \in 1..(IF e.thin THEN e.ref ELSE Len(e.a)) :
                      e.a[k] = <<>> \/ e.a[k] = e.b[k],
              "equal iff the designed rows are equal"))
    [] e.op = "gate_layup" ->
         IF LayUpAllowed(e) THEN Returned(e, {})
         ELSE Need(e.k = "exc", "a design that breaks a guideline was accepted")
    [] e.op = "gate_drops" ->
         LET P == Len(e.pdl) IN
         IF /\ e.nc > 0 => Covered(e.pdl, e.nc)
            /\ e.spacing => SpacingMet(e.pdl, NoPlies(P), NoPlies(P), e.bounds, e.md)
         THEN Returned(e, {})
         ELSE Need(e.k = "exc", "a layout that breaks a guideline was accepted")
    [] e.op = "structure" -> StructClauses(e)
    [] e.op = "strip" -> StripClauses(e)
    [] e.op = "reduce" -> Returned(e,
         Need(LET C == StripCounts(e.plies) IN
              /\ Len(e.r) = Len(C)
              /\ \A k \in DOMAIN C : \E p \in Idx(e.plies) :
                    e.plies[p] = C[k] /\ e.r[k] = e.data[p],
              "one entry per strip panel, taken from a panel of that ply count"))
    [] e.op = "extend" -> Returned(e,
         Need(e.r = [p \in Idx(e.plies) |-> e.data[Guide(e.plies, p)]],
              "each panel receives the entry of its strip panel"))
    [] e.op = "divide" -> DivideClauses(e)
    [] e.op = "layla_divide" -> LaylaDivideClauses(e)
    [] e.op = "pdls" -> PdlsClauses(e)
    [] e.op = "pdl_group" -> GroupClauses(e)
    [] e.op = "pdl_whole" -> WholeClauses(e)
    [] e.op = "check_pdls" ->
         IF \A q \in DOMAIN e.pdls : /\ Len(e.pdls[q]) = Len(e.counts)
              /\ \A p \in DOMAIN e.counts : Cardinality(Kept(e.pdls[q][p])) = e.counts[p]
         THEN Returned(e, {})
         ELSE Need(e.k = "exc", "layouts of wrong size were accepted")
    [] e.op = "table_weight" -> Returned(e,
         LET RECURSIVE plies(_)
             plies(p) == IF p = 0 THEN 0
                         ELSE plies(p - 1) + e.areas[p] * Cardinality(Kept(e.sst[p]))
         IN Need(e.r = e.dens * plies(Len(e.sst)), "the weight of the plies of a table"))
    [] e.op = "pdl_of_table" -> Returned(e,
         Need(/\ Len(e.r) = Len(e.sst)
              /\ \A p \in DOMAIN e.sst :
                   /\ Len(e.r[p]) = Len(e.sst[p])
                   /\ Kept(e.r[p]) = Kept(e.sst[p])
                   /\ IF e.sym THEN NumberedSym(e.r[p], 1) ELSE Numbered(e.r[p], 1),
              "the layout of a table drops exactly the plies the table drops"))
    [] e.op = "pdl_of_groups" -> Returned(e,
         LET P == Len(e.counts)
             signs(rows) == [p \in 1..P |-> [i \in DOMAIN rows[p] |->
                                IF rows[p][i] = -1 THEN -1 ELSE 1]]
             RECURSIVE cat(_, _)
             cat(p, k) == IF k > Len(e.top) THEN <<>>
                          ELSE (IF e.top[k] = <<>> THEN <<>> ELSE signs(e.top[k])[p])
                               \o cat(p, k + 1)
             RECURSIVE catb(_, _)
             catb(p, k) == IF k > Len(e.bottom) THEN <<>>
                           ELSE catb(p, k + 1) \o
                                (IF e.bottom[k] = <<>> THEN <<>> ELSE signs(e.bottom[k])[p])
             half(p) == cat(p, 1)
             h == Len(half(1))
             full(p) == IF e.sym THEN half(p) \o RevSeq(IF e.mid THEN SubSeq(half(p), 1, h - 1)
                                                      ELSE half(p))
                        ELSE half(p) \o catb(p, 1)
         IN Need(Len(e.r) = P /\ \A p \in 1..P :
                   /\ Len(e.r[p]) = Len(full(p))
                   /\ Kept(e.r[p]) = Kept(full(p))
                   /\ IF e.sym THEN NumberedSym(e.r[p], 1) ELSE Numbered(e.r[p], 1),
              "the groups are stacked from both surfaces inwards"))
    [] e.op = "format_drops" -> Returned(e,
         Need(e.r = [p \in DOMAIN e.lists |-> [i \in 1..e.n |->
                       IF i - 1 \in Range(e.lists[p]) THEN -1 ELSE i - 1]],
              "listed plies are dropped, the others keep their index"))
    [] e.op = "format_drops2" -> Returned(e,
         Need(Len(e.r) = Len(e.pdl) /\ \A p \in DOMAIN e.pdl :
                Kept(e.r[p]) = Kept(e.pdl[p]) /\ Len(e.r[p]) = Len(e.pdl[p])
                /\ Numbered(e.r[p], 0),
              "kept plies are numbered from 0"))
    [] e.op = "sst_to_ss" -> Returned(e,
         Need(e.r = [p \in DOMAIN e.sst |-> PliesOf(e.sst[p])],
              "stacking sequence of each panel"))
    [] e.op = "guide_to_sst" -> Returned(e,
         Need(e.r = FromGuide(e.guide, e.pdl),
              "each kept ply has the orientation of the guide"))
    [] e.op = "ss_to_sst" -> Returned(e,
         Need(e.r = FromGuide(e.guide, e.pdl),
              "each kept ply has the orientation of the thickest panel"))
    [] e.op = "ref_to_sst" -> Returned(e,
         Need(e.r = [p \in DOMAIN e.pdl |-> [c \in DOMAIN e.pdl[p] |->
                IF e.pdl[p][c] = -1 THEN -1
                ELSE IF e.pdl[e.ref][c] # -1
                     THEN e.ss[PosInPanel(e.pdl[e.ref], c)] ELSE e.guide[c]]],
              "plies shared with the reference panel change together"))
    [] e.op = "pos_ref_to_sst" -> Returned(e,
         Need(e.r = [k \in DOMAIN e.pos |-> ColOfPly(e.row, e.pos[k])],
              "column of each ply of the reference panel"))
    [] e.op = "pos_sst_to_panel" -> Returned(e,
         Need(e.r = SelectSeq([k \in DOMAIN e.pos |-> PosInPanel(e.row, e.pos[k])],
                              LAMBDA x : x # 0),
              "position in the panel of the plies it contains"))
    [] e.op = "pos_sst_to_panel2" -> Returned(e,
         Need(e.r = [k \in DOMAIN e.pos |-> PosInPanel(e.row, e.pos[k])],
              "position in the panel of each ply, none if dropped"))
    [] e.op = "excel_pdls" -> Returned(e,
         Need(e.r = e.pdls, "the layouts of the file, each once and in order"))
    [] OTHER -> {"unknown operation in the trace"}

TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == More /\ Say(Clauses(Step)) /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
