---------------------------- MODULE TraceDesign -----------------------------
(* Replays recorded runs of the optimiser of blended structures.             *)
EXTENDS Penalties, TraceBase
(* ---- operations ------------------------------------------------------------*)
(* s: the structure: counts (of the strip), rows (layout), w, wt, tg, co       *)
Fine(c, s) ==
  [rows |-> s.rows, counts |-> s.counts, w |-> s.w,
   W |-> [i \in DOMAIN s.wt |-> FineWeights(c, s.wt[i], s.co)],
   T |-> [i \in DOMAIN s.tg |-> FineTarget(c, s.tg[i])]]

(* factor (1 + co * pen), scaled by 10000 *)
Factor(co, pen) == Sc + co * pen
Times(x, f) == (x \div Sc) * f + ((x % Sc) * f) \div Sc
(* cf: coefficients diso, contig, ten *)
WithPenalties(v, cf, pd, pc, pt) ==
  Times(Times(Times(v, Factor(cf[1], pd)), Factor(cf[2], pc)), Factor(cf[3], pt))

(* ---- op "beam": the search alone -------------------------------------------*)
(* s, lims -> r.seen, r.nodes (stacks of the panels of each final lay-up),     *)
(* r.ss (stacks chosen), r.obj, r.objs, r.calls, r.pd, r.pc, r.pt              *)
RowOf(row, guide) == SelectSeq([p \in DOMAIN row |-> IF row[p] = -1 THEN -1 ELSE guide[p]],
                               LAMBDA a : a # -1)
Stacks(s, guide) == [i \in DOMAIN s.rows |-> RowOf(s.rows[i], guide)]
BeamRun(c, e) ==
  LET s == Fine(c, e.s)
      P == Len(s.counts)
      N == s.counts[P]
      b == Beam(c, s, e.lims)
  IN
  IF e.k = "exc"
  THEN Need(b.sure = {}, "the search finds nothing although lay-ups exist")
  ELSE IF e.k = "odd" THEN {"the result is malformed"}
  ELSE LET r == e.r
           guides == {x[P] : x \in Range(r.nodes)}
           cf == e.cf
           score(x) == SumTo(P, LAMBDA i :
                 s.w[i] * WithPenalties(FullValue(x[i], s.W[i], s.T[i]), cf,
                     PenDiso(c, x[i]), 0, IF c.abdalla THEN 0 ELSE PenTen(c, x[i])))
       IN
  (IF ~r.seen THEN {} ELSE
   Need(\A x \in Range(r.nodes) : x = Stacks(s, x[P]),
        "each panel gets the guide stack without its drops")
   \cup Need(Cardinality(guides) = Len(r.nodes), "a lay-up is examined twice")
   \cup Need(\A g \in guides : Compliant(c, N, g) /\ (c.sym => Symmetric(g)),
             "a lay-up out of the search breaks a guideline")
   \cup Need(Len(r.nodes) <= e.lims.fin, "more lay-ups survive than allowed")
   \cup Need({GuideOf(c, N, x) : x \in b.sure} \subseteq guides,
             "the best partial lay-ups do not survive")
   \cup Need(b.lost \/ guides \subseteq {GuideOf(c, N, x) : x \in b.may},
             "other lay-ups than the best survive")
   \cup Need(b.clear /\ ~b.lost => r.calls = b.calls, "the number of evaluations")
   \cup Need(r.ss \in Range(r.nodes), "the choice is not a lay-up of the search")
   \cup Need(\A i \in 1..P : Len(r.ss[i]) > 0
              /\ (e.exact => \A x \in Range(r.nodes) :
                    score(x) + 2 * Blur(s) >= score(r.ss)),
             "a better lay-up was not chosen"))
  \cup Need(\A i \in 1..P : Near(r.objs[i], FullValue(r.ss[i], s.W[i], s.T[i]), 16),
            "the objective of a panel is its distance to the targets")

(* ---- op "design": the whole optimiser --------------------------------------*)
(* e.s: counts, wt, tg, w, co of all panels; nref; cf                          *)
(* r.tab: for each layout, r.tab[q].k \in {"none", "fail", "value"} and        *)
(* ss, sst, obj, objs, pd, pc, pt, nd, lp, np; r.best: the best layout;        *)
(* r.final: the design returned                                                *)
Thick(s) == SetToSortSeq(Range(s.counts), LAMBDA a, b : a < b)
RefCount(s) ==
  LET T == Range(s.counts)  up == {t \in T : t >= s.nref}
  IN IF up = {} THEN Max(T) ELSE Min(up)
PanelWith(s, t) == CHOOSE i \in DOMAIN s.counts :
                     s.counts[i] = t /\ \A j \in 1..(i - 1) : s.counts[j] # t
Shape(c, s, d) ==
  LET T == Thick(s)
      P == Len(s.counts)
      rowsOf == [i \in DOMAIN T |-> d.sst[PanelWith(s, T[i])]]
  IN IF Len(d.ss) # P \/ Len(d.sst) # P THEN {"there is one row for each panel"}
     ELSE IF \E i \in 1..P : Len(d.sst[i]) # Max(Range(s.counts))
     THEN {"the table is as wide as the thickest panel"}
     ELSE
     Need(\A i \in 1..P : d.ss[i] = Plies(d.sst[i]),
          "the stacks are the rows of the table without drops")
     \cup Need(\A i \in 1..P : Len(d.ss[i]) = s.counts[i],
               "each panel has its number of plies")
     \cup Need(\A i \in 1..P : Range(d.ss[i]) \subseteq Range(c.angles),
               "only allowed orientations occur")
     \cup Need(\A i, j \in 1..P : s.counts[i] = s.counts[j] => d.sst[i] = d.sst[j],
               "panels of the same thickness have the same plies")
     \cup Need(NestedRows(rowsOf), "thinner panels only drop plies of thicker ones")
     \cup Need(c.sym => \A i \in 1..P : Symmetric(d.sst[i]), "the laminates are symmetric")
Rules(c, s, d) ==
  LET ref == RefCount(s)
      P == 1..Len(s.counts)
      R == d.ss[PanelWith(s, ref)]
  IN Need(\A i \in P : DamTol(d.ss[i], c), "all panels are damage tolerant")
     \cup Need(\A i \in P : \A j \in 1..Cover(c) :
                 d.sst[i][j] # -1 /\ d.sst[i][Len(d.sst[i]) + 1 - j] # -1,
               "covering plies are not dropped")
     \cup Need(BalMet(c, R, <<>>), "the reference panel is balanced")
     \cup Need(Ordered(c, R), "the reference panel meets disorientation and contiguity")
     \cup Need(IF c.ten /\ c.abdalla THEN TRUE ELSE TenMet(c, R, <<>>),
               "the reference panel meets the 10% rule")
     \cup Need(\A i \in P : s.counts[i] < ref => ThinFine(c, d.ss[i]),
               "thinner panels meet contiguity and the 10% rule")
     \cup Need(\A i \in P : s.counts[i] > ref => ThickFine(c, d.ss[i]),
               "thicker panels meet disorientation, contiguity and the 10% rule")
     \cup Need(c.bal => \A i \in P : NearlyBalanced(c, d.ss[i]),
               "at most one ply of a panel is out of balance")
Layouts(r) == {q \in DOMAIN r.tab : r.tab[q].k # "none"}
DesignRun(c, e) ==
  LET r == e.r  L == Layouts(r) IN
  Need(Len(r.tab) <= e.most, "more layouts than asked for")
  \cup UNION {LET bad == Shape(c, e.s, r.tab[q])
              IN IF bad # {} \/ r.tab[q].k = "fail" THEN bad
                 ELSE Rules(c, e.s, r.tab[q]) : q \in L}
  \cup Need(L # {} => r.final \in {r.tab[q] : q \in L}, "the design returned is one of those found")

(* ---- op "values": what is said of the designs ------------------------------*)
Values(c, s, d) ==
  LET P == Len(s.counts)
      W(i) == FineWeights(c, s.wt[i], s.co)
      T(i) == FineTarget(c, s.tg[i])
  IN
  Need(\A i \in 1..P : \A k \in 1..12 : Near(10 * d.lp[i][k], Lampam(d.ss[i], k), 7),
       "the lamination parameters are those of the stacks")
  \cup Need(\A i \in 1..P : \A j \in DOMAIN c.angles :
              d.np[i][j] = 2 * Count(d.ss[i], c.angles[j]),
            "the ply counts are those of the stacks")
  \cup Need(\A i \in 1..P : d.nd[i] = NDiso(c, d.ss[i]),
            "the disorientation violations are those of the stacks")
  \cup Need(\A i \in 1..P : Near(d.pd[i], PenDiso(c, d.ss[i]), 2),
            "the disorientation penalty is that of the stacks")
  \cup Need(\A i \in 1..P : (d.pc[i] = 0) <=> (~c.contig \/ Contig(Core(d.ss[i], c), c.n_contig)),
            "the contiguity penalty is that of the stacks")
  \cup Need(c.abdalla \/ \A i \in 1..P : Near(d.pt[i], PenTen(c, d.ss[i]), 2),
            "the 10% penalty is that of the stacks")
  \cup (IF d.k = "fail" THEN {} ELSE
        Need(\A i \in 1..P : Near(d.objs[i], FullValue(d.ss[i], W(i), T(i)), 8),
             "the objective of a panel is its distance to the targets")
        \cup Need(Near(d.obj, SumTo(P, LAMBDA i : s.w[i] *
                         WithPenalties(d.objs[i], s.cf, d.pd[i], d.pc[i], d.pt[i])),
                       3 + 3 * SumTo(P, LAMBDA i : s.w[i])),
                  "the objective is the weighted sum over the panels with penalties"))
ValuesRun(c, e) ==
  LET r == e.r  L == Layouts(r)
      rank(q) == IF r.tab[q].k = "fail" THEN 2000000000 ELSE r.tab[q].obj
  IN UNION {IF Shape(c, e.s, r.tab[q]) # {} THEN {} ELSE Values(c, e.s, r.tab[q]) : q \in L}
     \cup (IF L = {} THEN Need(r.final.k = "none", "a design without value is returned")
           ELSE Need(r.best \in L /\ \A q \in L : rank(r.best) <= rank(q) + 1,
                     "the best design is returned")
                \cup Need(r.best \in L => r.final = r.tab[r.best],
                          "the design returned is the one of the best layout"))

(* ---- op "book": the workbook with the set-up and the results ----------------*)
PanelRow(c, s, d, k, x, i) ==    \* x: row of panel i of design d of layout k
  LET n == s.counts[i]  ss == d.ss[i]
      T == FineTarget(c, s.tg[i])
      pct(a) == Scaled(Count(ss, a), n, 1000)
  IN Need(x.i = i /\ x.n = n, "the panels come in order")
     \cup Need(x.ss = ss /\ x.sst = d.sst[i], "the stacking sequences are those of the design")
     \cup Need(d.k = "fail" \/ Near(x.obj, d.objs[i], 1), "the objective is that of the design")
     \cup Need(x.lp = d.lp[i], "the lamination parameters are those of the design")
     \cup Need(\A j \in 1..12 : Near(x.err[j], AbsI(T[j] - d.lp[i][j]), 1),
               "the distances to the targets are those of the design")
     \cup Need(\A j \in DOMAIN c.angles : x.np[j] = Count(ss, c.angles[j]),
               "the ply counts are those of the design")
     \cup Need(/\ \A j \in 1..4 : Near(x.pct[j], pct(<<0, 45, 90, -45>>[j]), 1)
               /\ Near(x.pct[5], pct(45) + pct(-45), 2),
               "the shares of the orientations are those of the design")
     \cup Need(x.nd = d.nd[i] /\ Near(x.pd, d.pd[i], 1) /\ Near(x.pc, d.pc[i], 1)
               /\ Near(x.pt, d.pt[i], 1), "the penalties are those of the design")
     \cup Need(/\ Near(x.ipo, AbsI(d.lp[i][3]) + AbsI(d.lp[i][4]), 2)
               /\ Near(x.oopo, AbsI(d.lp[i][11]) + AbsI(d.lp[i][12]), 2)
               /\ Near(2 * x.pi, IF c.bal THEN x.ipo ELSE 0, 3)
               /\ Near(2 * x.po, IF c.oopo THEN x.oopo ELSE 0, 3),
               "the orthotropy is that of the design")
     \cup Need(IF k <= Len(s.given)
               THEN x.pdl = s.given[k][CHOOSE j \in DOMAIN Thick(s) : Thick(s)[j] = n]
               ELSE Len(x.pdl) = Max(Range(s.counts))
                    /\ Cardinality({j \in DOMAIN x.pdl : x.pdl[j] # -1}) = n,
               "the initial layout is the one tried")
Table(c, e, k, x) ==             \* x: the table of layout k
  LET d == e.r.tab[k] IN
  Need(x.k = d.k /\ Near(x.obj, d.obj, 1), "the objective of the structure is that of the design")
  \cup IF Len(x.rows) # Len(e.s.counts) THEN {"there is one row for each panel"}
       ELSE IF d.k = "none" \/ x.k = "none" \/ Shape(c, e.s, d) # {} THEN {}
       ELSE UNION {PanelRow(c, e.s, d, k, x.rows[i], i) : i \in DOMAIN x.rows}
            \cup Need(x.calls = e.r.book.calls[k] /\ x.calls > 0, "the number of evaluations")
            \cup Need(Near(x.gap, e.r.book.gap[k], 1)
                      /\ Near(x.gap, IF e.s.spacing
                           THEN PenSpacing(d.sst, e.s.min_drop) ELSE 0, 2 * Len(d.sst)),
                      "the ply-drop spacing penalty is that of the design")
Rounded(c) == IF c.contig THEN c.n_contig ELSE 1000000000
ConstraintSheet(c, s, x) ==
  Need(/\ x.sym = c.sym /\ x.bal = c.bal /\ x.oopo = c.oopo
       /\ x.dam_tol = c.dam_tol /\ x.dam_tol_rule = c.dam_tol_rule
       /\ x.covering = c.covering /\ x.n_covering = c.n_covering
       /\ x.diso = c.diso /\ x.delta = c.delta
       /\ x.contig = c.contig /\ x.n_contig = Rounded(c)
       /\ x.angles = c.angles /\ x.n_angles = Len(c.angles)
       /\ x.ten = c.ten /\ x.onlp = (c.ten /\ c.abdalla) /\ x.onpc = (c.ten /\ ~c.abdalla)
       /\ x.p = (IF c.ten THEN c.p ELSE [p0 |-> 0, p45 |-> 0, p90 |-> 0, p135 |-> 0, p45_135 |-> 0])
       /\ Near(4 * x.pa, IF c.ten THEN 1000 - c.q ELSE 0, 4)
       /\ x.spacing = s.spacing /\ x.min_drop = s.min_drop,
       "the guidelines saved are those given")
ParameterSheet(s, n, x) ==
  Need([y \in DOMAIN s.par \ {"success"} |-> s.par[y]]
       = [y \in DOMAIN s.par \ {"success"} |-> x[y]]
       /\ x.most = n /\ x.nref = s.nref /\ x.gmin = 1 /\ x.gmax = 6,
       "the parameters saved are those given")
AreaOf(s, i) == IF s.areas[i] = 0 THEN 3 ELSE s.areas[i]
PanelSheet(c, s, x) ==
  IF Len(x) # Len(s.counts) THEN {"there is one row for each panel"}
  ELSE UNION {
    LET p == x[i]
        W == FineWeights(c, s.wt[i], s.co)
        heavy == SumTo(12, LAMBDA k : W[k])
    IN Need(/\ p.id = s.ids[i] /\ p.n = s.counts[i] /\ p.w = 1000 * s.w[i]
            /\ p.nbrs = (IF i < Len(x) THEN <<s.ids[i + 1]>> ELSE <<>>)
            /\ p.area = 1000 * AreaOf(s, i) /\ p.nx = 1000 /\ p.ny = 2000,
            "the panels saved are those given")
       \cup Need(/\ p.tg = FineTarget(c, s.tg[i])
                 /\ \A k \in 1..12 : /\ p.wi[k] = 1000 * s.wt[i][k]
                                     /\ Near(p.wf[k], Scaled(W[k], heavy, 1000000), 2),
                 "the targets saved are those used")
    : i \in DOMAIN x}
StructureSheet(s, x) ==
  LET P == Len(s.counts)
  IN Need(/\ x.panels = P /\ x.most = Max(Range(s.counts))
          /\ x.thick \in 1..P /\ s.counts[x.thick] = x.most,
          "the structure saved is that given")
     \cup Need(x.area = 1000 * SumTo(P, LAMBDA i : AreaOf(s, i)),
               "the area saved is that of the structure")
     \cup Need(x.weight = 300 * SumTo(P, LAMBDA i : AreaOf(s, i) * s.counts[i]),
               "the weight saved is that of the structure")
BookRun(c, e) ==
  LET r == e.r  b == r.book IN
  IF Len(b.tab) # Len(r.tab) THEN {"there is one table for each layout"}
  ELSE UNION {Table(c, e, k, b.tab[k]) : k \in DOMAIN r.tab}
       \cup (IF Len(b.best) # 1 \/ r.best \notin DOMAIN r.tab THEN {"there is one best result"}
             ELSE Table(c, e, r.best, b.best[1]))
       \cup ConstraintSheet(c, e.s, b.cons)
       \cup ParameterSheet(e.s, Len(r.tab), b.par)
       \cup PanelSheet(c, e.s, b.panels)
       \cup StructureSheet(e.s, b.mp)
       \cup Need(b.cf = e.s.cf, "the coefficients saved are those given")

Judge(t, e) ==
  CASE e.op = "beam" -> BeamRun(t.c, e)
    [] e.op = "design" -> IF e.k = "exc" /\ e.nothing THEN {}
                          ELSE Returned(e, DesignRun(t.c, e))
    [] e.op = "values" -> IF e.k = "exc" /\ e.nothing THEN {}
                          ELSE Returned(e, ValuesRun(t.c, e))
    [] e.op = "book" -> IF e.k = "exc" /\ e.nothing THEN {}
                        ELSE Returned(e, BookRun(t.c, e))
    [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Trace[tid], Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
