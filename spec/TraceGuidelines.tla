--------------------------- MODULE TraceGuidelines --------------------------
(* Conformance of the guideline checkers, counters and filters.              *)
EXTENDS TraceBase, Guidelines

Sc == 100000

B2I(b) == IF b THEN 1 ELSE 0
Ones(S, n) == [i \in 1..n |-> IF i \in S THEN 1 ELSE 0]

(* junction windows: b plies of the previous plies, the rest of the group    *)
JunctionBad(before, cand, ng, n) ==
  \E b \in 1..Min2(n, Len(before)) :
     LET m == n + 1 - b IN
     /\ m >= 1 /\ m <= ng
     /\ \A i \in 0..(b-1) : before[Len(before) - i] = before[Len(before)]
     /\ \A i \in 1..m : cand[i] = before[Len(before)]
ExtContigOK(e, cand) ==
  ~e.contig \/ Len(e.before) = 0
            \/ ~JunctionBad(e.before, cand, e.ng, e.n)
ExtDisoOK(e, cand) ==
  ~e.diso \/ Len(e.before) = 0
          \/ Turn(cand[1], e.before[Len(e.before)]) <= e.delta
IntContigOK(e, cand) == ~e.contig \/ Contig(cand, e.n)
IntDisoOK(e, cand) == ~e.diso \/ Diso(cand, e.delta)

FilterOK(e, ok(_)) ==
  LET want == {i \in DOMAIN e.cands : ok(e.cands[i])}
      keep == SelectSeq([i \in DOMAIN e.cands |-> <<e.cands[i], i>>],
                        LAMBDA p : p[2] \in want)
      \* candidates are pairwise distinct in the recorded calls
  IN Need(Range(e.r) \subseteq Range(e.cands), "a returned sequence was no candidate")
     \cup Need(\A i \in DOMAIN e.cands : (i \in want) <=> e.cands[i] \in Range(e.r),
               "kept exactly the candidates that satisfy the rule")
     \cup Need(Len(e.r) = Cardinality(want), "each kept candidate once")
     \cup IF e.second
          THEN Need(/\ Len(e.r2) = Len(e.r)
                    /\ \A q \in DOMAIN e.r : \E i \in want :
                          e.cands[i] = e.r[q] /\ e.cands2[i] = e.r2[q],
                    "the second sublaminate is filtered in step with the first")
          ELSE {}

NC(p) == [a \in {p.angles[i] : i \in DOMAIN p.angles} |->
            p.counts[CHOOSE i \in DOMAIN p.angles : p.angles[i] = a]]
RowNC(angles, row) == [a \in {angles[i] : i \in DOMAIN angles} |->
            row[CHOOSE i \in DOMAIN angles : angles[i] = a]]

(* counts (per angle, doubled) to a 10% shortfall in 1/(100 N)               *)
TenOf(p, f) == TenShort(p, f[0], f[45], f[90], f[-45], SumOver(DOMAIN f, LAMBDA a : f[a]))
TotOf(f) == SumOver(DOMAIN f, LAMBDA a : f[a])
TenPenalty(p, f) == IF TotOf(f) = 0 THEN 0
                    ELSE Scaled(TenOf(p, f), 100 * TotOf(f), Sc)
AnyPct(p) == p.p0 + p.p45 + p.p90 + p.p135 + p.p45_135 > 0
StackNC(ss) == [a \in {0, 45, -45, 90} \cup Range(ss) |-> Count(ss, a)]

Boundary(q) == {<<x, (2 * x * x - q * q) \div q>> :
                   x \in {y \in (-q)..q : (y + q) % 4 = 0 \/ y = q}}
               \cup {<<x, q>> : x \in {y \in (-q)..q : (y + q) % 4 = 0 \/ y = q}}
D2(p, x, y) == (p[1] - x) * (p[1] - x) + (p[2] - y) * (p[2] - y)

Clauses(e) ==
  CASE e.op = "is_contig" -> Returned(e,
         Need(e.r = Contig(e.ss, e.n),
              "accepted iff no more than n adjacent plies share a direction"))
    [] e.op = "contig_flag" -> Returned(e,
         Need(e.r = (~e.contig \/ Contig(e.ss, e.n)),
              "accepted iff no more than n adjacent plies share a direction"))
    [] e.op = "contig_vector" -> Returned(e,
         Need(e.r = Ones(ContigBad(e.ss, e.n), Max2(0, Len(e.ss) - e.n)),
              "one entry per window, 1 iff the window violates contiguity"))
    [] e.op = "contig_matrix" -> Returned(e,
         Need(/\ Len(e.r) = Len(e.sss)
              /\ \A p \in DOMAIN e.sss : /\ Len(e.r[p]) = Len(e.sss[p])
                   /\ \A i \in DOMAIN e.r[p] :
                        (e.r[p][i] > 0) <=> i \in ContigBad(e.sss[p], e.n),
              "an entry is positive iff the window starting there violates contiguity"))
    [] e.op = "contig_mp" -> Returned(e,
         Need(e.r = [p \in DOMAIN e.sss |->
                        Cardinality(ContigBad(Core(e.sss[p], e.c), e.n))],
              "number of contiguity violations per panel"))
    [] e.op = "contig_ss" -> Returned(e,
         Need(e.r = Cardinality(ContigBad(Core(e.ss, e.c), e.n)),
              "number of contiguity violations"))
    [] e.op = "viola_penalty" -> Returned(e,
         Need(e.r = [i \in DOMAIN e.viola |->
                 IF e.active THEN Scaled(e.coeff * SumTo(Len(e.viola[i]),
                                    LAMBDA q : e.viola[i][q]), e.norm, Sc)
                 ELSE 0]
              \/ /\ Len(e.r) = Len(e.viola)
                 /\ e.active
                 /\ \A i \in DOMAIN e.viola : IsRat(e.r[i], e.coeff *
                       SumTo(Len(e.viola[i]), LAMBDA q : e.viola[i][q]), e.norm, Sc),
              "penalty is the weighted, normalised number of violations"))
    [] e.op = "is_diso" -> Returned(e,
         Need(e.r = (Turn(e.a, e.b) <= e.delta),
              "accepted iff the directions differ by at most delta modulo 180"))
    [] e.op = "is_diso_ss" -> Returned(e,
         Need(e.r = Diso(Core(e.ss, e.c), e.delta),
              "accepted iff all adjacent plies turn by at most delta"))
    [] e.op = "diso_matrix" -> Returned(e,
         Need(e.r = [p \in DOMAIN e.sss |->
                       Ones(DisoBad(e.sss[p], e.delta), Len(e.sss[p]) - 1)],
              "one entry per adjacent pair, 1 iff it violates disorientation"))
    [] e.op = "diso_mp" -> Returned(e,
         Need(e.r = [p \in DOMAIN e.sss |->
                       Cardinality(DisoBad(Core(e.sss[p], e.c), e.delta))],
              "number of disorientation violations per panel"))
    [] e.op = "diso_n" -> Returned(e,
         Need(e.r = Cardinality(DisoBad(Core(e.ss, e.c), e.delta)),
              "number of disorientation violations"))
    [] e.op = "is_dam_tol" -> Returned(e,
         Need(e.r = DamTol(e.ss, e.c),
              "accepted iff the surface plies satisfy the damage tolerance rule"))
    [] e.op = "is_balanced" -> Returned(e,
         Need(e.r = Balanced(e.ss), "accepted iff every +theta has its -theta"))
    [] e.op = "penalty_bal" -> Returned(e,
         LET f == NC(e) IN
         Need(IF TotOf(f) = 0 THEN e.r = 0
              ELSE IsRat(e.r, e.areas * BalExcess(f), TotOf(f), Sc),
              "balance penalty is the relative excess of angled plies"))
    [] e.op = "penalty_bal_rows" -> Returned(e,
         Need(/\ Len(e.r) = Len(e.rows)
              /\ \A i \in DOMAIN e.rows : LET f == RowNC(e.angles, e.rows[i]) IN
                 IF TotOf(f) = 0 THEN e.r[i] = 0
                 ELSE IsRat(e.r[i], e.areas * BalExcess(f), TotOf(f), Sc),
              "balance penalty is the relative excess of angled plies"))
    [] e.op = "ten_stack" -> Returned(e,
         Need(e.r = TenOKRelaxed(e.p, Count(e.ss, 0), Count(e.ss, 45),
                       Count(e.ss, 90), Count(e.ss, -45), Len(e.ss),
                       e.eq45, e.eq090),
              "accepted iff every minimum ply percentage is met"))
    [] e.op = "ten_queue" -> Returned(e,
         LET q(a) == QueueCount(e.ss, e.queue, e.sym, a) IN
         Need(e.r = TenOKRelaxed(e.p, q(0), q(45), q(90), q(-45),
                       Len(e.ss), e.eq45, e.eq090),
              "placed and queued plies together meet the minimum percentages"))
    [] e.op = "ten_counts" -> Returned(e,
         LET f == NC(e) IN
         Need(e.r = (~AnyPct(e.p) \/ TenOf(e.p, f) = 0),
              "accepted iff every minimum ply percentage is met"))
    [] e.op = "ten_penalty_ss" -> Returned(e,
         Need(IF AnyPct(e.p) THEN Near(e.r, TenPenalty(e.p, StackNC(e.ss)), 2)
              ELSE e.r = 0,
              "10% penalty is the total shortfall of the minimum percentages"))
    [] e.op = "ten_penalty_mp" -> Returned(e,
         Need(/\ Len(e.r) = Len(e.sss)
              /\ \A i \in DOMAIN e.sss :
                 IF AnyPct(e.p) THEN Near(e.r[i], TenPenalty(e.p, StackNC(e.sss[i])), 2)
                 ELSE e.r[i] = 0,
              "10% penalty is the total shortfall of the minimum percentages"))
    [] e.op = "ten_penalty_pc" -> Returned(e,
         LET f == NC(e) IN
         Need(IF AnyPct(e.p) THEN Near(e.r, e.areas * TenPenalty(e.p, f), 2 * e.areas)
              ELSE e.r = 0,
              "10% penalty is the total shortfall of the minimum percentages")
         \cup Need((e.r = 0) <=> (~AnyPct(e.p) \/ TotOf(f) = 0 \/ TenOf(e.p, f) = 0),
              "10% penalty is zero exactly when the rule is met"))
    [] e.op = "ten_penalty_pc_rows" -> Returned(e,
         Need(/\ Len(e.r) = Len(e.rows)
              /\ \A i \in DOMAIN e.rows : LET f == RowNC(e.angles, e.rows[i]) IN
                 IF AnyPct(e.p) THEN Near(e.r[i], e.areas * TenPenalty(e.p, f), 2 * e.areas)
                 ELSE e.r[i] = 0,
              "10% penalty is the total shortfall of the minimum percentages"))
    [] e.op = "ply_counts" -> Returned(e,
         Need(/\ Len(e.r) = Len(e.sss)
              /\ \A p \in DOMAIN e.sss :
                   e.r[p] = [i \in DOMAIN e.angles |-> Count(e.sss[p], e.angles[i])],
              "ply counts per direction"))
    [] e.op = "abdalla_ok" -> Returned(e,
         Need(e.r = AbdallaOK(e.q, e.lx, e.ly),
              "accepted iff the parameters lie in the admissible region"))
    [] e.op = "abdalla_distance" -> Returned(e,
         IF AbdallaOK(e.q, e.lx, e.ly)
         THEN Need(e.r = 0, "no distance inside the admissible region")
         ELSE Need(e.r > 0, "positive distance outside the admissible region")
              \cup Need(/\ \E p \in Boundary(e.q) : D2(p, e.lx, e.ly) <= (e.r + 6) * (e.r + 6)
                        /\ \A p \in Boundary(e.q) :
                              e.r < 6 \/ D2(p, e.lx, e.ly) >= (e.r - 6) * (e.r - 6),
                   "distance to the nearest admissible point"))
    [] e.op = "abdalla_distances" -> Returned(e,
         Need(/\ Len(e.r) = Len(e.pts)
              /\ \A i \in DOMAIN e.pts :
                   (e.r[i] = 0) <=> AbdallaOK(e.q, e.pts[i][1], e.pts[i][2]),
              "no distance inside, positive distance outside the admissible region"))
    [] e.op = "internal_contig" -> Returned(e,
         FilterOK(e, LAMBDA s : IntContigOK(e, s)))
    [] e.op = "internal_diso_contig" -> Returned(e,
         FilterOK(e, LAMBDA s : IntContigOK(e, s) /\ IntDisoOK(e, s)))
    [] e.op = "external_contig" -> Returned(e,
         FilterOK(e, LAMBDA s : ExtContigOK(e, s)))
    [] e.op = "external_diso_contig" -> Returned(e,
         FilterOK(e, LAMBDA s : ExtContigOK(e, s) /\ ExtDisoOK(e, s)))
    [] OTHER -> {"unknown operation in the trace"}

TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == More /\ Say(Clauses(Step)) /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
