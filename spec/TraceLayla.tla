----------------------------- MODULE TraceLayla -----------------------------
(* Replays recorded runs of LAYLA.                                            *)
EXTENDS Layla, TraceBase
Bl == INSTANCE Blending

(* e: q, gmin, gmax (per run), most (runs at most), why (of a refusal), runs:  *)
(* g (sizes of the groups), nodes (lay-ups out of the search: a before, z      *)
(* after the repair, ok), best (<<>> if none), obj, lp, zero (no distance to   *)
(* the targets), last, rep, uniq (counters); r: result                         *)
Core2(c, n, g) ==
  IF c.sym /\ n % 2 = 1 THEN [g EXCEPT ![Len(g)] = @ - 1] ELSE g
Prev(e, k) == IF k = 1 THEN <<>> ELSE e.runs[k - 1].best
Fit(c, e, k) ==
  LET n == IF c.sym THEN e.q.n \div 2 ELSE e.q.n
  IN n >= 1 /\ Bl!MinGroups(n, e.gmin, e.gmax[k]) > 0
GroupClauses(c, e, k) ==
  LET run == e.runs[k]  n == e.q.n  g == run.g  w == IF c.sym THEN n \div 2 ELSE n IN
  Need(Fit(c, e, k) /\ g # <<>>, "a partition into groups that does not exist")
  \cup Need(g # <<>> => Bl!GroupsOK(Core2(c, n, g), w, e.gmin, e.gmax[k]),
            "fewest groups within the size limits that hold all plies")

SearchRun(c, e, k) ==
  LET q == e.q  n == q.n  run == e.runs[k]
      bad == GroupClauses(c, e, k)
      b == LayRun(c, q, run.g, Prev(e, k))
      ins == {x.a : x \in Range(run.nodes)}
      blur == LayBlur(c, q)
      fine == {x.z : x \in {y \in Range(run.nodes) : y.ok}}
  IN IF bad # {} THEN bad
     ELSE
     Need(Cardinality(ins) = Len(run.nodes), "a lay-up is examined twice")
     \cup Need(\A s \in ins : Compliant(c, n, s) /\ (c.sym => Symmetric(s)),
               "a lay-up out of the search breaks a guideline")
     \cup Need({GuideOf(c, n, x) : x \in b.sure} \subseteq ins,
               "the best partial lay-ups do not survive")
     \cup Need(b.lost \/ ins \subseteq {GuideOf(c, n, x) : x \in b.may},
               "other lay-ups than the best survive")
     \cup (IF run.best = <<>>
           THEN Need(fine = {}, "a lay-up was found and is not returned")
           ELSE Need(run.best \in fine, "the laminate is not one of the repaired lay-ups")
                \cup LET mine == LayWorth(c, q, run.best)
                     IN Need(\A s \in fine : LayWorth(c, q, s) + 2 * blur >= mine,
                             "a better lay-up was not chosen"))

(* ---- op "search": the search of each run -----------------------------------*)
SearchOp(c, e) ==
  UNION {SearchRun(c, e, k) : k \in {j \in DOMAIN e.runs : e.runs[j].g # <<>>}}
(* a run that stopped before its last group: nothing was found *)
Stopped(c, e) ==
  LET k == Len(e.runs) IN
  IF k = 0 THEN FALSE ELSE
  CASE e.why = "partition" -> ~Fit(c, e, k)
    [] e.why = "repair" -> e.runs[k].nodes # <<>> /\ \A x \in Range(e.runs[k].nodes) : ~x.ok
    [] e.why = "search" -> e.runs[k].nodes = <<>>
    [] OTHER -> FALSE

(* ---- op "design": the laminate returned -------------------------------------*)
LayRules(c, n, s) ==
  Need(Len(s) = n, "the laminate has its number of plies")
  \cup Need(Range(s) \subseteq Range(c.angles), "only allowed orientations occur")
  \cup Need(c.sym => Symmetric(s), "the laminate is symmetric")
  \cup Need(DamTol(s, c), "the laminate is damage tolerant")
  \cup Need(BalMet(c, s, <<>>), "the laminate is balanced")
  \cup Need(Ordered(c, s), "the laminate meets disorientation and contiguity")
  \cup Need(TenMet(c, s, <<>>), "the laminate meets the 10% rule")
Lps(s, lp) == \A k \in 1..12 : Near(10 * lp[k], Lampam(s, k), 7)
DesignOp(c, e) ==
  LET q == e.q  n == q.n  m == Len(e.runs)
      stacks == [k \in 1..m |-> e.runs[k].best]
  IN
  UNION {LayRules(c, n, stacks[k]) : k \in {j \in 1..m : stacks[j] # <<>>}}
  \cup UNION {
    LET run == e.runs[k] IN
    IF run.best = <<>> \/ Len(run.best) # n THEN {} ELSE
    Need(Near(run.obj, LayWorth(c, q, run.best), LayBlur(c, q)),
         "the objective is the distance to the targets, with penalties")
    \cup Need(Lps(run.best, run.lp), "the lamination parameters are those of the laminate")
    \cup Need(/\ run.last = Len(run.nodes)
              /\ run.rep = Cardinality({i \in DOMAIN run.nodes : run.nodes[i].ok})
              /\ run.uniq = Cardinality({x.z : x \in {y \in Range(run.nodes) : y.ok}}),
              "the numbers of lay-ups found and repaired")
    : k \in 1..m}
  \* the runs end when nothing changes any more
  \cup Need(m <= e.most, "more runs than asked for")
  \cup Need(\A k \in 1..(m - 1) : ~e.runs[k].zero /\ (k > 1 => stacks[k] # stacks[k - 1]),
            "a run after the laminate has converged")
  \cup (IF e.k = "exc" THEN {}
        ELSE IF m = 0 THEN {"a laminate without a run"}
        ELSE LET r == e.r IN
        Need(r.shown, "the result can be displayed")
        \cup Need(m = e.most \/ e.runs[m].zero \/ (m > 1 /\ stacks[m] = stacks[m - 1]),
             "the runs ended too early")
        \cup Need(r.done /\ r.steps = m /\ r.best \in 1..m, "the result is complete")
        \cup Need(r.best \in 1..m => /\ r.ss = stacks[r.best]
                                     /\ r.obj = e.runs[r.best].obj
                                     /\ r.lp = e.runs[r.best].lp
                                     /\ \A k \in 1..m : r.obj <= e.runs[k].obj,
                  "the best run is returned")
        \cup Need(\A k \in 1..m : /\ r.tab[k].ss = stacks[k] /\ r.tab[k].obj = e.runs[k].obj
                                  /\ r.tab[k].lp = e.runs[k].lp /\ r.tab[k].last = e.runs[k].last
                                  /\ r.tab[k].rep = e.runs[k].rep
                                  /\ r.tab[k].uniq = e.runs[k].uniq,
                  "the tables hold the result of each run")
        \cup Need(Len(r.tab) = e.most /\ \A k \in (m + 1)..Len(r.tab) : r.tab[k].obj = -1,
                  "the tables hold a run that did not take place"))

(* ---- op "saved": the set-up read back from its workbook ---------------------*)
Zeroes == [p0 |-> 0, p45 |-> 0, p90 |-> 0, p135 |-> 0, p45_135 |-> 0]
SavedOp(c, e) ==
  LET x == e.r.cons  y == e.r.par  q == e.q  p == e.par
      sum == SumTo(12, LAMBDA k : q.w[k])
  IN
  Need(/\ x.sym = c.sym /\ x.balance = c.balance /\ x.ipo = c.ipo
       /\ x.oopo = c.oopo /\ x.dam_tol = c.dam_tol
       /\ (c.dam_tol => x.dam_tol_rule = c.dam_tol_rule)
       /\ x.ten = c.ten /\ x.p = (IF c.ten THEN c.p ELSE Zeroes)
       /\ x.diso = c.diso /\ x.delta = (IF c.diso THEN c.delta ELSE 180)
       /\ x.contig = c.contig
       /\ x.n_contig = (IF c.contig THEN c.n_contig ELSE 1000000000)
       /\ x.angles = c.angles, "the guidelines saved are those given")
  \cup Need(/\ y.most = Len(e.gmax) /\ y.glob = q.glob /\ y.globp = q.globp
            /\ y.loc = q.loc /\ y.locf = q.locf /\ y.gmin = e.gmin
            /\ y.gmax = e.gmax /\ y.norm = q.norm
            /\ y.membrane = p.membrane /\ y.flexural = p.flexural
            /\ y.p_A = p.p_A /\ y.n_D1 = p.n_D1 /\ y.n_D2 = p.n_D2
            /\ y.n_D3 = p.n_D3, "the parameters saved are those given")
  \cup Need(/\ y.sten = (c.ten /\ q.sten) /\ y.sbal = (c.balance /\ q.sbal)
            /\ y.sipo = (c.ipo /\ q.sipo)
            /\ y.cb = (IF c.ipo THEN q.cb ELSE 0)
            /\ y.co = (IF c.oopo THEN q.co ELSE 0)
            /\ y.c10 = (IF c.ten THEN q.c10 ELSE 0),
            "the penalties saved are those given")
  \cup Need(/\ y.lams = e.lams
            /\ \A k \in 1..12 : y.w[k] = 1000000 * q.w[k],
            "the weightings saved are those given")

Judge(t, e) ==
  IF e.k = "odd" THEN {"the result is malformed"}
  ELSE IF e.op = "saved" THEN Returned(e, SavedOp(t.c, e))
  ELSE IF e.k = "exc" /\ ~Stopped(t.c, e) THEN {"refused although a laminate exists"}
  ELSE CASE e.op = "search" -> SearchOp(t.c, e)
         [] e.op = "design" -> DesignOp(t.c, e)
         [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Trace[tid], Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
