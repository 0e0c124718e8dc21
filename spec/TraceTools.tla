------------------------------ MODULE TraceTools ------------------------------
(* Replays recorded uses of the tools.                                          *)
EXTENDS Tools, TraceBase

(* op "cycle": n, r: subsets and ranks of successive calls from rank -1          *)
JudgeCycle(e) ==
  Need(/\ Len(e.r) = e.calls
       /\ \A k \in DOMAIN e.r : Len(e.r[k].t) = e.n
       /\ e.r[1] = [t |-> Zeros(e.n), rank |-> 0]
       /\ \A k \in 1..(Len(e.r) - 1) :
            e.r[k + 1] = NextSubset(e.r[k].t, e.r[k].rank), "every subset in order")
(* op "sums": problems searched in turns; r: what each call gave                 *)
JudgeSums(e) ==
  UNION {LET mine == SelectSeq(e.r, LAMBDA c : c.who = k)
             sol == {mine[i].u : i \in {j \in DOMAIN mine : mine[j].more = 1}} IN
    Need(\A u \in sol : SumOf(u, e.probs[k].v) = e.probs[k].s, "subsets with the sum")
    \cup Need(sol = Solutions(e.probs[k].v, e.probs[k].s), "every solution is found")
    \cup Need(Len(mine) = Cardinality(sol) + 1 /\ mine[Len(mine)].more = 0
              /\ \A i \in 1..(Len(mine) - 1) : mine[i].more = 1,
              "each solution once, then the end")
    \cup Need(\A i \in DOMAIN mine : mine[i].more = 1 =>
                mine[i].top = BackUp(mine[i].u, Len(mine[i].u)), "the last value chosen")
    : k \in DOMAIN e.probs}
(* op "sum": v, s; r: number of solutions, one of them, the table and the lists  *)
(* of values for the sums of the table                                           *)
JudgeSum(e) ==
  LET sol == Solutions(e.v, e.s)
      lim(k) == IF k = 0 THEN {} ELSE {k}
  IN Need(e.r.count = Cardinality(sol), "the number of solutions")
     \cup Need(IF sol = {} THEN e.r.find = Zeros(Len(e.v)) ELSE e.r.find \in sol,
               "a solution if there is one")
     \cup Need(Len(e.r.table) = e.s + 1, "a table up to the sum")
     \cup Need(Len(e.r.table) = e.s + 1 =>
               \A i \in 1..e.s : (e.r.table[i + 1] # 0) <=> i \in Formed(e.v, e.s),
               "the sums that can be formed")
     \cup Need(\A i \in DOMAIN e.r.lists :
                 LET w == e.r.lists[i].values IN
                 /\ e.r.lists[i].m = Len(w)
                 /\ \A x \in ToSet(w) : Count(w, x) <= Count(e.v, x)
                 /\ IF i \in Formed(e.v, e.s) THEN FoldLeft(LAMBDA a, b : a + b, 0, w) = i
                    ELSE w = <<>>, "values that make up the sum")
(* op "backup": u, told *)
JudgeBackup(e) == Need(e.r = BackUp(e.u, e.told), "the last one before")
(* op "sort": s, order; r *)
JudgeSort(e) == Need(Same(e.r, e.s), "the same values")
                \cup Need(SortedBy(e.r, e.order), "in the order asked for")
(* op "first": s sorted, v; r: position counted from 0, -1 if absent *)
JudgeFirst(e) ==
  LET at == {i \in DOMAIN e.s : e.s[i] = e.v} IN
  Need(e.r = IF at = {} THEN -1 ELSE Min(at) - 1, "the first place of a value")
(* op "gap": a, b; r: least angle, angle to turn by *)
JudgeGap(e) == Need(e.r = <<AbsOf(TurnBy(e.a, e.b)), TurnBy(e.a, e.b)>>, "the angle between orientations")
(* op "distance": plies i and j (or -1) of n; q: status, angle, three coefficients *)
JudgeDistance(e) ==
  LET d == (Apart(e.i, e.j, e.n) * 1000000) \div e.n
      q == e.q IN
  Need(AbsOf(e.r[1] - d) <= 1, "the distance of plies")
  \cup Need(Len(e.r) = 1 \/ AbsOf(e.r[2] - (-q[3] * q[1] * 10000 + (q[4] * q[2] * 10000) \div 180
            + (q[5] * Apart(e.i, e.j, e.n) * 10000) \div e.n)) <= 3, "the preference for a ply")
JudgeMax(e) ==
  IF e.a # <<>> /\ e.b # <<>> /\ (Len(e.a) = 1 \/ Len(e.b) = 1 \/ Len(e.a) = Len(e.b))
  THEN Returned(e, Need(e.r = Maxima(e.a, e.b), "the greater value at each place"))
  ELSE Refused(e)
(* op "lines": lists shown with at most n elements in a line *)
JudgeLines(e) ==
  LET RECURSIVE all(_)
      all(k) == IF k > Len(e.lists) THEN <<>> ELSE Lines(e.lists[k], e.n) \o all(k + 1)
  IN Need(e.r.lines = all(1), "the elements line by line")
     \cup Need(e.r.kept = 1, "what is shown is not modified")
(* op "lampam": a, b (empty for none), diff; r: rows of numbers *)
JudgeLampam(e) ==
  Need(e.r.names = [i \in 1..12 |-> i], "the parameters in order")
  \cup Need(Len(e.r.rows) = 12 /\ \A i \in DOMAIN e.r.rows :
       LET w == e.r.rows[i] IN
       w = IF e.b = <<>> THEN <<e.a[i]>>
           ELSE IF e.diff = 0 THEN <<e.a[i], e.b[i]>>
           ELSE <<e.a[i], e.b[i], e.b[i] - e.a[i]>>, "the values of the parameters")

Judge(e) ==
  IF e.op = "max" THEN JudgeMax(e)
  ELSE IF e.k = "odd" THEN {"the result is malformed"}
  ELSE IF e.k = "exc" THEN {"the call raised an exception"}
  ELSE CASE e.op = "cycle" -> JudgeCycle(e)
         [] e.op = "sums" -> JudgeSums(e)
         [] e.op = "sum" -> JudgeSum(e)
         [] e.op = "gap" -> JudgeGap(e)
         [] e.op = "distance" -> JudgeDistance(e)
         [] e.op = "backup" -> JudgeBackup(e)
         [] e.op = "sort" -> JudgeSort(e)
         [] e.op = "first" -> JudgeFirst(e)
         [] e.op = "lines" -> JudgeLines(e)
         [] e.op = "lampam" -> JudgeLampam(e)
         [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
