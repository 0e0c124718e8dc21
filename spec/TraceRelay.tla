----------------------------- MODULE TraceRelay -----------------------------
(* Replays recorded relay runs: each step is one stage (or the whole relay)   *)
(* applied to the stack and queue of the step before.                          *)
EXTENDS Flex, TraceBase

Whole(ss, queue, sym) == Placed(ss, queue, sym)

(* op "count": ss -> r.ss, r.queue; d0, d1 distances to the region of Abdalla *)
(* before and after (scaled by 10^6), 0 otherwise                              *)
CountStage(c, e) ==
  LET n == Len(e.ss)
      out == e.r.ss
      q == e.r.queue
      fixed == FixMiddle(c, e.ss)
      k == Keep(c, e.ss)
      K == IF ActiveCount(c) THEN k ELSE Slots(c.sym, n)
      kept == Positions(c.sym, n, 1..K)
      mid == IF HasMiddle(c.sym, n) THEN {Middle(n)} ELSE {}
  IN IF ~ActiveCount(c)
     THEN Need(out = e.ss /\ q = <<>>, "nothing to repair, nothing changed")
     ELSE IF ~Feasible(c, n) THEN {}
     ELSE Need(Len(out) = n, "the laminate keeps its thickness")
     \cup Need(Handover(c, out, q),
               "unknown plies are innermost, one queued ply for each")
     \cup Need(BalMet(c, out, q), "the laminate is balanced")
     \cup IF c.ten /\ c.abdalla
          THEN Need(\/ e.d1 <= 1 \/ e.d1 <= e.d0
                       \/ k < Slots(c.sym, n),
                    "the 10% rule of a balanced laminate gets no worse")
               \cup Need(e.d1 <= 1 => AbdallaNear(c, Whole(out, q, c.sym), 3000),
                         "a laminate at distance 0 is in the region")
               \cup Need((e.d0 = 0 /\ k = Slots(c.sym, n) /\ fixed = e.ss)
                           => out = e.ss,
                         "a compliant laminate is not changed")
          ELSE Need(TenMet(c, out, q), "the 10% rule holds on ply counts")
               \cup Need(\A i \in (kept \cup mid) : out[i] = fixed[i],
                         "the outer plies that can be kept are kept")
               \cup Need(\A i \in UnknownSlots(out, c.sym) : i > K,
                         "as many outer plies as possible are kept")

(* op "order": ss, queue, nd1 -> r.ss, r.inward, r.outward *)
OrderStage(c, e) ==
  LET n == Len(e.ss)
      out == e.r.ss
      mid == IF HasMiddle(c.sym, n) THEN {Middle(n)} ELSE {}
      full == Unknown \notin Range(e.ss)
      F == FixedPlies(c)
      fixed == ((1..F) \cup ((n + 1 - F)..n)) \cap (1..n)
      free == FreePlies(c, e.ss, e.queue)
  IN Need(Len(out) = n, "the laminate keeps its thickness")
     \cup Need(Unknown \notin Range(out), "every ply is known")
     \cup Need(SameBag(out, Placed(e.ss, e.queue, c.sym)),
               "the plies are the kept and the queued ones")
     \cup Need(c.sym => Symmetric(out), "the laminate stays symmetric")
     \cup IF Len(out) # n THEN {} ELSE
          Need(\A i \in mid : out[i] = e.ss[i], "the middle ply stays")
     \cup Need(\A i \in fixed : e.ss[i] # Unknown => out[i] = e.ss[i],
               "the damage tolerance plies stay")
     \cup Need(e.r.inward => e.r.outward, "inward success is a success")
     \cup Need(e.r.outward => Ordered(c, out),
               "success means disorientation and contiguity hold")
     \cup Need(full /\ Ordered(c, e.ss) => (out = e.ss /\ e.r.outward),
               "a compliant laminate is not changed")
     \cup Need((/\ Len(free) <= Min2(e.nd1, 5) /\ Len(free) >= 1
                /\ AnchorsKnown(c, e.ss)
                /\ CanBeOrdered(c, e.ss, e.queue))
                 => e.r.outward,
               "an order is found when all plies are permuted and one exists")

(* op "refine": ss, queue, pa, coef, target (scaled by 5000) -> r.list of      *)
(* [ss, queue], best first; r.lp (scaled by 10^6); r.obj (scaled by 10^6);    *)
(* r.rank: position of each objective among the sorted distinct ones; on:     *)
(* FALSE when the refinement is switched off                                   *)
RefineEntry(c, e, x) ==
  LET n == Len(e.ss)
      R == Region(c, n, e.pa) \cup (IF c.sym THEN {n + 1 - i : i \in Region(c, n, e.pa)} ELSE {})
  IN Need(Len(x.ss) = n, "the laminate keeps its thickness")
     \cup Need(Handover(c, x.ss, x.queue),
               "unknown plies are innermost, one queued ply for each")
     \cup Need(UnknownSlots(x.ss, c.sym) = UnknownSlots(e.ss, c.sym),
               "the same plies are unknown")
     \cup Need(\A i \in 1..n : i \notin R => x.ss[i] = e.ss[i],
               "only plies of the inner part of the laminate change")
     \cup Need(BalMet(c, e.ss, e.queue) => BalMet(c, x.ss, x.queue),
               "the laminate stays balanced")
     \cup (IF c.ten /\ c.abdalla THEN {}
           ELSE Need(TenMet(c, e.ss, e.queue) => TenMet(c, x.ss, x.queue),
                     "the 10% rule goes on holding on ply counts"))
Precise(coef, lp, target) ==   \* error bound of ObjA at scale 5000
  SumTo(4, LAMBDA k : coef[k] * (4 * AbsI(lp[k] - target[k]) + 8)) + 25
Gain(c, e, x, m) ==  \* how much a change would improve the objective
  LET lp == [k \in 1..4 |-> LampamA(Placed(x.ss, x.queue, c.sym), k, 5000)]
      lq == LampamAfter(c, x.ss, x.queue, m, 5000)
  IN (ObjA(e.coef, lp, e.target) - ObjA(e.coef, lq, e.target))
     - (Precise(e.coef, lp, e.target) + Precise(e.coef, lq, e.target))
AbdallaInside(c, lp) ==     \* clearly inside; lp scaled by 5000
  LET x == lp[1] \div 5  y == lp[2] \div 5 IN
  /\ c.q * c.q + c.q * y - 2 * x * x >= 6000
  /\ y <= c.q - 10 /\ y >= -990
CanMove(c, e, x, m) ==
  /\ Available(c, x.ss, x.queue, e.pa, m)
  /\ IF c.ten /\ c.abdalla
     THEN AbdallaInside(c, LampamAfter(c, x.ss, x.queue, m, 5000))
     ELSE TenAfter(c, x.ss, x.queue, m)
RefineStage(c, e) ==
  LET L == e.r.list
      N == Len(L)
      off == ~e.on \/ \A k \in 1..4 : e.coef[k] = 0
      plies(x) == Placed(x.ss, x.queue, c.sym)
  IN Need(N >= 1 /\ Len(e.r.lp) = N, "one set of lamination parameters per candidate")
     \cup IF N < 1 \/ Len(e.r.lp) # N THEN {} ELSE
     Need(L[N].ss = e.ss /\ SameBag(L[N].queue, e.queue), "the last candidate is the input")
     \cup Need(off => N = 1, "nothing to refine, nothing changed")
     \cup UNION {RefineEntry(c, e, L[i]) : i \in 1..N}
     \cup Need(\A i \in 1..N : Len(plies(L[i])) = Len(e.ss)
                  => \A k \in 1..4 : Near(e.r.lp[i][k], LampamA(plies(L[i]), k, 1000000), 5),
               "the lamination parameters reported are those of the candidate")
     \cup Need(\A i \in 1..N-1 : \E m \in (Moves(c) \cup Swaps(c)) :
                  IsMove(c, L[i+1].ss, L[i+1].queue, L[i].ss, L[i].queue, m),
               "each candidate differs by one change from the next one")
     \cup Need(\A i \in 1..N-1 :
                  InnermostFirst(c, e.pa, L[i+1].ss, L[i+1].queue, L[i].ss, L[i].queue),
               "the innermost plies of an orientation change first")
     \cup Need((c.ten /\ c.abdalla) =>
                  \A i \in 1..N-1 : AbdallaNear(c, plies(L[i]), 3000),
               "candidates lie in the region of Abdalla")
     \cup IF off \/ Len(e.r.obj) # N THEN {} ELSE
     Need(\A i \in 1..N-1 : e.r.rank[i] < e.r.rank[i+1],
          "each change improves the objective")
     \cup Need(\A i \in 1..N :
                 LET lp == [k \in 1..4 |-> e.r.lp[i][k] \div 200]
                 IN Near(e.r.obj[i], ObjA(e.coef, lp, e.target) \div 25,
                         Precise(e.coef, lp, e.target) \div 25 + 2),
               "the objective reported is that of the candidate")
     \cup Need(e.r.obj[1] <= 1 \/ \E i \in 1..Min2(N, IF c.bal THEN 2 ELSE 1) :
                 \A m \in Moves(c) : CanMove(c, e, L[i], m) => Gain(c, e, L[i], m) <= 0,
               "no admissible change improves the best candidate")
     \cup Need(e.r.obj[1] <= 1 \/ \A m \in Swaps(c) :
                 (CanMove(c, e, L[1], m) /\ Gain(c, e, L[1], m) > 0)
                   => /\ N > 1
                      /\ \E k \in Swaps(c) : IsMove(c, L[2].ss, L[2].queue,
                                                  L[1].ss, L[1].queue, k),
               "no admissible swap of 0 and 90 improves the best candidate")

(* op "flex": ss, kind, coef, target (scaled by 5000), nd2, nd3, on -> r.ss,   *)
(* r.calls; kind: swap, shift, free (shifts without rules) or stage (all of it)*)
Blur(coef, d, target) ==   \* error bound of ObjD
  SumTo(4, LAMBDA k : coef[k] * (10 * AbsI(d[k] - target[k]) + 40)) + 10
FlexGain(e, s, s2) ==
  LET d == LampamDs(s, 5000)  d2 == LampamDs(s2, 5000)
  IN (ObjA(e.coef, d, e.target) - ObjA(e.coef, d2, e.target))
FlexBlur(e, s, s2) ==
  Blur(e.coef, LampamDs(s, 5000), e.target) + Blur(e.coef, LampamDs(s2, 5000), e.target)
Better(e, s, s2) == FlexGain(e, s, s2) > FlexBlur(e, s, s2)
Worse(e, s, s2) == FlexGain(e, s, s2) < -FlexBlur(e, s, s2)
BlockMoves(c, s, b) ==   \* results of the swaps with b as the outer block
  {x \in {SwapBlocks(c, s, p[1], p[2]) : p \in {q \in BlockSwaps(c, s) : q[1] = b}} :
     Strict(c, x)}
ShiftMoves(c, s, i, w, free) ==
  {x \in {Shift(c, s, m[1], m[2]) : m \in Shifts(c, Len(s), i, w)} :
     x # s /\ (free \/ Strict(c, x))}
(* the first place with a move that improves s is improved, and the later     *)
(* ones make nothing worse                                                     *)
FirstMoves(e, s, moves) ==  \* moves: sequence of sets of stacks
  LET good == {i \in DOMAIN moves : \E x \in moves[i] : ~Worse(e, s, x)}
  IN IF good = {} THEN {}
     ELSE LET i == CHOOSE i \in good : \A j \in good : i <= j
          IN {x \in moves[i] : Better(e, s, x)}
FlexMoves(c, e) ==
  LET n == Len(e.ss)
      rules == c.diso \/ c.contig
      B == SetToSortSeq({b \in Blocks(c, e.ss) : TRUE}, LAMBDA x, y : x[1] < y[1])
      V == Len(Visit(c, n))
  IN IF e.kind = "swap" \/ (e.kind = "stage" /\ rules)
     THEN [i \in 1..Len(B) |-> BlockMoves(c, e.ss, B[i])]
     ELSE [i \in 1..V |-> ShiftMoves(c, e.ss, i, e.nd2,
                                     e.kind = "free" \/ ~rules)]
FlexStage(c, e) ==
  LET s2 == e.r.ss
      n == Len(e.ss)
      off == (e.kind = "stage" /\ ~e.on) \/ \A k \in 1..4 : e.coef[k] = 0
      free == e.kind = "free" \/ (e.kind = "stage" /\ ~c.diso /\ ~c.contig)
      blocks == e.kind = "swap" \/ (e.kind = "stage" /\ ~free)
      V == Len(Visit(c, n))
      tries == SumTo(V, LAMBDA i : Min2(e.nd2, V - i))
      M == FlexMoves(c, e)
  IN Need(Len(s2) = n, "the laminate keeps its thickness")
     \cup IF Len(s2) # n THEN {} ELSE
     Need(SameBag(e.ss, s2), "plies are only permuted")
     \cup Need(c.sym => Symmetric(s2), "the laminate stays symmetric")
     \cup Need(\A i \in 1..n : i \notin Movable(c, n) => s2[i] = e.ss[i],
               "the plies of damage tolerance and the middle ply stay")
     \cup IF ~SameBag(e.ss, s2) THEN {} ELSE
     Need(off => s2 = e.ss, "nothing to repair, nothing changed")
     \cup Need((~free /\ Strict(c, e.ss)) => Strict(c, s2),
               "disorientation and contiguity still hold")
     \cup Need((~free /\ Ordered(c, e.ss)) => Ordered(c, s2),
               "disorientation and contiguity still hold inside")
     \cup Need(s2 = e.ss \/ ~Worse(e, e.ss, s2), "the objective does not get worse")
     \cup Need(~off => e.r.calls >= 1, "the objective is computed")
     \cup Need(e.kind = "shift" => e.r.calls <= 1 + tries,
               "no more than the prescribed number of shifts per ply")
     \cup Need(e.kind = "free" => e.r.calls = 1 + tries,
               "the prescribed number of shifts per ply")
     \cup IF off \/ n > 30 \/ ~(free \/ Strict(c, e.ss)) THEN {} ELSE
     IF blocks /\ ~c.sym
     THEN Need((\E i \in DOMAIN M : \E x \in M[i] : Better(e, e.ss, x)) => s2 # e.ss,
               "improving swaps are found")
     ELSE Need(\A x \in FirstMoves(e, e.ss, M) : ~Better(e, s2, x),
               "the outermost ply or block that can improve the laminate does so")

(* op "relay": the whole repair; ss -> r.ss, r.ok; d1: distance of the result  *)
(* to the region of Abdalla (0 otherwise); refines: some refinement is on      *)
(* compliant, and without counting on the middle ply for the 10% rule *)
Settled(c, ss) == Finished(c, ss) /\ Feasible(c, Len(ss)) /\ Keep(c, ss) = Slots(c.sym, Len(ss))
                  /\ FixMiddle(c, ss) = ss
RelayRun(c, e) ==
  LET out == e.r.ss
      n == Len(e.ss)
  IN Need(Len(out) = n, "the laminate keeps its thickness")
     \cup IF Len(out) # n THEN {} ELSE
     Need(~e.r.ok => out = e.ss, "what cannot be repaired comes back unchanged")
     \cup Need(DamTol(e.ss, c) => DamTol(out, c), "damage tolerance still holds")
     \cup Need(e.r.ok => Range(out) \subseteq Range(c.angles),
               "a repaired laminate has allowed orientations only")
     \cup Need((e.r.ok /\ c.sym /\ Symmetric(e.ss)) => Symmetric(out),
               "a repaired laminate is symmetric")
     \cup Need(e.r.ok => Ordered(c, out),
               "a repaired laminate meets disorientation and contiguity")
     \cup Need(e.r.ok => BalMet(c, out, <<>>), "a repaired laminate is balanced")
     \cup Need(e.r.ok /\ ~(c.ten /\ c.abdalla) => TenMet(c, out, <<>>),
               "a repaired laminate meets the 10% rule")
     \cup Need(e.r.ok /\ c.ten /\ c.abdalla => e.d1 <= 1 /\ AbdallaNear(c, out, 3000),
               "a repaired laminate lies in the region of Abdalla")
     \cup Need((Settled(c, e.ss) /\ e.d0 = 0) => e.r.ok,
               "a compliant laminate is no failure")
     \cup Need((Settled(c, e.ss) /\ e.d0 = 0 /\ ~e.refines) => out = e.ss,
               "a compliant laminate is not changed when nothing is refined")
     \cup Need((~c.diso /\ ~c.contig /\ ~(c.ten /\ c.abdalla) /\ ~c.dam_tol
                 /\ Feasible(c, n)) => e.r.ok,
               "the 10% rule and balance alone can always be repaired")
     \cup Need((~e.refines /\ e.r.ok /\ ~c.diso /\ ~c.contig /\ ~(c.ten /\ c.abdalla)
                 /\ Feasible(c, n) /\ ActiveCount(c))
                  => \A i \in Positions(c.sym, n, 1..Keep(c, e.ss)) : out[i] = e.ss[i],
               "the outer plies that can be kept are kept")

Judge(t, e) ==
  CASE e.op = "count" -> Returned(e, CountStage(t.c, e))
    [] e.op \in {"order", "order_list"} -> Returned(e, OrderStage(t.c, e))
    [] e.op = "refine" -> Returned(e, RefineStage(t.c, e))
    [] e.op = "flex" -> Returned(e, FlexStage(t.c, e))
    [] e.op = "relay" -> Returned(e, RelayRun(t.c, e))
    [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Trace[tid], Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
