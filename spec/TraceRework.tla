----------------------------- MODULE TraceRework -----------------------------
(* Replays recorded redesigns of ply drops and repairs of blended structures. *)
EXTENDS Rework, TraceBase

W(e) == Len(e.r.rows[1])
Middles(c, w) == IF HasMiddle(c.sym, w) THEN {Middle(w)} ELSE {}
(* rows: stacking sequence table; ss: stacks; lp: lamination parameters       *)
(* scaled by 1000, in-plane and out-of-plane                                   *)
WellFormed(c, e) ==
  LET r == e.r IN
  Need(/\ Len(r.rows) = Len(e.counts) /\ Len(r.ss) = Len(e.counts)
       /\ \A i \in DOMAIN r.rows : Len(r.rows[i]) = Len(r.rows[1]),
       "there is one row for each panel")
  \cup IF Len(r.rows) # Len(e.counts) \/ Len(r.ss) # Len(e.counts) THEN {} ELSE
  Need(\A i \in DOMAIN r.rows : r.ss[i] = Plies(r.rows[i]),
       "the stacks are the rows of the table without drops")
  \cup Need(\A i \in DOMAIN r.ss : Len(r.ss[i]) = e.counts[i],
            "each panel has its number of plies")
  \cup Need(\A i \in DOMAIN r.ss : Range(r.ss[i]) \subseteq Range(c.angles),
            "only allowed orientations occur")
  \cup Need(NestedRows(r.rows), "thinner panels only drop plies of thicker ones")
  \cup Need(c.sym => \A i \in DOMAIN r.rows : Symmetric(r.rows[i]),
            "the laminates and the drops are symmetric")
Shaped(e) == Len(e.r.rows) = Len(e.counts) /\ Len(e.r.ss) = Len(e.counts)
             /\ \A i \in DOMAIN e.r.rows : Len(e.r.rows[i]) = W(e)
Covered(c, rows) ==
  \A i \in DOMAIN rows : \A j \in 1..Cover(c) :
     rows[i][j] # -1 /\ rows[i][Len(rows[i]) + 1 - j] # -1
LpsRight(c, e) ==
  \A i \in DOMAIN e.r.ss :
    /\ Len(e.r.ss[i]) = e.counts[i]
    /\ \A k \in 1..4 : /\ AbsI(LampamA(e.r.ss[i], k, 1000) - e.r.lp[i][k]) <= 3
                       /\ AbsI(LampamD(e.r.ss[i], k, 1000) - e.r.lp[i][k + 4]) <= 3

Co(e, i) == [A |-> e.coA[i], D |-> e.coD[i]]
Ta(e, i) == [A |-> e.tA[i], D |-> e.tD[i]]
(* objective of the stacks of the panels first..last *)
Obj(c, e, stacks, first, cd) ==
  SumTo(Len(stacks), LAMBDA i :
    e.w[first + i - 1] * Penal(c, stacks[i], cd)
      * PanelObj(stacks[i], Co(e, first + i - 1), Ta(e, first + i - 1)))
ObjBlur(c, e, stacks, first, cd) ==
  SumTo(Len(stacks), LAMBDA i :
    e.w[first + i - 1] * Penal(c, stacks[i], cd)
      * PanelBlur(stacks[i], Co(e, first + i - 1), Ta(e, first + i - 1)))
(* no candidate is better than the choice *)
Best(c, e, choice, others, first, cd) ==
  LET o == Obj(c, e, choice, first, cd)  b == ObjBlur(c, e, choice, first, cd) IN
  \A x \in others : Obj(c, e, x, first, cd) + ObjBlur(c, e, x, first, cd) >= o - b

(* op "thin": rows (table before), counts, ref, w, coA, coD, tA, tD, cd,      *)
(* wide (no limit on the search) -> r.ok, r.rows, r.ss, r.lp                   *)
ThinStage(c, e) ==
  LET r == e.r
      row == e.rows[e.ref]
      done == [i \in 1..(e.ref - 1) |->
                {p \in DOMAIN row : row[p] # -1 /\ r.rows[i][p] = -1}]
      cands == [i \in 1..(e.ref - 1) |-> done[i] \cap DropPlaces(c, Len(row))]
      ways == ThinTo(c, row, e.counts, e.ref - 1, {NoDrop}, cands)
      all == ThinAll(c, row, e.counts, e.ref)
      judge == e.wide /\ ~(c.ten /\ c.abdalla)
  IN IF e.ref = 1
     THEN Need(r.ok /\ r.rows = e.rows, "nothing to design, nothing changed")
          \cup WellFormed(c, e)
     ELSE IF ~r.ok
     THEN Need(r.rows = e.rows, "a failure changes nothing")
          \cup Need(judge => all = {}, "a failure means that no design exists")
     ELSE WellFormed(c, e)
     \cup IF ~Shaped(e) THEN {} ELSE
     Need(\A i \in e.ref..Len(e.counts) : r.rows[i] = e.rows[i],
          "the reference and thicker panels stay")
     \cup Need(Covered(c, r.rows), "covering plies are not dropped")
     \cup Need(\E k \in ways : k.done = done,
               "plies are dropped one after the other within the rules")
     \cup Need(\A i \in 1..(e.ref - 1) : ThinFine(c, r.ss[i]),
               "thinner panels meet contiguity and the 10% rule")
     \cup Need(c.bal /\ BalMet(c, Plies(row), <<>>)
                 => \A i \in 1..(e.ref - 1) : NearlyBalanced(c, r.ss[i]),
               "at most one ply is out of balance")
     \cup Need(LpsRight(c, e), "the lamination parameters are those of the stacks")
     \cup Need(judge => Best(c, e, SubSeq(r.ss, 1, e.ref - 1),
                             {ThinStacks(row, k) : k \in all}, 1, e.cd),
               "no other design of the drops is better")

(* op "thick": likewise; rows after are as wide as the thickest panel          *)
ThickStage(c, e) ==
  LET r == e.r
      P == Len(e.counts)
      keep == {p \in 1..W(e) : r.rows[e.ref][p] # -1}
      cut(row) == [i \in 1..Cardinality(keep) |->
                     row[CHOOSE p \in keep : Cardinality({x \in keep : x < p}) = i - 1]]
      old == {p \in DOMAIN e.rows[e.ref] : e.rows[e.ref][p] # -1}
      oldcut(row) == [i \in 1..Cardinality(old) |->
                     row[CHOOSE p \in old : Cardinality({x \in old : x < p}) = i - 1]]
      all == ThickAll(c, Plies(e.rows[e.ref]), e.counts, e.ref)
      judge == e.wide /\ ~(c.ten /\ c.abdalla)
  IN IF e.ref = P
     THEN Need(r.ok /\ r.rows = e.rows, "nothing to design, nothing changed")
          \cup WellFormed(c, e)
     ELSE IF ~r.ok
     THEN Need(r.ss = e.ss, "a failure changes nothing")
          \cup Need(judge => all = {}, "a failure means that no design exists")
     ELSE WellFormed(c, e)
     \cup IF ~Shaped(e) THEN {} ELSE
     Need(W(e) = e.counts[P], "the table is as wide as the thickest panel")
     \cup Need(Cardinality(keep) = Cardinality(old)
               /\ \A i \in 1..e.ref : cut(r.rows[i]) = oldcut(e.rows[i])
                    /\ Len(r.ss[i]) = Len(e.ss[i]),
               "the reference and thinner panels stay")
     \cup Need(Covered(c, r.rows), "covering plies are not dropped")
     \cup Need(FillAll(c, r.rows, e.ref) # {},
               "plies are added one after the other within the rules")
     \cup Need(\A i \in (e.ref + 1)..P : ThickFine(c, r.ss[i]),
               "thicker panels meet disorientation, contiguity and the 10% rule")
     \cup Need(c.bal /\ BalMet(c, r.ss[e.ref], <<>>)
                 => \A i \in (e.ref + 1)..P : NearlyBalanced(c, r.ss[i]),
               "at most one ply is out of balance")
     \cup Need(LpsRight(c, e), "the lamination parameters are those of the stacks")
     \cup Need(judge => Best(c, e, SubSeq(r.ss, e.ref + 1, P),
                             {k.done : k \in all}, e.ref + 1, 0),
               "no other way of adding plies is better")

(* ---- the whole repair of a blended structure -------------------------------*)
DropsAt(row) == {p \in DOMAIN row : row[p] = -1}
(* the reference panel is given the stack s, plies that are not in the         *)
(* reference panel stay                                                        *)
Restack(rows, ref, s) ==
  LET keep == {p \in DOMAIN rows[ref] : rows[ref][p] # -1}
      rank(p) == Cardinality({x \in keep : x <= p})
  IN [i \in DOMAIN rows |-> [p \in DOMAIN rows[i] |->
        IF rows[i][p] = -1 \/ p \notin keep THEN rows[i][p] ELSE s[rank(p)]]]
GoodReference(c, s, d1) ==
  Need(Range(s) \subseteq Range(c.angles) /\ (c.sym => Symmetric(s)) /\ DamTol(s, c),
       "the repaired reference panel has the right shape and surfaces")
  \cup Need(Ordered(c, s), "the repaired reference panel meets disorientation and contiguity")
  \cup Need(BalMet(c, s, <<>>), "the repaired reference panel is balanced")
  \cup Need(IF c.ten /\ c.abdalla THEN d1 <= 1 /\ AbdallaNear(c, s, 3000) ELSE TenMet(c, s, <<>>),
            "the repaired reference panel meets the 10% rule")
Numbered(row) ==
  [p \in DOMAIN row |-> IF row[p] = -1 THEN -1
                         ELSE Cardinality({x \in 1..p : row[x] # -1}) - 1]

(* op "reference": rows, counts, ref -> r.ok, r.rows, r.ss, r.lp; d1: distance *)
(* of the reference panel to the region of Abdalla                             *)
ReferenceStage(c, e) ==
  LET r == e.r IN
  WellFormed(c, e)
  \cup IF ~Shaped(e) THEN {} ELSE
  Need(LpsRight(c, e), "the lamination parameters are those of the stacks")
  \cup (IF r.ok
        THEN Need(r.rows = Restack(e.rows, e.ref, r.ss[e.ref]),
                  "the reference panel is replaced in all panels and the layout stays")
             \cup GoodReference(c, r.ss[e.ref], e.d1)
        ELSE Need(r.rows = e.rows, "a failure changes nothing"))

(* op "repair": rows, counts, ref, refok, refss (outcome of the repair of the   *)
(* reference panel), d1 -> r.ok, r.rows, r.ss, r.pdl, r.step                    *)
RepairRun(c, e) ==
  LET r == e.r
      P == Len(e.counts)
      base == Restack(e.rows, e.ref, e.refss)
      thin == 1..(e.ref - 1)
      thick == (e.ref + 1)..P
  IN
  Need(r.step \in 1..4 /\ (r.ok = (r.step = 4)), "the number of the last step tells success")
  \cup Need((r.step = 1) = ~e.refok, "the first step fails with the reference panel")
  \cup WellFormed(c, e)
  \cup IF ~Shaped(e) THEN {} ELSE
  Need(Len(r.pdl) = P /\ \A i \in 1..P : r.pdl[i] = Numbered(r.rows[i]),
       "the layout returned is that of the table returned")
  \cup Need(r.step = 1 => r.rows = e.rows, "a failure of the first step changes nothing")
  \cup Need(r.step = 2 => r.rows = base,
            "a failure of the second step only changes the reference panel")
  \cup Need(r.step = 3 => \A i \in e.ref..P : r.rows[i] = base[i],
            "a failure of the third step leaves the thicker panels")
  \cup Need(r.step > 1 => r.ss[e.ref] = e.refss, "the reference panel stays as repaired")
  \cup (IF r.step > 1 THEN GoodReference(c, r.ss[e.ref], e.d1) ELSE {})
  \cup Need(r.step > 2 => \A i \in thin : ThinFine(c, r.ss[i]),
            "thinner panels meet contiguity and the 10% rule")
  \cup Need(r.ok => \A i \in thick : ThickFine(c, r.ss[i]),
            "thicker panels meet disorientation, contiguity and the 10% rule")
  \cup Need((r.step > 2 /\ c.bal) => \A i \in thin : NearlyBalanced(c, r.ss[i]),
            "at most one ply of a thinner panel is out of balance")
  \cup Need((r.ok /\ c.bal) => \A i \in thick : NearlyBalanced(c, r.ss[i]),
            "at most one ply of a thicker panel is out of balance")
  \cup Need(Covered(c, r.rows), "covering plies are not dropped")
  \cup Need(r.ok => \A i \in 1..P : DamTol(r.ss[i], c), "all panels are damage tolerant")
  \cup Need(r.ok => W(e) = e.counts[P], "the table is as wide as the thickest panel")

Judge(t, e) ==
  CASE e.op = "thin" -> Returned(e, ThinStage(t.c, e))
    [] e.op = "thick" -> Returned(e, ThickStage(t.c, e))
    [] e.op = "reference" -> Returned(e, ReferenceStage(t.c, e))
    [] e.op = "repair" -> Returned(e, RepairRun(t.c, e))
    [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Trace[tid], Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
