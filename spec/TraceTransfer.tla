---------------------------- MODULE TraceTransfer ----------------------------
(* Replays recorded set-ups written to and read from workbooks.                *)
EXTENDS Transfer, TraceBase

(* a choice between the two forms of the 10% rule means nothing without the rule *)
Rules(r) == [r EXCEPT !.rule_10_Abdalla = IF r.rule_10_percent = 1 THEN @ ELSE 0]
(* op "handed": script, given; r: what the optimiser got in each run            *)
JudgeHanded(e) ==
  LET want == Arrives(e.script, e.given)  ok(k) == e.r[k] IN
  Need(Len(e.r) = e.runs, "every run starts the optimiser once")
  \cup UNION {
     Need(Rules(e.r[k].rules) = Rules(want.rules), "the guidelines arrive")
     \cup Need(e.r[k].coefs = want.coefs, "the coefficients arrive")
     \cup Need(e.r[k].mat = want.mat, "the material arrives")
     \cup Need(Len(e.r[k].panels) = Len(want.panels), "all panels arrive")
     \cup Need(Len(e.r[k].panels) = Len(want.panels) =>
               \A i \in DOMAIN want.panels :
                 \A f \in DOMAIN want.panels[i] \ {"tg", "wt"} :
                   e.r[k].panels[i][f] = want.panels[i][f], "the panels arrive as given")
     \cup Need(Len(e.r[k].panels) = Len(want.panels) =>
               \A i \in DOMAIN want.panels :
                 e.r[k].panels[i].tg = want.panels[i].tg
                 /\ e.r[k].panels[i].wt = want.panels[i].wt,
               "targets and weightings arrive as given")
     : k \in DOMAIN e.r}
(* op "shipped": the set-ups read from a shipped workbook and from the one made *)
(* by its script; given: panels in the cells of the workbook                    *)
JudgeShipped(e) ==
  Need(e.r.made = e.r.shipped, "the shipped input file is the one its script makes")
  \cup Need(Len(e.cells) = Len(e.r.shipped.panels) /\ \A i \in DOMAIN e.cells :
              \A f \in DOMAIN e.cells[i] : e.r.shipped.panels[i][f] = e.cells[i][f],
            "the shipped panels arrive")
(* op "formatted": designs of another program: n and stacks of the panels, the   *)
(* stacks of the sheet (cells)                                                   *)
JudgeFormatted(e) ==
  Need(e.r # <<>> /\ \A i \in DOMAIN e.r :
         LET s == SelectSeq(e.r[i].sst, LAMBDA a : a # -1) IN
         /\ s = e.r[i].ss /\ Len(s) = e.r[i].n
         /\ s \in {e.cells[k] : k \in DOMAIN e.cells},
       "formatted designs are those of the sheet")
(* op "example": the stacks of the example *)
JudgeExample(e) ==
  Need(/\ Len(e.r.n) = Len(e.r.sst)
       /\ \A i \in DOMAIN e.r.n :
            /\ Len(SelectSeq(e.r.sst[i], LAMBDA a : a # -1)) = e.r.n[i]
            /\ SelectSeq(e.r.sst[i], LAMBDA a : a # -1) = e.r.ss[i]
       /\ \A i, j \in DOMAIN e.r.n : \A p \in DOMAIN e.r.sst[i] :
            e.r.sst[i][p] = -1 \/ e.r.sst[j][p] = -1 \/ e.r.sst[i][p] = e.r.sst[j][p],
       "the example ends with a blended design")

(* op "overwrite": a run of a script while there are results of a former one; r: *)
(* questions asked without and with a former file, whether the optimiser is     *)
(* started, whether what was in the former file is still there                  *)
JudgeOverwrite(e) ==
  Need(e.r.asked[1] = 0 /\ e.r.asked[2] >= 1, "former results are overwritten only when agreed")
  \cup Need(e.r.started = e.yes, "the run goes on if and only if agreed")
  \cup Need(e.r.old = 1 - e.yes, "former results are kept if and only if not agreed")

Judge(e) ==
  IF e.k = "odd" THEN {"the result is malformed"}
  ELSE IF e.k = "exc" THEN {"the call raised an exception"}
  ELSE CASE e.op = "handed" -> JudgeHanded(e)
         [] e.op = "shipped" -> JudgeShipped(e)
         [] e.op = "formatted" -> JudgeFormatted(e)
         [] e.op = "overwrite" -> JudgeOverwrite(e)
         [] e.op = "example" -> JudgeExample(e)
         [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
