---------------------------- MODULE TraceWorkbook ----------------------------
(* Replays recorded uses of workbooks: before and after are the books read back *)
(* cell by cell.                                                                *)
EXTENDS Workbook, TraceBase

Pairs(cs) == {<<cs[k][1], cs[k][2]>> : k \in DOMAIN cs}
CellsOf(cs) == [p \in Pairs(cs) |->
                 (cs[CHOOSE k \in DOMAIN cs : <<cs[k][1], cs[k][2]>> = p])[3]]
BookOf(x) == [k \in DOMAIN x |-> [name |-> x[k].name, cells |-> CellsOf(x[k].cells)]]

JudgeAppend(e) ==
  LET want == Seen(Appended(BookOf(e.before), e.sheet, e.table, e.header = 1,
                            e.index = 1, e.at, e.fresh = 1))
      got == Seen(BookOf(e.r.book))
      names(b) == [k \in DOMAIN b |-> b[k][1]]
      of(b, s) == b[CHOOSE k \in DOMAIN b : b[k][1] = s][2]
  IN Need(e.r.there = 1, "the book exists afterwards")
     \cup Need(names(got) = names(want), "the sheets of the book")
     \cup Need(names(got) = names(want) =>
               \A k \in DOMAIN want : want[k][1] # e.sheet => got[k] = want[k],
               "the other sheets stay as they are")
     \cup Need(names(got) = names(want) => of(got, e.sheet) = of(want, e.sheet),
               "the table is where it belongs and nothing else changes")
     \cup Need(e.r.kept = 1, "the table handed over is not modified")
Long(w, c) == Max({0} \cup {w.len[k] : k \in {j \in DOMAIN w.len : w.col[j] = c}})
JudgeFit(e) ==
  Need(Seen(BookOf(e.r.book)) = Seen(BookOf(e.before)), "the contents stay as they are")
  \cup UNION {LET w == e.r.widths[k] IN
     Need(\A i \in DOMAIN w.width :
            LET l == Long(w, i) IN
            /\ w.width[i] >= l + 2
            /\ w.width[i] <= (IF l < 4 THEN 4 ELSE l) + 2, "the widths fit the contents")
     \cup Need(w.centred = 1, "the contents are centred") : k \in DOMAIN e.r.widths}
JudgeDelete(e) ==
  Need(e.r.asked = e.there, "asks whether to delete a book that exists")
  \cup Need(Seen(BookOf(e.r.book)) = Seen(Deleted(BookOf(e.before), e.there = 1, e.answer))
            /\ (e.r.there = 1 <=> e.there = 1 /\ e.answer \notin Yes),
            "the book is deleted when and only when the user agrees")
  \cup Need(e.r.ended = 1 <=> e.there = 1 /\ e.answer \notin Yes,
            "the run goes on unless the user objects")
  \cup Need(e.r.others = 1, "other files stay")

Judge(e) ==
  IF e.k = "odd" THEN {"the result is malformed"}
  ELSE IF e.k = "exc" THEN {"the call raised an exception"}
  ELSE CASE e.op = "append" -> JudgeAppend(e)
         [] e.op = "fit" -> JudgeFit(e)
         [] e.op = "delete" -> JudgeDelete(e)
         [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
