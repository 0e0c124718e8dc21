------------------------------ MODULE TraceOrtho ------------------------------
(* Replays recorded calculations of orthotropy parameters.                      *)
EXTENDS Ortho, TraceBase

(* op "exact": u, l, sym; r: [all, first, last] in millionths                    *)
JudgeExact(e) ==
  LET Q == Parameters(e.u, e.l, e.sym)
      right(i, v) == Q[i][2] # 0 =>
                       IF v = -1 THEN OAbs(Q[i][1]) \div OAbs(Q[i][2]) >= 999
                       ELSE Near(v, Value(Q[i]))
  IN Need(Len(e.r.all) = 12 /\ Len(e.r.first) = 6 /\ Len(e.r.last) = 6, "twelve parameters, six and six")
     \cup Need(\A i \in 1..6 : right(i, e.r.all[i]), "the ratios of in-plane stiffness")
     \cup Need(\A i \in 7..12 : right(i, e.r.all[i]), "the ratios of in-plane compliance")
     \cup Need(\A i \in 1..6 : right(i, e.r.first[i]), "the first six alone")
     \cup Need(\A i \in 1..6 : right(i + 6, e.r.last[i]), "the last six alone")
     \cup Need(e.r.kept = 1, "the lamination parameters are not modified")
(* op "related": l1, l2 in thousandths, how they are related; r: [a, b]          *)
Close(a, b) == a = -1 \/ b = -1 \/ Near(a, b)
JudgeRelated(e) ==
  LET how == CASE e.how = "mirror" -> <<Mirror(e.l1), FALSE>>
               [] e.how = "turn" -> <<Turn90(e.l1), TRUE>>
               [] e.how = "over" -> <<TurnOver(e.l1), FALSE>>
               [] e.how = "symmetric" -> <<e.l1, FALSE>>
               [] e.how = "stiffer" -> <<e.l1, FALSE>>
  IN Need(how[1] = e.l2 /\ (e.how = "symmetric" => Uncoupled(e.l1) = e.l1),
          "HARNESS the laminates are not related")
     \cup Need(\A i \in 1..12 : Close(e.r.a[i], e.r.b[IF how[2] THEN Turned[i] ELSE i]),
               "parameters of laminates that are " \o e.how)
(* op "penalty": p in thousandths; r in millionths *)
Worst(p) == LET S == {OAbs(p[i]) : i \in DOMAIN p} IN CHOOSE x \in S : \A y \in S : y <= x
JudgePenalty(e) ==
  Need(OAbs(e.r * Len(e.p) - Worst(e.p) * 1000) <= Len(e.p), "the largest over their number")
Judge(e) ==
  CASE e.op = "exact" -> Returned(e, JudgeExact(e))
    [] e.op = "related" -> Returned(e, JudgeRelated(e))
    [] e.op = "penalty" -> Returned(e, JudgePenalty(e))
    [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
