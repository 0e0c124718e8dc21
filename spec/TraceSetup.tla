----------------------------- MODULE TraceSetup ------------------------------
(* Replays recorded set-ups.                                                  *)
EXTENDS Setup, TraceBase

(* every settled field *)
Same(want, r) == {"the " \o f \o " taken over" : f \in {g \in DOMAIN want : want[g] # r[g]}}
(* what is displayed is what is settled *)
Shown(want, s) == {"the " \o f \o " displayed" : f \in {g \in DOMAIN s : want[g] # s[g]}}
(* a judgement of a set-up: refused exactly if something is wrong *)
Judge(e, wrong, ok) ==
  IF wrong # {} THEN Need(e.k # "ok", "an inadmissible set-up is accepted")
  ELSE IF e.k # "ok" THEN {"an admissible set-up is refused"}
  ELSE ok

Trigs(a, r) ==
  LET s == Sorted(a) IN
  Need(Len(r) = Len(s) /\ \A i \in DOMAIN s : LET t == TwoTrig(s[i]) IN
         \A k \in 1..4 : Near(2 * r[i][k], t[k][1] * 1000000
                              + (t[k][2] * 17320508) \div 10, 6),
       "the sines and cosines of the orientations")
RulesOf(e, want) == Same(want, e.r.v) \cup Shown(want, e.r.shown)
                    \cup Trigs(e.d.angles, e.r.trig)

Clauses(e) ==
  LET d == e.d IN
  CASE e.op = "bella_rules" -> Judge(e, BellaWrong(d), RulesOf(e, BellaRules(d)))
    [] e.op = "layla_rules" -> Judge(e, LaylaWrong(d), RulesOf(e, LaylaRules(d)))
    [] e.op = "bella_par" ->
         LET want == AsFilled(d, DOMAIN d) IN
         Judge(e, BellaParWrong(d), Same(want, e.r.v) \cup Shown(want, e.r.shown))
    [] e.op = "layla_par" ->
         Judge(e, LaylaParWrong(e.q, d),
           LET want == LaylaParTaken(e.q, d)  w == LaylaWeights(e.q, d)
               void == \A k \in 1..12 : w[k] = 0 IN
           Same(want, e.r.v) \cup Shown(want, e.r.shown)
           \cup Need(SharesOK(e.r.ini, Wanted(d), 1..12), "the weights filled in")
           \cup Need(e.r.n = e.n /\ e.r.targets = LaylaTargets(e.q, e.targets), "the targets")
           \cup Need(e.r.targets_ini = e.targets /\ e.r.targets_given = e.targets,
                     "the targets as filled in")
           \cup (IF void THEN {} ELSE
                 Need(SharesOK(e.r.final, w, 1..12), "the weights of the lamination parameters")
                 \cup Need(SharesOK(e.r.finalA, w, 1..4), "the weights of the in-plane parameters")
                 \cup Need(SharesOK(e.r.finalD, w, 9..12),
                           "the weights of the out-of-plane parameters")))
    [] e.op = "objective" ->
         LET want == ObjTaken(e.q, d) IN
         Judge(e, ObjWrong(e.q, d), Same(want, e.r.v) \cup Shown(want, e.r.shown))
    [] e.op = "panel" ->
         Judge(e, PanelWrong(d),
           LET w == PanelWeights(e.q, d, e.coef) IN
           Same(PanelTaken(e.q, d, e.dens), e.r.v)
           \cup Need(e.r.targets = PanelTargets(e.q, e.targets), "the targets of the panel")
           \cup (IF \A k \in 1..12 : w[k] = 0 THEN {} ELSE
                 Need(SharesOK(e.r.weights, w, 1..12), "the weights of the panel")
                 \cup Need(e.r.weightsA = FirstN(e.r.weights, 4)
                           /\ e.r.weightsD = LastN(e.r.weights, 4),
                           "the weights of the panel by kind")))
    [] e.op = "material" ->
         Judge(e, MaterialWrong(d),
           LET s == Densities(d) IN
           MaterialBad(d, e.r)
           \cup Need(e.r.E11 = d.E11.v /\ e.r.E22 = d.E22.v /\ e.r.G12 = d.G12.v
                     /\ e.r.nu12 = d.nu12.v /\ e.r.ply_t = d.ply_t.v, "the properties taken over")
           \cup Need(Near(e.r.density_volume, s[1], 1) /\ Near(e.r.density_area, s[2], 1),
                     "the densities"))

TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More /\ pos' = pos + 1 /\ UNCHANGED tid /\ Say(Clauses(Step))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
