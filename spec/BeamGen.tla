------------------------------ MODULE BeamGen -------------------------------
(* The search of the optimiser as a state machine, for some structures,       *)
(* targets and limits. Lay-ups survive level by level; a search without        *)
(* limits keeps every compliant lay-up, hence the best one; a narrower search  *)
(* keeps a part of them, and always some lay-up unless none is left.           *)
EXTENDS Beam, TLC, Json
CONSTANTS Cfg, Shapes, Targets, Weights, Limits
C == Cfg
ASet == Range(C.angles)
VARIABLES shape, tgt, wgt, lims, beam
vars == <<shape, tgt, wgt, lims, beam>>
(* a structure: counts, rows *)
S == [rows |-> Shapes[shape].rows, counts |-> Shapes[shape].counts,
      w |-> Shapes[shape].w,
      W |-> [i \in DOMAIN Shapes[shape].rows |-> FineWeights(C, Weights[wgt], 1)],
      T |-> [i \in DOMAIN Shapes[shape].rows |-> FineTarget(C, Targets[tgt])]]
N == Len(S.rows[1])
Init == /\ shape \in DOMAIN Shapes /\ tgt \in DOMAIN Targets
        /\ wgt \in DOMAIN Weights /\ lims \in Range(Limits)
        /\ beam = Root
Done == beam.r = Turns(C.sym, N) \/ beam.may = {}
Next == /\ ~Done
        /\ beam' = Level(C, S, lims, beam)
        /\ UNCHANGED <<shape, tgt, wgt, lims>>
Spec == Init /\ [][Next]_vars

AtEnd == beam.r = Turns(C.sym, N)
Unlimited == lims.loc >= 100000 /\ lims.glob >= 100000 /\ lims.fin >= 100000
Ordered2 == beam.sure \subseteq beam.may
Legal == \A x \in beam.may :
  /\ Len(x[1]) + Len(x[2]) = beam.r
  /\ beam.r > 0 => PartialOK(C, N, x[1], x[2], FALSE)
Bounded == beam.r > 0 =>
  Cardinality(beam.sure) <= (IF AtEnd THEN lims.fin ELSE lims.glob)
(* without ties within the blur, the number of survivors is known *)
Enough == beam.clear /\ beam.sure = beam.may /\ beam.may # {} => beam.sure # {}
(* all lay-ups, by brute force *)
GuidesOf(n) ==
  {s \in (IF C.sym THEN {Whole(TRUE, n, h, <<>>) : h \in [1..HalfUp(n) -> ASet]}
          ELSE [1..n -> ASet]) : Compliant(C, n, s)}
Guides == [k \in DOMAIN Shapes |-> GuidesOf(Len(Shapes[k].rows[1]))]
AllGuides == Guides[shape]
Complete2 == AtEnd /\ Unlimited =>
  {GuideOf(C, N, x) : x \in beam.sure} = AllGuides
(* value of a structure with this guide stack, over whole laminates *)
PanelOf(row, guide) ==
  SelectSeq([p \in DOMAIN row |-> IF row[p] = -1 THEN -1 ELSE guide[p]], LAMBDA a : a # -1)
Worth(guide) == SumTo(Len(S.rows), LAMBDA i :
                  S.w[i] * FullValue(PanelOf(S.rows[i], guide), S.W[i], S.T[i]))
(* at the last level the estimate is the value *)
Exact == AtEnd => \A x \in beam.may :
  Near(Estimate(C, S, x), Worth(GuideOf(C, N, x)), Blur(S))
(* the best survivors are no worse than the ones discarded at the last level *)
Least(set) == CHOOSE x \in set : \A y \in set : x <= y
Kept == AtEnd /\ beam.may # {} /\ lims.glob >= 100000 /\ lims.loc >= 100000 =>
  LET least == Least({Worth(GuideOf(C, N, x)) : x \in beam.may}) - 2 * Blur(S)
  IN \A g \in AllGuides : least <= Worth(g)
Emit == Done => PrintT("GEN|" \o ToJson([shape |-> shape, tgt |-> tgt, wgt |-> wgt,
                                         lims |-> lims]))
=============================================================================
