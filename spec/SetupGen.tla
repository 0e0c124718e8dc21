------------------------------ MODULE SetupGen -------------------------------
(* A user starts from a set-up that is admissible and changes one field after *)
(* another (each at most once, in a fixed order). Every draft reached is      *)
(* printed as a case for the implementation.                                  *)
EXTENDS Setup, Json
CONSTANTS Kinds, MaxChanges, EmitCases
VARIABLES kind, q, draft, last, made
vars == <<kind, q, draft, last, made>>

FlagAlt == {B(0), B(1), I(1), I(0), F(100), S(1), N}
PctAlt == {I(0), I(10), F(1250), I(25), I(50), I(100), I(-1), I(101), F(-25), F(10001), S(10), N}
LimAlt == {I(1), I(7), I(0), I(-3), F(500), S(5), N}
CoefAlt == {I(0), I(2), F(50), F(-50), I(-1), S(1), N}
AmountAlt == {I(0), I(3), F(250), F(-50), I(-2), S(1), N}
ModAlt == {I(120), I(8), I(0), I(-5), F(-50), S(9), N}
DensAlt == {I(0), I(1500), I(-1), F(-50), S(9), N}
AngleAlt == { <<0, 90>>, <<0, 45, -45, 90>>, <<90, -45, 0, 45>>, <<0, 45, 90, -45, 30, -30>>,
  <<0, 30, -30, 60, -60, 90>>, <<-75, 75, 15, 0, -15, 90, 45, -45>>, <<45, -45>>, <<0>>,
  <<0, 45, 90>>, <<0, -45, 90>>, <<0, 45, -45, 90, 45>>, <<0, 45, -45, 90, -90>>,
  <<0, 45, -45, 90, 135>>, <<0, 45, -45, 90, 180>>, <<0, 45, -45, -90>>, <<90>>,
  <<0, 0, 45, -45, 90>>, <<0, 45, -45, 90, -135, 135>> }
SizesAlt == { <<8>>, <<8, 6>>, <<6, 8, 10>>, <<4>>, <<8, 3>>, <<12, 12, 5>>, <<>> }
Ones == [k \in 1..12 |-> 1]
VecAlt == { [k \in 1..12 |-> k], [k \in 1..12 |-> 0], [k \in 1..8 |-> 1], [k \in 1..13 |-> 1],
  [k \in 1..12 |-> IF k = 5 THEN -1 ELSE 1], [k \in 1..12 |-> IF k > 8 THEN 2 ELSE 0],
  [k \in 1..12 |-> IF k \in {1, 2, 9} THEN 3 ELSE IF k = 11 THEN 5 ELSE 0] }
ChosenAlt == { [k \in 1..12 |-> 0], [k \in 1..12 |-> k % 2], [k \in 1..4 |-> 1],
  [k \in 1..12 |-> IF k = 2 THEN 2 ELSE 1], [k \in 1..12 |-> IF k = 9 THEN -1 ELSE 1],
  [k \in 1..12 |-> IF k < 5 THEN 1 ELSE 0], [k \in 1..12 |-> IF k > 8 THEN 1 ELSE 0] }

BellaFields == << <<"sym", FlagAlt>>, <<"bal", FlagAlt>>, <<"oopo", FlagAlt>>,
  <<"dam_tol", FlagAlt>>, <<"dam_tol_rule", {I(1), I(2), I(3), I(0), I(4), S(1), N}>>,
  <<"rule_10_percent", FlagAlt>>, <<"rule_10_Abdalla", FlagAlt>>,
  <<"percent_Abdalla", {I(0), I(10), F(2499), I(25), I(-1), S(5), N}>>,
  <<"combine_45_135", {B(0), B(1)}>>, <<"calc_combine_45_135", {B(0), B(1)}>>,
  <<"percent_0", PctAlt>>, <<"percent_45", PctAlt>>, <<"percent_90", PctAlt>>,
  <<"percent_135", PctAlt>>, <<"percent_45_135", PctAlt>>, <<"diso", FlagAlt>>,
  <<"contig", FlagAlt>>, <<"n_contig", {I(1), I(2), I(3), I(6)}>>,
  <<"delta_angle", {I(30), I(45), I(60), I(90)}>>, <<"angles", AngleAlt>>,
  <<"min_drop", LimAlt>>, <<"pdl_spacing", FlagAlt>>, <<"covering", FlagAlt>>,
  <<"n_covering", {I(0), I(1), I(2), I(3), I(-1), S(1), N}>> >>
NotOfLayla == {"rule_10_Abdalla", "percent_Abdalla", "combine_45_135",
  "calc_combine_45_135", "min_drop", "pdl_spacing", "covering", "n_covering"}
LaylaFields == << <<"ipo", FlagAlt>> >>
  \o SelectSeq(BellaFields, LAMBDA x : x[1] \notin NotOfLayla)
RepairFields == << <<"repair_membrane_switch", FlagAlt>>, <<"repair_flexural_switch", FlagAlt>>,
  <<"p_A", PctAlt>>, <<"n_D1", {I(3), I(6), F(200), S(1), N}>>,
  <<"n_D2", {I(3), I(6), F(250), S(1), N}>>, <<"n_D3", {I(1), I(2), F(100), S(1), N}>> >>
LimFields(names) == [k \in DOMAIN names |-> <<names[k], LimAlt>>]
BellaParFields == RepairFields \o LimFields(<<"global_node_limit", "local_node_limit",
    "global_node_limit_final", "local_node_limit_final", "global_node_limit2",
    "local_node_limit2", "global_node_limit3", "local_node_limit3", "n_ini_ply_drops">>)
  \o << <<"group_size_min", LimAlt \cup {I(12), I(13)}>>,
        <<"group_size_max", LimAlt \cup {I(4), I(3)}>>,
        <<"n_plies_ref_panel", {I(1), I(12), F(1250), S(1), N}>> >>
LaylaParFields == RepairFields \o LimFields(<<"global_node_limit", "local_node_limit",
    "global_node_limit_p", "local_node_limit_final">>)
  \o << <<"n_outer_step", {I(1), I(2), I(3), I(0), I(-1), F(100), S(1), N}>>,
        <<"group_size_min", LimAlt \cup {I(3), I(4), I(5), I(8), I(9)}>>,
        <<"group_size_max", {I(5), I(12), I(4), I(3), F(800), S(8), N}>>,
        <<"sizes", SizesAlt>>,
        <<"penalty_10_pc_switch", FlagAlt>>, <<"penalty_10_lampam_switch", FlagAlt>>,
        <<"penalty_bal_switch", FlagAlt>>, <<"penalty_ipo_switch", FlagAlt>>,
        <<"coeff_10", CoefAlt>>, <<"coeff_bal_ipo", CoefAlt>>, <<"coeff_oopo", CoefAlt>>,
        <<"sens", VecAlt>>, <<"chosen", ChosenAlt>> >>
ObjFields == << <<"n_modes", LimAlt>>, <<"coeff_10", CoefAlt>>, <<"coeff_bal_ipo", CoefAlt>>,
  <<"coeff_oopo", CoefAlt>>, <<"coeff_contig", CoefAlt>>, <<"coeff_diso", CoefAlt>>,
  <<"coeff_spacing", CoefAlt>> >>
PanelFields == << <<"n_plies", LimAlt \cup {I(8), I(21)}>>, <<"area", AmountAlt>>,
  <<"length_x", AmountAlt>>, <<"length_y", AmountAlt>>, <<"weighting", AmountAlt>>,
  <<"weights", VecAlt>> >>
MaterialFields == << <<"E11", ModAlt>>, <<"E22", ModAlt>>, <<"G12", ModAlt>>,
  <<"nu12", {I(0), F(30), F(20), F(-20), F(50), S(0), N}>>,
  <<"density_volume", DensAlt>>, <<"density_area", {I(0), I(300), F(27050), I(-1), S(9), N}>>,
  <<"ply_t", {F(20000), F(12500), I(0), F(-20000), S(9), N}>> >>

(* ---- where a user starts ------------------------------------------------------*)
Plain(fields) == [f \in fields |-> I(0)]
Rules0 == [ sym |-> B(1), bal |-> B(0), ipo |-> B(0), oopo |-> B(0), dam_tol |-> B(0),
  dam_tol_rule |-> I(2), rule_10_percent |-> B(0), rule_10_Abdalla |-> B(0),
  percent_Abdalla |-> I(0), combine_45_135 |-> B(1), calc_combine_45_135 |-> B(1),
  percent_0 |-> I(0), percent_45 |-> I(0), percent_90 |-> I(0), percent_135 |-> I(0),
  percent_45_135 |-> I(0), diso |-> B(0), contig |-> B(0), n_contig |-> I(1),
  delta_angle |-> I(45), angles |-> <<0, 45, 90, -45>>, min_drop |-> I(1),
  pdl_spacing |-> B(0), covering |-> B(0), n_covering |-> I(0) ]
Rules1 == [Rules0 EXCEPT !.bal = B(1), !.dam_tol = B(1), !.rule_10_percent = B(1),
  !.percent_0 = I(10), !.percent_45 = I(10), !.percent_90 = F(1250), !.percent_135 = I(10),
  !.diso = B(1), !.contig = B(1), !.n_contig = I(4), !.pdl_spacing = B(1), !.min_drop = I(2)]
Rules2 == [Rules0 EXCEPT !.sym = B(0), !.dam_tol = B(1), !.dam_tol_rule = I(1),
  !.rule_10_percent = B(1), !.percent_0 = I(5), !.percent_45_135 = I(24), !.percent_45 = I(12),
  !.percent_135 = I(8), !.angles = <<0, 45, 90, -45, 30, -30>>, !.contig = B(1),
  !.n_contig = I(3), !.covering = B(1), !.n_covering = I(2), !.oopo = B(1)]
Rules3 == [Rules1 EXCEPT !.rule_10_Abdalla = B(1), !.percent_Abdalla = I(10),
  !.dam_tol = B(0), !.covering = B(1), !.calc_combine_45_135 = B(0)]
Par0 == [ repair_membrane_switch |-> B(1), repair_flexural_switch |-> B(1), p_A |-> I(100),
  n_D1 |-> I(6), n_D2 |-> I(10), n_D3 |-> I(1), global_node_limit |-> I(10),
  local_node_limit |-> I(11), global_node_limit_final |-> I(12),
  local_node_limit_final |-> I(13), global_node_limit2 |-> I(14), local_node_limit2 |-> I(15),
  global_node_limit3 |-> I(16), local_node_limit3 |-> I(17), global_node_limit_p |-> I(18),
  n_ini_ply_drops |-> I(5), group_size_min |-> I(4), group_size_max |-> I(12),
  n_plies_ref_panel |-> I(1000), n_outer_step |-> I(1), sizes |-> <<>>,
  penalty_10_pc_switch |-> B(0), penalty_10_lampam_switch |-> B(0),
  penalty_bal_switch |-> B(0), penalty_ipo_switch |-> B(0), coeff_10 |-> I(1),
  coeff_bal_ipo |-> I(1), coeff_oopo |-> I(1), sens |-> Ones, chosen |-> Ones ]
Q(sym, bal, ipo, oopo, ten, std, nc, other) ==
  [ sym |-> sym, bal |-> bal, ipo |-> ipo, oopo |-> oopo, rule_10_percent |-> ten,
    std |-> std, n_contig |-> nc, contig |-> other, diso |-> 1 - other,
    pdl_spacing |-> other ]
NoQ == Q(0, 0, 0, 0, 0, 1, 1, 0)
FullQ == Q(1, 1, 1, 1, 1, 1, 3, 1)
WideQ == Q(0, 0, 1, 1, 1, 0, 1, 0)
HalfQ == Q(1, 1, 1, 0, 1, 0, 4, 1)

Obj0 == [ n_modes |-> I(3), coeff_10 |-> I(1), coeff_bal_ipo |-> F(50), coeff_oopo |-> I(2),
          coeff_contig |-> I(3), coeff_diso |-> I(4), coeff_spacing |-> F(150) ]
Panel0 == [ n_plies |-> I(9), area |-> I(5), length_x |-> I(2), length_y |-> F(150),
            weighting |-> I(1), weights |-> Ones ]
Material0 == [ E11 |-> I(130), E22 |-> I(9), G12 |-> I(4), nu12 |-> F(30),
               density_volume |-> I(0), density_area |-> I(0), ply_t |-> F(20000) ]
Starts(k) ==
  CASE k = "bella_rules" -> {<<Rules0, NoQ>>, <<Rules1, NoQ>>, <<Rules2, NoQ>>, <<Rules3, NoQ>>}
    [] k = "layla_rules" -> {<<Rules0, NoQ>>, <<Rules1, NoQ>>,
          <<[Rules2 EXCEPT !.ipo = B(1)], NoQ>>}
    [] k = "bella_par" -> {<<Par0, NoQ>>}
    [] k = "layla_par" -> {<<Par0, NoQ>>, <<Par0, FullQ>>, <<Par0, WideQ>>,
          <<[Par0 EXCEPT !.penalty_ipo_switch = B(1), !.sizes = <<6, 8, 10>>,
             !.n_outer_step = I(2), !.coeff_bal_ipo = F(50)], HalfQ>>}
    [] k = "objective" -> {<<Obj0, NoQ>>, <<Obj0, FullQ>>, <<Obj0, WideQ>>}
    [] k = "panel" -> {<<Panel0, NoQ>>, <<Panel0, FullQ>>, <<Panel0, WideQ>>, <<Panel0, HalfQ>>}
    [] k = "material" -> {<<Material0, NoQ>>}
FieldsOf(k) ==
  CASE k = "bella_rules" -> BellaFields [] k = "layla_rules" -> LaylaFields
    [] k = "bella_par" -> BellaParFields [] k = "layla_par" -> LaylaParFields
    [] k = "objective" -> ObjFields [] k = "panel" -> PanelFields
    [] k = "material" -> MaterialFields

Init == \E k \in Kinds : \E b \in Starts(k) :
  kind = k /\ draft = b[1] /\ q = b[2] /\ last = 0 /\ made = 0
Change(i, x) ==
  LET f == FieldsOf(kind)[i][1] IN
  /\ made < MaxChanges /\ draft[f] # x
  /\ draft' = [draft EXCEPT ![f] = x] /\ last' = i /\ made' = made + 1
  /\ UNCHANGED <<kind, q>>
Next == \E i \in (last + 1)..Len(FieldsOf(kind)) : \E x \in FieldsOf(kind)[i][2] : Change(i, x)
Spec == Init /\ [][Next]_vars

Wrong == CASE kind = "bella_rules" -> BellaWrong(draft)
           [] kind = "layla_rules" -> LaylaWrong(draft)
           [] kind = "bella_par" -> BellaParWrong(draft)
           [] kind = "layla_par" -> LaylaParWrong(q, draft)
           [] kind = "objective" -> ObjWrong(q, draft)
           [] kind = "panel" -> PanelWrong(draft)
           [] kind = "material" -> MaterialWrong(draft)
Fine == Wrong = {}
(* without a change nothing is refused *)
StartsFine == made = 0 => Fine

(* a settled set of guidelines filled in again is the same *)
Refill(r) ==
  LET flags == {"sym", "bal", "oopo", "dam_tol", "diso", "contig", "rule_10_percent"} IN
  [f \in flags |-> B(r[f])]
  @@ [f \in Percents |-> F(r[f])]
  @@ [ dam_tol_rule |-> I(r.dam_tol_rule), n_contig |-> I(r.n_contig),
       delta_angle |-> F(r.delta_angle), angles |-> r.set_of_angles, ipo |-> B(r.ipo) ]
RefillBella(r) == Refill(r)
  @@ [ covering |-> B(r.covering), n_covering |-> I(r.n_covering),
       pdl_spacing |-> B(r.pdl_spacing), min_drop |-> I(r.min_drop),
       rule_10_Abdalla |-> B(r.rule_10_Abdalla), percent_Abdalla |-> F(r.percent_Abdalla),
       combine_45_135 |-> B(1), calc_combine_45_135 |-> B(1) ]
Settled ==
  CASE kind = "bella_rules" /\ Fine ->
         LET r == BellaRules(draft)  d == RefillBella(r) IN
         BellaWrong(d) = {} /\ (On(draft.calc_combine_45_135) => BellaRules(d) = r)
    [] kind = "layla_rules" /\ Fine ->
         LET r == LaylaRules(draft)  d == Refill(r) IN
         \* (more than all plies at +-45 is admissible, but cannot be filled in)
         r.percent_45_135 <= 10000 =>
         LaylaWrong(d) = {} /\ LaylaRules(d) = r
    [] OTHER -> TRUE
(* what settled guidelines can rely on *)
Sound ==
  kind \in {"bella_rules", "layla_rules"} /\ Fine =>
    LET r == IF kind = "bella_rules" THEN BellaRules(draft) ELSE LaylaRules(draft)
        s == r.set_of_angles IN
    /\ \A b \in Range(r.angles_bal) : s[b[2] + 1] = b[1] /\ s[b[3] + 1] = -b[1]
    /\ r.rule_10_percent = 1 => {r.index0, r.index45, r.index90, r.index135}
                                \subseteq 0..(Len(s) - 1)
    /\ \A f \in Percents : r[f] <= r.percent_tot
    /\ r.rule_10_percent = 0 => r.percent_tot = 0
    /\ r.dam_tol = 1 <=> r.dam_tol_rule > 0
    /\ r.bal = 1 => r.ipo = 1
    /\ kind = "bella_rules" =>
         /\ r.dam_tol = 1 => r.covering = 1
         /\ r.covering = 1 => r.n_covering \in {1, 2}
         /\ r.percent_45_135 = 0 \/ (r.percent_45 = 0 /\ r.percent_135 = 0)
    /\ kind = "layla_rules" => r.percent_45_135 >= r.percent_45 + r.percent_135
(* giving up a guideline never makes an admissible set inadmissible *)
GiveUp ==
  kind = "bella_rules" /\ Fine =>
    \A f \in {"dam_tol", "contig", "rule_10_percent", "covering", "diso", "sym"} :
      BellaWrong([draft EXCEPT ![f] = B(0)]) = {}
(* the weights of an objective are shares: they add up to one *)
WeightShares ==
  LET whole(w) == w = [k \in 1..12 |-> 0] \/
        (Near(SumTo(12, LAMBDA k : Share(w, 1..12, k)), 10000, 12) /\ \A k \in 1..12 : w[k] >= 0)
  IN CASE kind = "layla_par" /\ Fine -> whole(LaylaWeights(q, draft))
       [] kind = "panel" /\ Fine -> whole(PanelWeights(q, draft, 50))
       [] OTHER -> TRUE
Emit == EmitCases => PrintT("GEN|" \o ToJson([kind |-> kind, q |-> q, d |-> draft]))
=============================================================================
