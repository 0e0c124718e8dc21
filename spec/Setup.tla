-------------------------------- MODULE Setup --------------------------------
(* What a user fills in before a run: the guidelines (of BELLA and of LAYLA), *)
(* the parameters of the searches, the objective function, the panels, the    *)
(* material. A draft has one value per field; it is refused, or taken over    *)
(* into a settled set-up in which every derived quantity is fixed.             *)
(*                                                                            *)
(* A value is [t, v]: t = "b" (a truth value, v 0/1), "i" (a whole number),   *)
(* "f" (a number with decimals), "s" (a text), "n" (nothing); v in hundredths.*)
EXTENDS Angles, TLC

B(x) == [t |-> "b", v |-> x]
I(x) == [t |-> "i", v |-> 100 * x]
F(x) == [t |-> "f", v |-> x]
S(x) == [t |-> "s", v |-> 100 * x]
N == [t |-> "n", v |-> 0]

Flag(x) == x.t = "b"
Num(x) == x.t \in {"i", "f"}
Whole(x) == x.t = "i"
On(x) == x.t = "b" /\ x.v = 1
Off(x) == x.t = "b" /\ x.v = 0
Either(cond, name) == IF cond THEN {name} ELSE {}
AtLeast(x, m) == Whole(x) /\ x.v >= 100 * m
Amount(x) == Num(x) /\ x.v >= 0
Percent(x) == Num(x) /\ 0 <= x.v /\ x.v <= 10000

(* ---- the guidelines ---------------------------------------------------------*)
Std == {0, 45, 90, -45}
BellaFlags == {"sym", "bal", "oopo", "dam_tol", "diso", "contig", "covering",
               "pdl_spacing", "rule_10_percent", "rule_10_Abdalla"}
LaylaFlags == {"sym", "bal", "ipo", "oopo", "dam_tol", "diso", "contig",
               "rule_10_percent"}
Percents == {"percent_0", "percent_45", "percent_90", "percent_135",
             "percent_45_135"}

AnglesWrong(a) ==
  Either(\E x \in Range(a) : x > 90 \/ x <= -90, "angle out of ]-90, 90]")
  \cup Either(\E x \in Range(a) : x # 90 /\ -x \notin Range(a), "opposite angle missing")
  \cup Either(~Distinct(a), "repeated angle")
RulesWrong(d, flags) ==
  UNION {Either(~Flag(d[f]), "not a truth value") : f \in flags}
  \cup UNION {Either(~Percent(d[f]), "not a percentage") : f \in Percents}
  \cup AnglesWrong(d.angles)
  \cup Either(On(d.rule_10_percent) /\ ~(Std \subseteq Range(d.angles)),
              "10% rule without its orientations")
  \cup Either(On(d.dam_tol) /\ ~(Whole(d.dam_tol_rule)
                /\ d.dam_tol_rule.v \in {100, 200, 300}), "unknown damage tolerance rule")
  \cup Either(On(d.contig) /\ d.n_contig.v = 100, "no two equal plies at all")
BellaWrong(d) ==
  RulesWrong(d, BellaFlags)
  \cup Either(~(Num(d.percent_Abdalla) /\ 0 <= d.percent_Abdalla.v
                /\ d.percent_Abdalla.v < 2500), "not a percentage below 25")
  \cup Either(~(Whole(d.n_covering) /\ d.n_covering.v \in {0, 100, 200}),
              "covering by other than 0, 1 or 2 plies")
  \cup Either(~AtLeast(d.min_drop, 1), "plies between two ply drops")
LaylaWrong(d) == RulesWrong(d, LaylaFlags)

(* tables over the orientations *)
Sorted(a) == SetToSortSeq(Range(a), LAMBDA x, y : x < y)
IndexOf(s, x) == IF x \in Range(s) THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0
Tables(a) ==
  LET s == Sorted(a)
      pos == SetToSortSeq({AbsI(x) : x \in Range(a)}, LAMBDA x, y : x < y)
      bal == SelectSeq(s, LAMBDA x : 0 < x /\ x < 90)
  IN [ set_of_angles |-> s, n_set_of_angles |-> Len(s), pos_angles |-> pos,
       index0 |-> IndexOf(s, 0) - 1, index45 |-> IndexOf(s, 45) - 1,
       index90 |-> IndexOf(s, 90) - 1, index135 |-> IndexOf(s, -45) - 1,
       angles_bal |-> [i \in DOMAIN bal |-> <<bal[i], IndexOf(s, bal[i]) - 1,
                                              IndexOf(s, -bal[i]) - 1>>],
       angles_dict |-> [i \in DOMAIN s |-> <<i - 1, s[i]>>],
       ind_angles_dict |-> (IF 90 \in Range(s) THEN <<<<-90, IndexOf(s, 90) - 1>>>>
                            ELSE <<>>) \o [i \in DOMAIN s |-> <<s[i], i - 1>>],
       indices_pos_angles_dict |-> [i \in DOMAIN pos |-> <<pos[i], i - 1>>],
       indices_bal |-> [i \in DOMAIN bal |-> <<bal[i], i - 1>>] ]
Common(d) ==
  [ sym |-> d.sym.v, oopo |-> d.oopo.v, bal |-> d.bal.v,
    dam_tol |-> d.dam_tol.v, diso |-> d.diso.v, contig |-> d.contig.v,
    rule_10_percent |-> d.rule_10_percent.v,
    dam_tol_rule |-> IF On(d.dam_tol) THEN d.dam_tol_rule.v \div 100 ELSE 0,
    delta_angle |-> IF On(d.diso) THEN d.delta_angle.v ELSE 18000,
    n_contig |-> IF On(d.contig) THEN d.n_contig.v \div 100 ELSE 1,
    n_contig_c |-> IF On(d.contig) THEN d.n_contig.v \div 100 ELSE 1000000 ]
Shares(p0, p45, p90, p135, both) ==
  [ percent_0 |-> p0, percent_45 |-> p45, percent_90 |-> p90, percent_135 |-> p135,
    percent_45_135 |-> both,
    percent_tot |-> Max2(p0 + p45 + p90 + p135, p0 + both + p90) ]
BellaCombined(d) ==
  IF Off(d.calc_combine_45_135) THEN On(d.combine_45_135)
  ELSE 2 * d.percent_45.v <= d.percent_45_135.v
       /\ 2 * d.percent_135.v <= d.percent_45_135.v
BellaRules(d) ==
  Common(d) @@ Tables(d.angles) @@
  (IF Off(d.rule_10_percent) \/ On(d.rule_10_Abdalla) THEN Shares(0, 0, 0, 0, 0)
   ELSE IF BellaCombined(d)
   THEN Shares(d.percent_0.v, 0, d.percent_90.v, 0, d.percent_45_135.v)
   ELSE Shares(d.percent_0.v, d.percent_45.v, d.percent_90.v, d.percent_135.v, 0))
  @@ [ ipo |-> d.bal.v, pdl_spacing |-> d.pdl_spacing.v,
       min_drop |-> d.min_drop.v \div 100,
       rule_10_Abdalla |-> d.rule_10_Abdalla.v,
       percent_Abdalla |-> IF On(d.rule_10_percent) /\ On(d.rule_10_Abdalla)
                           THEN d.percent_Abdalla.v ELSE 0,
       covering |-> IF On(d.dam_tol) THEN 1 ELSE d.covering.v,
       n_covering |->
         LET n == d.n_covering.v \div 100 IN
         IF On(d.dam_tol) /\ d.dam_tol_rule.v # 100 THEN 2
         ELSE IF On(d.dam_tol) \/ On(d.covering) THEN Max2(n, 1) ELSE n ]
LaylaRules(d) ==
  Common(d) @@ Tables(d.angles) @@
  (IF Off(d.rule_10_percent) THEN Shares(0, 0, 0, 0, 0)
   ELSE Shares(d.percent_0.v, d.percent_45.v, d.percent_90.v, d.percent_135.v,
               Max2(d.percent_45_135.v, d.percent_45.v + d.percent_135.v)))
  @@ [ ipo |-> IF On(d.bal) THEN 1 ELSE d.ipo.v ]

(* ---- the parameters of the searches ------------------------------------------*)
BellaLimits == {"global_node_limit", "local_node_limit", "global_node_limit_final",
                "local_node_limit_final", "global_node_limit2", "local_node_limit2",
                "global_node_limit3", "local_node_limit3"}
LaylaLimits == {"global_node_limit", "global_node_limit_p", "local_node_limit",
                "local_node_limit_final"}
RepairWrong(d) ==
  UNION {Either(~Flag(d[f]), "not a truth value")
         : f \in {"repair_membrane_switch", "repair_flexural_switch"}}
  \cup Either(~Percent(d.p_A), "not a percentage")
  \cup UNION {Either(~Whole(d[f]), "not a whole number") : f \in {"n_D1", "n_D2", "n_D3"}}
BellaParWrong(d) ==
  RepairWrong(d)
  \cup UNION {Either(~AtLeast(d[f], 1), "not a number of nodes") : f \in BellaLimits}
  \cup Either(~AtLeast(d.n_ini_ply_drops, 1), "number of initial layouts")
  \cup Either(~AtLeast(d.group_size_min, 1), "least size of the groups")
  \cup Either(~Whole(d.group_size_max) \/ d.group_size_max.v < d.group_size_min.v,
              "largest size of the groups")
  \cup Either(~Num(d.n_plies_ref_panel), "number of plies of the reference panel")
(* a parameter is what was filled in: every field is taken over *)
AsFilled(d, fields) == [f \in fields |-> d[f].v]

(* LAYLA; q: the guidelines (rule_10_percent, bal, ipo, oopo, sym, n_contig, std) *)
Sizes(d) == IF d.sizes = <<>> THEN [k \in 1..(d.n_outer_step.v \div 100)
                                    |-> d.group_size_max.v \div 100]
            ELSE d.sizes
Wanted(d) == [k \in 1..12 |-> d.sens[k] * d.chosen[k]]
SumSeq(s) == SumTo(Len(s), LAMBDA k : s[k])
VectorsWrong(d) ==
  Either(Len(d.sens) # 12 \/ Len(d.chosen) # 12, "not one weight per lamination parameter")
  \cup Either(\E k \in DOMAIN d.sens : d.sens[k] < 0, "negative weight")
  \cup Either(\E k \in DOMAIN d.chosen : d.chosen[k] \notin {0, 1}, "neither chosen nor not")
LaylaParWrong(q, d) ==
  RepairWrong(d)
  \cup UNION {Either(~AtLeast(d[f], 1), "not a number of nodes") : f \in LaylaLimits}
  \cup Either(~AtLeast(d.n_outer_step, 1), "number of runs")
  \cup Either(~AtLeast(d.group_size_min, 1) \/ d.group_size_min.v < 100 * q.n_contig,
              "least size of the groups")
  \cup (IF d.sizes = <<>>
        THEN Either(~Whole(d.group_size_max)
                    \/ d.group_size_max.v < d.group_size_min.v, "largest size of the groups")
        ELSE Either(\E k \in DOMAIN d.sizes : 100 * d.sizes[k] < d.group_size_min.v,
                    "largest size of the groups")
             \cup Either(100 * Len(d.sizes) < d.n_outer_step.v, "a size for every run"))
  \cup (IF q.rule_10_percent = 1
        THEN Either(~Flag(d.penalty_10_pc_switch) \/ ~Flag(d.penalty_10_lampam_switch),
                    "not a truth value")
             \cup Either(On(d.penalty_10_pc_switch) /\ On(d.penalty_10_lampam_switch),
                         "two penalties for the 10% rule")
             \cup Either(~Amount(d.coeff_10), "not a coefficient")
        ELSE {})
  \cup (IF q.bal = 1 THEN Either(~Flag(d.penalty_bal_switch), "not a truth value") ELSE {})
  \cup (IF q.ipo = 1
        THEN Either(~Flag(d.penalty_ipo_switch), "not a truth value")
             \cup Either(~Amount(d.coeff_bal_ipo), "not a coefficient")
        ELSE {})
  \cup (IF q.bal = 1 /\ q.ipo = 1
        THEN Either(On(d.penalty_bal_switch) /\ On(d.penalty_ipo_switch),
                    "two penalties for orthotropy") ELSE {})
  \cup (IF q.oopo = 1 THEN Either(~Amount(d.coeff_oopo), "not a coefficient") ELSE {})
  \cup VectorsWrong(d)
  \cup (IF VectorsWrong(d) = {} THEN Either(SumSeq(Wanted(d)) = 0, "weights all zero") ELSE {})
LaylaParTaken(q, d) ==
  AsFilled(d, LaylaLimits \cup {"n_D1", "n_D2", "n_D3", "p_A", "group_size_min",
             "n_outer_step", "repair_membrane_switch", "repair_flexural_switch"})
  @@ [ group_size_max |-> Sizes(d),
       penalty_10_pc_switch |-> IF q.rule_10_percent = 1 THEN d.penalty_10_pc_switch.v ELSE 0,
       penalty_10_lampam_switch |->
         IF q.rule_10_percent = 1 THEN d.penalty_10_lampam_switch.v ELSE 0,
       coeff_10 |-> IF q.rule_10_percent = 1 THEN d.coeff_10.v ELSE 0,
       penalty_bal_switch |-> IF q.bal = 1 THEN d.penalty_bal_switch.v ELSE 0,
       penalty_ipo_switch |-> IF q.ipo = 1 THEN d.penalty_ipo_switch.v ELSE 0,
       coeff_bal_ipo |-> IF q.ipo = 1 THEN d.coeff_bal_ipo.v ELSE 0,
       coeff_oopo |-> IF q.oopo = 1 THEN d.coeff_oopo.v ELSE 0 ]

(* weights: the lamination parameters that a guideline fixes do not count; an *)
(* orthotropy that is only penalised counts by the mean of the other weights  *)
(* times its coefficient (in hundredths). All weights times 100 and times the *)
(* number of those that count.                                                *)
Fixed(sym, std, ipo, oopo) ==
  (IF sym THEN 5..8 ELSE {}) \cup (IF std THEN {4, 8, 12} ELSE {})
  \cup (IF ipo THEN {3, 4} ELSE {}) \cup (IF oopo THEN {11, 12} ELSE {})
Weights(w, gone, std, pen2, pen10) ==
  LET f == [k \in 1..12 |-> IF k \in gone THEN 0 ELSE w[k]]
      m == Cardinality({k \in 1..12 : f[k] # 0})
      t == SumSeq(f)
      add(k) == CASE k = 3 -> pen2 * t
                  [] k = 4 -> IF std THEN 0 ELSE pen2 * t
                  [] k = 11 -> pen10 * t
                  [] k = 12 -> IF std THEN 0 ELSE pen10 * t
                  [] OTHER -> 0
  IN [k \in 1..12 |-> 100 * m * f[k] + add(k)]
(* the share of a weight, in ten thousandths *)
Share(w, part, k) ==
  LET t == FoldSet(LAMBDA x, acc : acc + w[x], 0, part) IN
  IF t = 0 THEN 0 ELSE Scaled(w[k], t, 10000)
SharesOK(r, w, part) == Len(r) = Cardinality(part)
  /\ \A k \in part : Near(r[k - Min(part) + 1], Share(w, part, k), 1)
LaylaWeights(q, d) ==
  Weights(Wanted(d), Fixed(q.sym = 1, q.std = 1, q.ipo = 1, q.oopo = 1), q.std = 1,
          IF q.ipo = 1 /\ On(d.penalty_ipo_switch) THEN d.coeff_bal_ipo.v ELSE 0,
          IF q.oopo = 1 THEN d.coeff_oopo.v ELSE 0)

(* ---- the objective function of BELLA ------------------------------------------*)
(* a coefficient counts if its guideline is required *)
Coefs == {<<"coeff_10", "rule_10_percent">>, <<"coeff_bal_ipo", "bal">>,
          <<"coeff_oopo", "oopo">>, <<"coeff_contig", "contig">>,
          <<"coeff_diso", "diso">>, <<"coeff_spacing", "pdl_spacing">>}
ObjWrong(q, d) ==
  Either(~AtLeast(d.n_modes, 1), "number of modes")
  \cup UNION {Either(q[x[2]] = 1 /\ ~Amount(d[x[1]]), "not a coefficient") : x \in Coefs}
ObjTaken(q, d) ==
  [f \in {x[1] : x \in Coefs} |->
     LET g == (CHOOSE x \in Coefs : x[1] = f)[2] IN IF q[g] = 1 THEN d[f].v ELSE 0]
  @@ [n_modes |-> d.n_modes.v]

(* ---- panels --------------------------------------------------------------------*)
PanelWrong(d) ==
  Either(~AtLeast(d.n_plies, 1), "number of plies")
  \cup UNION {Either(~Amount(d[f]), "not an amount")
              : f \in {"area", "length_x", "length_y", "weighting"}}
  \cup Either(Len(d.weights) # 12, "not one weight per lamination parameter")
  \cup Either(\E k \in DOMAIN d.weights : d.weights[k] < 0, "negative weight")
Area(d) == IF d.length_x.v # 0 /\ d.length_y.v # 0
           THEN (d.length_x.v * d.length_y.v) \div 100 ELSE d.area.v
(* dens: a density of whole g/m2 *)
PanelTaken(q, d, dens) ==
  LET n == d.n_plies.v \div 100  odd == q.sym = 1 /\ n % 2 = 1 IN
  [ n_plies |-> n, has_middle_ply |-> IF odd THEN 1 ELSE 0,
    middle_ply_index |-> IF odd THEN n \div 2 + 1 ELSE 0,
    area |-> Area(d), weighting |-> d.weighting.v,
    length_x |-> d.length_x.v, length_y |-> d.length_y.v,
    weight |-> dens * Area(d) * n ]
PanelWeights(q, d, coef) ==
  Weights(d.weights, Fixed(q.sym = 1, q.std = 1, q.bal = 1, q.oopo = 1), q.std = 1,
          0, IF q.oopo = 1 THEN coef ELSE 0)
(* targets: what a guideline fixes at zero is wanted to be zero *)
PanelTargets(q, t) ==
  [k \in 1..12 |-> IF k \in Fixed(q.sym = 1, FALSE, q.bal = 1, q.oopo = 1)
                   THEN 0 ELSE t[k]]
LaylaTargets(q, t) ==
  [k \in 1..12 |-> IF k \in Fixed(q.sym = 1, FALSE, q.ipo = 1, q.oopo = 1)
                   THEN 0 ELSE t[k]]

(* ---- materials -------------------------------------------------------------------*)
(* moduli in GPa, densities in kg/m3 and g/m2, thickness in micrometres, all     *)
(* values times 100; results of moduli in 1/100 GPa                              *)
Positive(x) == Num(x) /\ x.v > 0
MaterialWrong(d) ==
  UNION {Either(~Positive(d[f]), "not positive") : f \in {"E11", "E22", "G12", "ply_t"}}
  \cup Either(~Num(d.nu12), "not a number")
  \cup UNION {Either(~Amount(d[f]), "not a density")
              : f \in {"density_volume", "density_area"}}
(* nu12 a multiple of a tenth; E22 a whole number of GPa *)
MaterialBad(d, r) ==
  LET e1 == d.E11.v  e2 == d.E22.v  a == d.nu12.v \div 10
      dd == e1 - (a * a * e2) \div 100 IN
  IF dd <= 0 THEN {}      \* no such material
  ELSE
  Either(~Near(r.nu21 * e1, a * e2 * 1000, e1), "minor Poisson's ratio")
  \cup Either(~Near(r.Q11 * dd, e1 * e1, dd), "stiffness along the fibres")
  \cup Either(~Near(r.Q22 * dd, e1 * e2, dd), "stiffness across the fibres")
  \cup Either(~Near(10 * r.Q12 * dd, a * e1 * e2, 10 * dd), "coupling stiffness")
  \cup Either(r.Q66 # d.G12.v, "shear stiffness")
  \cup Either(~Near(8 * r.U1, 3 * r.Q11 + 3 * r.Q22 + 2 * r.Q12 + 4 * r.Q66, 12), "invariant U1")
  \cup Either(~Near(2 * r.U2, r.Q11 - r.Q22, 4), "invariant U2")
  \cup Either(~Near(8 * r.U3, r.Q11 + r.Q22 - 2 * r.Q12 - 4 * r.Q66, 12), "invariant U3")
  \cup Either(~Near(8 * r.U4, r.Q11 + r.Q22 + 6 * r.Q12 - 4 * r.Q66, 12), "invariant U4")
  \cup Either(~Near(8 * r.U5, r.Q11 + r.Q22 - 2 * r.Q12 + 4 * r.Q66, 12), "invariant U5")
(* densities, in 1/100 kg/m3 and 1/100 g/m2; thickness in 1/100 micrometres    *)
Densities(d) ==
  LET v == d.density_volume.v  a == d.density_area.v  t == d.ply_t.v \div 100 IN
  CASE v = 0 /\ a = 0 -> <<30050000 \div t, 30050>>
    [] v = 0 /\ a # 0 -> <<(1000 * a) \div t, a>>
    [] v # 0 /\ a = 0 -> <<v, (v * t) \div 1000>>
    [] OTHER -> <<v, a>>
=============================================================================
