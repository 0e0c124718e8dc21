T22 = 'The 22 tests sample a handful of stacks; '
prop('C01', 'Contiguity is decided exactly for every stacking sequence',
     'A stacking sequence is accepted by the contiguity rule with limit n (2 to 6) if and only if it contains no block of more than n adjacent plies with the same fibre direction. The violation vectors, matrices and totals count exactly one violation per window of n+1 equal adjacent plies, where under damage tolerance rules 2 and 3 the outermost ply at each surface is left out of the totals, and the penalty is the weighted normalised sum of violations (zero when the rule is off).',
     ['inputs', 'configurations'],
     'all stacking sequences of any length over any set of allowed angles, all limits 2..6, all damage tolerance rules',
     T22 + 'no test calls the contiguity functions at all.',
     [G + 'contiguity.py', G + 'internal_contig.py'],
     [('sliding window comparison', G + 'contiguity.py:is_contig, calc_contig_vector, calc_matrix_viol_contig'),
      ('totals', G + 'contiguity.py:calc_penalty_contig_mp, calc_penalty_contig_ss, penalty_contig'),
      ('single stack variant', G + 'internal_contig.py:internal_contig2')])
prop('C02', 'Disorientation is decided exactly, modulo 180 degrees',
     'Two adjacent plies satisfy the disorientation rule if and only if their fibre directions, taken modulo 180 degrees, differ by at most the limit; a stack is accepted iff every adjacent pair does. Under damage tolerance rules 2 and 3 only the pair at each surface is exempt, under rule 1 no pair is exempt. Violation counts per stack and per panel equal the number of violating pairs, and the penalty is the weighted normalised sum.',
     ['inputs', 'configurations'],
     'all pairs of angles in (-90, 90], all limits, all stacks, all damage tolerance rules',
     'no test calls the disorientation functions.',
     [G + 'disorientation.py'],
     [('pair test', G + 'disorientation.py:is_diso'),
      ('stack test', G + 'disorientation.py:is_diso_ss'),
      ('counts', G + 'disorientation.py:calc_penalty_diso_mp_0, calc_number_violations_diso_mp, calc_n_penalty_diso_ss, calc_penalty_diso')])
prop('C03', 'Damage tolerance rules look at both laminate surfaces',
     'With the damage tolerance rule on, a stack is accepted iff rule 1: the outermost ply at each surface is +45 or -45; rule 2: the two outermost plies at each surface are +45/-45 in either order; rule 3: the two outermost plies at each surface are each +45 or -45. With the rule off every stack is accepted.',
     ['inputs', 'configurations'],
     'all stacks of at least four plies, all rules',
     'the four tests use rule 1 and 2 on four stacks; the rules quantify over all stacks.',
     [G + 'dam_tol.py'], [('surface test', G + 'dam_tol.py:is_dam_tol')])
prop('C04', 'Balance compares +theta and -theta for every angle',
     'A stack is balanced iff for every direction other than 0 and 90 it contains as many +theta as -theta plies, whatever their positions. The balance penalty computed from ply counts is the sum over theta of the surplus of one sign, divided by the number of plies and weighted, for one laminate or row by row for several.',
     ['inputs', 'configurations'],
     'all stacks and ply-count vectors over all symmetric sets of angles',
     'tests sample five stacks; the penalty is never called.',
     [G + 'balance.py'],
     [('count comparison', G + 'balance.py:is_balanced'),
      ('penalty', G + 'balance.py:calc_penalty_bal')])
prop('C05', '10% rule on ply counts: verdicts and penalties are exact at the limit',
     'With percentage limits, a laminate satisfies the 10% rule iff the share of 0, 45, 90, -45 and of +-45 plies each reaches its limit; a design exactly at a limit is accepted and has zero penalty. The verdict is the same computed from a stack, from ply counts, or from a partly filled stack plus the plies still queued for it (both halves and the middle ply of symmetric stacks counted), and the relaxed modes pool 0 with 90 or +45 with -45. The penalty is the total shortfall, zero when no limit is set.',
     ['inputs', 'configurations'],
     'all stacks, count vectors and fill states, all percentage settings, symmetric or not, odd or even',
     'tests sample eight complete stacks; partial stacks, counts at the limit and penalties are never exercised.',
     [G + 'ten_percent_rule.py'],
     [('verdict', G + 'ten_percent_rule.py:is_ten_percent_rule'),
      ('penalty from stacks', G + 'ten_percent_rule.py:calc_penalty_10_ss'),
      ('penalty from counts', G + 'ten_percent_rule.py:calc_penalty_10_pc'),
      ('ply counts', G + 'ten_percent_rule.py:calc_ply_counts')])
prop('C06', '10% rule on lamination parameters: region and distance agree',
     'With the lamination-parameter form of the 10% rule, a point is accepted iff it lies in the region bounded by the parabola and the straight line set by the percentage. The penalty is zero inside the region, positive outside, and equals the Euclidean distance to the nearest point of the region up to the sampling of its boundary.',
     ['inputs', 'configurations'],
     'all in-plane lamination parameters, all percentages below 25',
     'tests sample three points, all on the symmetry axis, where a wrong boundary cannot show.',
     [G + 'ten_percent_rule_Abdalla.py', G + 'ten_percent_rule.py'],
     [('region test', G + 'ten_percent_rule.py:is_ten_percent_rule'),
      ('distance', G + 'ten_percent_rule_Abdalla.py:calc_distance_Abdalla')])
prop('C07', 'Candidate filters keep exactly the admissible ply sequences',
     'Filtering a set of candidate ply sequences for contiguity and disorientation keeps every candidate that satisfies the active rules inside the group (internal filters) or at the junction with the plies already placed (external filters) and drops every other one. A second set of sequences filtered along keeps the rows that belong to the kept candidates; nothing is duplicated or invented.',
     ['inputs', 'configurations'],
     'all candidate sets, all preceding stacks, group lengths and contiguity limits 2..6',
     'no test calls the filters; the code enumerates one case per limit and per number of preceding plies.',
     [G + 'internal_contig.py', G + 'internal_diso_contig.py', G + 'external_contig.py', G + 'external_diso_contig.py'],
     [('internal filters', G + 'internal_contig.py, ' + G + 'internal_diso_contig.py'),
      ('junction filters', G + 'external_contig.py, ' + G + 'external_diso_contig.py')])
B = 'src/BELLA/'
TNB = 'no existing test touches the blending structure, the groups or the ply-drop layouts; '
prop('C08', 'Ply-drop spacing penalises exactly the drops that are too close',
     'At a boundary between two panels, any two consecutive plies dropped by the thinner panel are separated by at least min_drop continuous plies, or the layout is penalised by what is missing, relative to the number of plies at the boundary, weighted by the boundary and added up over all boundaries. The penalty is zero iff every weighted boundary complies, does not depend on the order in which the two panels of a boundary are given, is the same on the whole structure as on its blending strip, and the filter of layouts keeps exactly the compliant ones.',
     ['inputs', 'configurations'],
     'all ply-drop layouts, boundaries and weightings, with or without neighbouring groups of plies, all values of min_drop',
     TNB + 'the rule must hold for every layout and every boundary.',
     [G + 'ply_drop_spacing.py'],
     [('penalty of one boundary', G + 'ply_drop_spacing.py:calc_penalty_spacing_1ss'),
      ('penalty of a structure', G + 'ply_drop_spacing.py:calc_penalty_spacing'),
      ('filter', G + 'ply_drop_spacing.py:ply_drop_spacing, is_same_pdl')])
prop('C09', 'The final gates accept exactly the designs that meet every rule',
     'The lay-up gate accepts a stack iff it satisfies every active guideline: balance, in-plane orthotropy, damage tolerance, the 10% rule (with its equality variants), contiguity, disorientation and the expected number of plies. The ply-drop gate accepts a layout iff the covering plies are continuous and the ply-drop spacing is met at every boundary. Anything else is refused with an error.',
     ['inputs', 'configurations'],
     'all stacks, layouts and combinations of active constraints',
     'no test calls the gates; they guard every reported design.',
     [G + 'one_stack.py'],
     [('lay-up gate', G + 'one_stack.py:check_lay_up_rules'),
      ('ply-drop gate', G + 'one_stack.py:check_ply_drop_rules')])
prop('C10', 'The blending strip is a faithful reduction of the multi-panel structure',
     'A structure is accepted iff panel IDs are unique, neighbours exist, every panel is connected and the ply counts can be blended; otherwise it is refused. Its strip has one panel per distinct ply count in increasing order; every panel maps to the strip panel of its ply count; strip boundaries are the pairs of strip panels that touch, with the weights of all merged boundaries added up (whichever way round the user gave them, zero included); panel weightings and areas add up to those of the structure; the reference panel is the thinnest one with at least the requested ply count; and the step tables walk ply by ply from the reference to the thinnest and the thickest panels. Reducing a table to the strip and extending it back gives it back.',
     ['inputs', 'configurations'],
     'all structures: any graph of panels, any ply counts, weights, areas and reference ply counts',
     TNB + 'graphs and ply counts are unbounded.',
     [B + 'multipanels.py', B + 'reduced_multipanels.py', B + 'panels.py'],
     [('structure', B + 'multipanels.py:MultiPanel'),
      ('strip', B + 'multipanels.py:from_mp_to_blending_strip; ' + B + 'reduced_multipanels.py'),
      ('transfer', B + 'multipanels.py:from_mp_to_reduced..., reduce/extend functions')],
     state=[('boundaries, weights, guide', 'structure and strip boundary graph', B + 'multipanels.py')])
prop('C11', 'Groups of plies partition the laminate within the size limits',
     'Plies that can be designed (all but covering plies, one half when symmetric) are divided into the fewest groups that respect the size limits, sizes non-decreasing from the surface inwards; groups do not overlap and leave no ply out, from the surface inwards for symmetric laminates and alternating between the surfaces otherwise. If no such division exists the request is refused. The ply drops of each thinner panel are spread over the groups in proportion to their sizes, add up to the missing plies, never exceed a group and never decrease from a thicker to a thinner panel, so that nested layouts exist. The single-panel optimiser divides its laminates by the same rule.',
     ['inputs', 'configurations'],
     'all ply counts, group size limits, covering and symmetry settings',
     TNB + 'divisions must be right for all ply counts and limits.',
     [B + 'divide_panels.py', 'src/LAYLA_V02/divide_laminate_sym.py', 'src/LAYLA_V02/divide_laminate_asym.py'],
     [('multi-panel division', B + 'divide_panels.py:divide_panels'),
      ('single-panel division', 'src/LAYLA_V02/divide_laminate_sym.py, divide_laminate_asym.py')])
prop('C12', 'Initial ply-drop layouts are well-formed blended structures',
     'Every layout generated at the start keeps exactly the required number of plies in every panel, drops in each group what the division planned, never drops a covering or damage-tolerance surface ply, mirrors the drops in symmetric laminates, and is nested: a ply of a panel continues in all thicker panels. Kept plies are numbered from the surface. Layouts given by the user are accepted iff they have the right numbers of panels and of plies per panel.',
     ['inputs', 'configurations', 'random choices'],
     'all structures, group sizes, drops and random choices of the generator',
     TNB + 'the generator is random and time limited.',
     [B + 'pdl_ini.py', B + 'pdl_group.py'],
     [('generator', B + 'pdl_ini.py:create_initial_pdls; ' + B + 'pdl_group.py:randomly_pdl_guide'),
      ('size check', B + 'pdl_ini.py:check_pdls_ini')])
prop('C13', 'The search for ply-drop layouts returns the best distinct ones it met',
     'Of all layouts a group search or the initial search met, it returns as many as requested (or as many as exist), pairwise different, best penalty first; layouts that meet the spacing rule are preferred to all others and no layout left out is better than one returned. Results are never padded or duplicated.',
     ['inputs', 'schedules', 'random choices'],
     'all sequences of candidate layouts and all stopping points of the time-limited search',
     TNB + 'which layouts are met depends on random choices and on the clock.',
     [B + 'pdl_ini.py', B + 'pdl_group.py'],
     [('store of one group', B + 'pdl_group.py:randomly_pdl_guide'),
      ('store of whole layouts', B + 'pdl_ini.py:create_initial_pdls')],
     state=[('perfect and imperfect layouts', 'best layouts met so far and their penalties', B + 'pdl_ini.py, ' + B + 'pdl_group.py')])
prop('C14', 'Conversions between stacks, tables and positions are consistent',
     'Stacking sequences, stacking sequence tables, guides and ply-drop layouts convert into each other without losing, moving or inventing a ply: the stack of a panel is the table row without drops, the table of a guide has -1 exactly at the drops and the guide angle elsewhere, converting a stack to a table and back gives it back, positions in the panel, the reference panel and the table always denote the same ply, and the layout read back from a table drops exactly the plies that the table drops and numbers the others, and the weight told from a table is that of its plies.',
     ['inputs'],
     'all nested layouts, guides, stacks and positions',
     'no test calls the conversions; the repair algorithms chain them for every panel.',
     [B + 'format_pdl.py', B + 'pdl_tools.py'],
     [('tables', B + 'format_pdl.py'), ('layouts', B + 'pdl_tools.py')])
prop('C15', 'Ply-drop layouts saved in Excel files are read back unchanged',
     'Layouts written with one sheet per layout are read back as many, in the same order and with the same content, each once; a file without layouts gives none. Appending a sheet to a file keeps the sheets it already had.',
     ['inputs'],
     'all numbers and sizes of layouts',
     'no test reads or writes a file.',
     [B + 'pdl_ini.py', 'src/divers/excel.py'],
     [('reader', B + 'pdl_ini.py:read_pdls_excel'), ('writer', 'src/divers/excel.py:append_df_to_excel')])
S = 'src/'
R = S + 'RELAY/'
L = S + 'LAYLA_V02/'
NOREL = 'no test runs a repair; '
prop('C16', 'The beam searches keep exactly the orientations the guidelines allow',
     'While a laminate is built ply by ply from its surfaces, the pruning of both beam searches discards an orientation when the plies laid so far already break damage tolerance, disorientation or contiguity with it (at either surface, and at the junction of the two halves when the lay-up gets complete, the middle ply of a symmetric laminate being 0 or 90), and keeps every orientation that breaks none of them. It neither invents nor repeats orientations, and a lay-up completed this way is compliant.',
     ['inputs', 'configurations', 'histories'],
     'all partial lay-ups, all sets of angles, rules and limits, symmetric and asymmetric',
     'no test calls the prunings; the partial lay-up depends on the whole history of the search.',
     [B + 'pruning.py', L + 'pruning.py', G + 'internal_contig.py', G + 'internal_diso_contig.py', G + 'external_contig.py', G + 'external_diso_contig.py'],
     [('BELLA pruning', B + 'pruning.py:pruning_diso_contig_damtol'),
      ('LAYLA pruning', L + 'pruning.py:pruning_diso_contig_damtol'),
      ('block tests', G + 'internal_diso_contig.py, external_diso_contig.py')],
     state=[('bottom and top plies, level', 'partial lay-up of a branch', B + 'pruning.py')])
prop('C17', 'The counting stage of the repair makes ply counts compliant',
     'Given any stack, the first stage of the repair returns a stack in which only the innermost plies may be unknown, mirrored when the laminate is symmetric, and a queue with exactly one allowed orientation for each of them, such that stack and queue together are balanced and meet the 10% rule whenever enough plies exist. It keeps as many outer plies as any compliant completion can keep, replaces a middle ply other than 0 or 90, returns compliant stacks unchanged and does not modify its input. With the rule of Abdalla a laminate at distance zero lies in the feasible region, and the distance does not grow.',
     ['inputs', 'configurations'],
     'all stacks and percentages, symmetric or not, all combinations of balance and 10% rule',
     NOREL + 'the needed plies depend on all counts at once.',
     [R + 'repair_10_bal.py'],
     [('minimum ply counts', R + 'repair_10_bal.py:calc_mini_10'),
      ('stage', R + 'repair_10_bal.py:repair_10_bal'),
      ('feasible region', G + 'ten_percent_rule_Abdalla.py:calc_distance_Abdalla')],
     state=[('stack and ply queue', 'stack with unknown innermost plies, orientations left to place', R + 'repair_10_bal.py')])
prop('C18', 'The ordering stage of the repair permutes plies and is right about success',
     'The third stage places the queued plies and permutes inner plies until disorientation and contiguity hold. The result holds exactly the kept and the queued plies, is symmetric when the laminate is, and has its middle ply and the plies fixed by damage tolerance where they were. Reported success means that disorientation and contiguity hold, a compliant stack comes back unchanged, and when all free plies are permuted an order is found if one exists. A list of candidate stacks is tried in turn.',
     ['inputs', 'configurations'],
     'all stacks and queues, all rules, all depths of the permutation',
     NOREL + 'whether an order exists quantifies over all permutations.',
     [R + 'repair_diso_contig.py', R + 'repair_diso_contig_tools.py', R + 'repair_from_inside_sym.py', R + 'repair_from_inside_asym.py', R + 'repair_from_outside_sym.py', R + 'repair_from_outside_asym.py'],
     [('stage', R + 'repair_diso_contig.py:repair_diso_contig, repair_diso_contig_list'),
      ('outside-in', R + 'repair_from_outside_sym.py, repair_from_outside_asym.py'),
      ('inside-out', R + 'repair_from_inside_sym.py, repair_from_inside_asym.py')],
     state=[('stack and ply queue', 'plies placed so far and left to place', R + 'repair_diso_contig.py')])
prop('C19', 'The in-plane refinement of the repair improves the laminate and breaks nothing',
     'The second stage returns candidates, best first, the last one being its input. Each differs from the next by one change of orientation (one ply, a pair +theta/-theta in balanced laminates, or a final swap of 0 and 90) and is strictly better; the reported lamination parameters and objectives are those of the candidates. The candidates keep balance, the 10% rule (or stay in the region of Abdalla), the number and place of unknown plies, the plies fixed by damage tolerance, the middle ply and the outer part of the laminate that must not change; innermost plies change first. The best candidate cannot be improved by a further admissible change. Nothing changes when the stage is switched off or the objective is void.',
     ['inputs', 'configurations', 'histories'],
     'all hand-overs of the first stage, all targets, coefficients, rules and modifiable fractions',
     NOREL + 'a refinement is a history of changes whose end depends on all of them.',
     [R + 'repair_membrane.py', R + 'repair_membrane_1_ipo.py', R + 'repair_membrane_1_no_ipo.py', R + 'repair_membrane_1_ipo_Abdalla.py', R + 'repair_membrane_1_no_ipo_Abdalla.py'],
     [('stage', R + 'repair_membrane.py'),
      ('balanced laminates', R + 'repair_membrane_1_ipo.py, repair_membrane_1_ipo_Abdalla.py'),
      ('other laminates', R + 'repair_membrane_1_no_ipo.py, repair_membrane_1_no_ipo_Abdalla.py'),
      ('modifiable plies', R + 'repair_10_bal.py:calc_ind_plies')],
     state=[('stack, ply queue, lampamA, excess_10', 'candidate, its in-plane parameters and surplus plies', R + 'repair_membrane_1_ipo.py')])
prop('C20', 'The flexural refinement only permutes plies and makes nothing worse',
     'The fourth stage exchanges blocks of equal plies, or shifts single plies when neither disorientation nor contiguity matters, to bring the out-of-plane lamination parameters closer to their targets. The result holds the same plies; symmetry, the middle ply and the plies fixed by damage tolerance stay; disorientation and contiguity are met when they were met before; the objective does not get worse. The outermost ply or block that can improve the laminate by an allowed change does so, the number of shifts tried per ply is the prescribed one, and a stage that is switched off or has no weighting returns its input.',
     ['inputs', 'configurations', 'histories'],
     'all stacks, symmetric or not, all rules, targets, coefficients and limits',
     NOREL + 'the end of a sequence of exchanges depends on all of them.',
     [R + 'repair_flexural.py', R + 'repair_flexural_1.py', R + 'repair_flexural_2.py', R + 'repair_flexural_3.py'],
     [('stage', R + 'repair_flexural.py'),
      ('exchange of blocks', R + 'repair_flexural_1.py'),
      ('shifts of plies', R + 'repair_flexural_2.py, repair_flexural_3.py')],
     state=[('stack, blocks, lampamD', 'laminate, its blocks and its out-of-plane parameters', R + 'repair_flexural_1.py')])
prop('C21', 'A successful repair gives a compliant laminate, a failed one changes nothing',
     'The repair of a laminate that starts with the right surface and middle plies and allowed orientations reports success only when the laminate it returns is symmetric where required, balanced (also when in-plane orthotropy is required), and meets the 10% rule in any of its forms, disorientation and contiguity; damage tolerance, if met, stays met. Otherwise it returns the laminate it was given. A compliant laminate is repaired with success, and comes back unchanged when nothing is refined. Where only balance and the 10% rule are required the repair always succeeds if enough plies exist, and keeps the outer plies that can be kept. The argument is never modified in place.',
     ['inputs', 'configurations'],
     'all stacks, targets and parameters, constraints of both optimisers',
     NOREL + 'the four stages hand over to each other, and the last word on success needs all the rules.',
     [R + 'repair_ss.py', R + 'repair_10_bal.py', R + 'repair_membrane.py', R + 'repair_diso_contig.py', R + 'repair_flexural.py', L + 'constraints.py', B + 'constraints.py'],
     [('whole repair', R + 'repair_ss.py:repair_ss')],
     state=[('stack, ply queue, flags', 'hand-over between stages', R + 'repair_ss.py')])
prop('C22', 'Redesigned ply drops keep the reference panel, the rules and optimality',
     'The design of thinner panels drops plies of the reference panel, one (or a symmetric pair) at a time; the design of thicker panels adds plies to it. Thinner panels only drop plies of thicker ones, ply counts are the prescribed ones, the reference panel and the panels on its other side stay, covering plies are never dropped, laminates stay symmetric; contiguity and the 10% rule (and disorientation for added plies) hold in every panel designed, and at most one angled ply waits for its opposite when balance is required. The lamination parameters returned are those of the stacks. When the search is not truncated, no other admissible design is better, and failure means that none exists; failure changes nothing.',
     ['inputs', 'configurations', 'histories'],
     'all reference stacks, ply counts, targets, weightings, rules and search limits',
     NOREL + 'optimality and failure quantify over all sequences of drops and additions.',
     [R + 'thick_to_thin.py', R + 'thin_to_thick.py', B + 'reduced_multipanels.py'],
     [('thinner panels', R + 'thick_to_thin.py:repair_thick_to_thin'),
      ('thicker panels', R + 'thin_to_thick.py:repair_thin_to_thick'),
      ('choice', B + 'objectives.py:calc_obj_multi_panel')],
     state=[('pdls_tab, angle_queue_tab, lampam_tab', 'designs found so far with the ply that waits for its opposite', R + 'thick_to_thin.py')])
prop('C23', 'The repair of a blended structure is consistent, and right about its success',
     'The repair of a structure first repairs the reference panel: success means that this panel meets every rule, its plies replace those of all panels at the same places, the layout and the other plies stay, and failure changes nothing. Then the drops of thinner and of thicker panels are redesigned. The table, stacks and ply drop layout returned always describe the same structure, with the prescribed ply counts, thinner panels only dropping plies of thicker ones, the covering plies everywhere and the reference panel as repaired; the step number says how far the repair came, and success means that all panels designed meet the rules. The arguments are never modified in place.',
     ['inputs', 'configurations'],
     'all structures, stacks, layouts, reference panels, targets and parameters',
     NOREL + 'the outcome combines five stages on several panels.',
     [R + 'repair_mp.py', R + 'repair_reference_panel.py', R + 'thick_to_thin.py', R + 'thin_to_thick.py', B + 'format_pdl.py'],
     [('whole repair', R + 'repair_mp.py:repair_mp'),
      ('reference panel', R + 'repair_reference_panel.py:repair_reference_panel'),
      ('new reference stack in the table', B + 'format_pdl.py:convert_ss_ref_to_reduced_sst')],
     state=[('reduced_ss, reduced_sst, reduced_pdl', 'stacks, table and layout of the blending strip', R + 'repair_mp.py')])
O_ = B + 'optimiser_with_one_pdl.py'
prop('C24', 'Every design of the optimiser is blended and meets all rules',
     'A run of the whole optimiser returns, for every initial layout of the ply drops that has a solution and for the design retained, stacks with the prescribed ply counts, a stacking sequence table whose rows without drops are these stacks, thinner panels that only drop plies of thicker ones, and laminates that meet all the rules asked for (symmetry, damage tolerance, covering, disorientation, contiguity, 10% rule; balance of the reference panel, at most one unbalanced ply elsewhere). Panels of equal thickness get equal stacks. The only refusal is that the search found no solution.',
     ['inputs', 'configurations'],
     'all structures (panels, areas, ply counts), targets, weightings, rules, parameters and layouts given or generated',
     NOREL + 'the guarantee concerns complete runs of five stages over all inputs.',
     [B + 'optimiser.py', O_, R + 'repair_mp.py', B + 'results.py'],
     [('run', B + 'optimiser.py:BELLA_optimiser'), ('one layout', O_ + ':BELLA_optimiser_one_pdl')],
     state=[('ss_final, sst_final, pdl_final', 'designs repaired for one layout', O_)])
prop('C25', 'The search keeps the best partial lay-ups and misses none',
     'The search for the orientations lays the plies of the guide stack in the optimisation order; the candidates at each level are exactly the admissible next plies; within the limits on survivors, those retained are the ones with the smallest weighted distance between the lamination parameters of the plies laid so far and the targets, over all panels with their drops. Without limits all compliant lay-ups reach the repair, hence the best one; at the last level the estimate is the objective. Every evaluation of the objective is counted.',
     ['inputs', 'configurations', 'histories'],
     'all structures, layouts of drops, targets, weightings, rules and limits',
     NOREL + 'completeness quantifies over all lay-ups, optimality over all partial ones.',
     [O_, B + 'lampam_matrix.py', B + 'moments_of_areas.py', B + 'ply_order.py', B + 'objectives.py', B + 'pruning.py'],
     [('search', O_ + ':BELLA_optimiser_one_pdl'), ('weights', B + 'moments_of_areas.py:calc_mom_of_areas2')],
     state=[('ss_bot_tab, ss_top_tab, lampam_tab, obj_constraints_tab', 'partial lay-ups that survive', O_)])
prop('C26', 'Reported values and saved workbooks describe the designs and the set-up',
     'The lamination parameters, ply counts, numbers of violations, penalties and objectives reported for every layout are those of the stacks reported; the design retained is the one of the best layout. The workbook saved tells the same, row by row: constraints, parameters, coefficients, panels and structure as given, results of every layout and the best one.',
     ['inputs', 'configurations'],
     'all runs of the optimiser',
     NOREL + 'the reports must be right for every run.',
     [O_, B + 'results.py', B + 'save_result.py', B + 'save_set_up.py', 'src/divers/excel.py'],
     [('results', B + 'results.py:BELLA_Results.update'), ('saved results', B + 'save_result.py:save_result_BELLAs'),
      ('saved set-up', B + 'save_set_up.py:save_multipanel')],
     state=[('BELLA_Results tables', 'results per layout and panel', B + 'results.py')])
L_ = 'src/LAYLA_V02/'
prop('C27', 'LAYLA keeps the best lay-ups of each group of plies and misses none',
     'The optimiser of single laminates divides the plies into groups between the smallest and the largest size asked for, from the surfaces inwards; it is only allowed to refuse when no such partition exists. Within a group the candidates at each level are exactly the admissible next plies and the partial lay-ups kept, within the limits, are those with the smallest weighted distance to the targets of the lamination parameters of the plies laid so far together with the plies that the later groups had in the previous run. The next group starts from the best lay-up of the last one. The laminate of a run is the best of the lay-ups that could be repaired.',
     ['inputs', 'configurations', 'histories'],
     'all ply counts, group sizes, targets, weightings, norms, rules, penalties and limits',
     NOREL + 'completeness quantifies over all lay-ups, optimality over all partial ones.',
     [L_ + 'beam_search.py', L_ + 'outer_step_sym.py', L_ + 'outer_step_asym.py', L_ + 'divide_laminate_sym.py', L_ + 'divide_laminate_asym.py', L_ + 'moment_of_areas.py', L_ + 'objectives.py', L_ + 'pruning.py', L_ + 'ply_order.py'],
     [('search of a group', L_ + 'beam_search.py:beam_search'), ('one run', L_ + 'outer_step_sym.py:outer_step_sym')],
     state=[('ss_bot_tab, ss_top_tab, lampam_tab, obj_const_tab', 'partial lay-ups that survive', L_ + 'beam_search.py'),
            ('lampam_assumed', 'plies assumed in the groups not yet reached', L_ + 'outer_step_sym.py')])
prop('C28', 'Every laminate designed by LAYLA meets all rules and is reported as it is',
     'A run of the optimiser of single laminates returns a laminate with the prescribed ply count that only uses the allowed orientations and meets all the rules asked for (symmetry, damage tolerance, balance, disorientation, contiguity, 10% rule). The lamination parameters and the objective reported are those of this laminate, the counters those of the search. The runs are repeated until the laminate does not change any more or the number asked for is reached; the best run is returned and the tables hold each run. The targets given are not modified, and the result can be displayed. The saved set-up tells the rules and parameters as given. The only refusals are that no partition exists, that the search found nothing or that nothing could be repaired.',
     ['inputs', 'configurations', 'histories'],
     'all ply counts, targets, weightings, norms, rules, penalties, limits and repair settings',
     NOREL + 'the guarantee concerns complete runs over all inputs.',
     [L_ + 'optimiser.py', L_ + 'outer_step_sym.py', L_ + 'outer_step_asym.py', L_ + 'beam_search.py', L_ + 'results.py', L_ + 'parameters.py', L_ + 'save_set_up.py'],
     [('run', L_ + 'optimiser.py:LAYLA_optimiser'), ('results', L_ + 'results.py:LAYLA_Results')],
     state=[('ss_tab, lampam_tab_tab, obj_tab', 'result of each run', L_ + 'results.py')])
prop('C29', 'Set-ups are accepted exactly when admissible, and taken over as given',
     'The guidelines (of BELLA and LAYLA), the parameters, the objective function, the panels and the material filled in by a user are refused when and only when a value is of the wrong kind or outside its range (truth values for switches, percentages, numbers of plies, nodes and runs, group sizes, coefficients, weights, orientations with their opposites, moduli, densities). Otherwise every value is taken over, shown as it is and completed consistently: damage tolerance brings covering, rules that are off have no effect, percentages for the +-45 plies apply together or separately, the tables over the orientations agree, weightings of the lamination parameters drop those fixed by a guideline and are shares, panels know their middle ply, area and weight, targets (of BELLA and LAYLA) for lamination parameters fixed by a guideline are nought and the others as given, materials their stiffnesses and densities.',
     ['inputs', 'configurations'],
     'all combinations of values of all fields',
     NOREL + 'admissibility and consistency quantify over all combinations of fields.',
     [B + 'constraints.py', B + 'parameters.py', B + 'obj_function.py', B + 'panels.py', B + 'materials.py', L_ + 'constraints.py', L_ + 'parameters.py', L_ + 'materials.py'],
     [('guidelines', B + 'constraints.py:Constraints'), ('guidelines of LAYLA', L_ + 'constraints.py:Constraints'),
      ('parameters', B + 'parameters.py:Parameters'), ('parameters of LAYLA', L_ + 'parameters.py:Parameters'),
      ('panel', B + 'panels.py:Panel'), ('material', B + 'materials.py:Material')])

prop('C30', 'Buckling factors and the sheets of materials and panels tell what they are about',
     'The critical buckling factor of a simply supported panel is the least over the modes tested of the factor of the orthotropic plate given by its sides, loads (tension counted as compression), material and thickness, from a stack as well as from its (four or twelve) lamination parameters; the margin is the factor minus one in percent. The sheets that describe a material, a structure and a design give the moduli, stiffnesses and invariants of the material, the sizes, loads, weights, areas, targets and penalties of the panels, the buckling factors of the targets and of the designs when asked for, and the anisotropies in bending and twisting.',
     ['inputs', 'configurations'],
     'all stacks, materials, sizes, loads and structures',
     NOREL + 'the least mode changes with loads, sizes, orientations and thickness together.',
     ['src/buckling/buckling.py', B + 'save_set_up.py', B + 'save_result.py', L_ + 'save_set_up.py', 'src/guidelines/ply_drop_spacing.py', 'src/guidelines/ipo_oopo.py'],
     [('buckling', 'src/buckling/buckling.py:buckling_factor'), ('sheets of panels', B + 'save_set_up.py:save_multipanel'),
      ('sheets of designs', B + 'save_result.py:save_result_BELLA_one_pdl')])

prop('C31', 'Input files carry set-ups unchanged to the optimiser',
     'A set-up written to a workbook, whatever the order of its sheets, and read back by the scripts that start runs from input files reaches the optimiser unchanged: guidelines with their percentages and limits, fibre orientations, coefficients of the objective, material, panels with their numbers, neighbours (none, one or several), ply counts, weights, targets and weightings, sizes and loads; it may be written again and started again. The shipped input files are those made by their scripts and arrive panel by panel as their cells tell. The designs of another program are taken over ply by ply when formatted. The example script ends with a blended design of the prescribed numbers of plies. A run whose results file exists already asks first: it goes on, without the former results, only when agreed, and otherwise stops and leaves them as they are.',
     ['inputs', 'configurations', 'histories'],
     'all set-ups, orders of sheets and sequences of writing and starting',
     NOREL + 'conversions on the way depend on all the other values of the sheet (a flag or a number of neighbours may change the kind of a whole column).',
     [B + 'save_set_up.py', 'src/divers/excel.py', 'run_BELLA_from_input_file_SST_1.py', 'run_BELLA_from_input_file_horseshoe.py', 'run_BELLA_2_panels.py', 'input-files/create_input_file_SST.py', 'input-files/create_input_file_horseshoe.py', 'FXI-results/format_restults_FXI_SST_1.py'],
     [('write', B + 'save_set_up.py:save_multipanel'), ('read', 'run_BELLA_from_input_file_SST_1.py'),
      ('read with loads', 'run_BELLA_from_input_file_horseshoe.py')])

prop('C32', 'Workbooks keep everything that is written to them',
     'A table appended to a workbook is found again where it belongs, cell by cell: in a new workbook or sheet from the first row, below what a sheet already holds when no row is given, or from the row given (over what is there, or on its own when the sheet is to be truncated), with or without its header and labels. Everything else stays: the other sheets, their order, the other cells and the table handed over. Adjusting the widths changes no content, makes every column wide enough and centres it. A workbook is deleted only if it exists and the user, asked first, agrees; otherwise it stays and the run stops.',
     ['inputs', 'histories'],
     'all tables, rows, sheets, answers and sequences of these operations',
     NOREL + 'what an operation must keep depends on all operations before it.',
     ['src/divers/excel.py'],
     [('append', 'src/divers/excel.py:append_df_to_excel'), ('widths', 'src/divers/excel.py:autofit_column_widths'),
      ('delete', 'src/divers/excel.py:delete_file')],
     state=[('book', 'sheets and cells', 'workbook file')])

prop('C33', 'The tools for subsets, sums, orders, angles, displays are complete and exact',
     'The enumeration of subsets gives each subset once, in order and with its number, and starts anew after the last. Searches for the subsets with a given sum give every solution exactly once (also with equal values and zeros, and when several searches take turns) and then end; their number, one of them, the table of the sums that can be formed and the values that form each of them agree, and nothing is given for sums that cannot be formed. Sorting according to an order keeps all values, those of the order first, the others in ascending order. Element-wise maxima treat a single number as one for every element and refuse other sizes that differ. Displays of stacking sequences, lists and lamination parameters show every value at its place, in lines of the length asked for. The angle between two orientations is the least one, half a turn apart being the same, and the distance of plies is told regarding the mid-surface.',
     ['inputs', 'schedules'],
     'all sets of values, sums, orders, arrays, line lengths and interleavings of searches',
     NOREL + 'completeness quantifies over all subsets.',
     ['src/divers/subset_sum.py', 'src/divers/sorting.py', 'src/divers/arrays.py', 'src/divers/pretty_print.py', 'src/RELAY/repair_tools.py'],
     [('next subset', 'src/divers/subset_sum.py:subset_next'), ('next solution', 'src/divers/subset_sum.py:subset_sum_next'),
      ('sort', 'src/divers/sorting.py:sortAccording'), ('maxima', 'src/divers/arrays.py:max_arrays')],
     state=[('u, t, more', 'place of a search', 'src/divers/subset_sum.py:subset_sum_next')])

prop('C34', 'The in-plane orthotropy parameters are those of the laminate',
     'The twelve in-plane orthotropy parameters of a laminate are the absolute ratios of its coupling terms to its normal and shear terms: six of its in-plane stiffness A, six of its in-plane compliance, which for a laminate that is not symmetric is the inverse of A - B D^-1 B. Calculated together or six at a time they are the same; a laminate without coupling of in-plane and bending terms has the same parameters whether taken as symmetric or not; mirroring a laminate, turning it over or scaling its stiffness changes nothing, a turn by ninety degrees exchanges the roles of the two axes, and a balanced laminate without bending coupling has none. The penalty is the largest magnitude over their number.',
     ['inputs'],
     'all materials and lamination parameters',
     NOREL + 'the relations quantify over all laminates and materials.',
     ['src/guidelines/ipo_oopo.py'],
     [('twelve parameters', 'src/guidelines/ipo_oopo.py:ipo_param_1_12'), ('first six', 'src/guidelines/ipo_oopo.py:ipo_param_1_6'),
      ('last six', 'src/guidelines/ipo_oopo.py:ipo_param_7_12'), ('penalty', 'src/guidelines/ipo_oopo.py:calc_penalty_ipo_param')])

prop('C35', 'Calls leave what they are given as it was and can be repeated',
     'The rules and their penalties, the filters, the conversions between stacks, tables and layouts, the repairs of laminates and of blended structures, the orthotropy and buckling tools, and whole runs of BELLA and LAYLA leave the stacks, layouts, lamination parameters, ply counts, structures, materials, constraints, parameters and objective functions they are given as they were (a run of the optimiser takes over its multi-panel structure, filtering targets and weightings). Whenever a call is made with the same objects and the same state of the random generators it gives the same result as if it were the only call, whatever calls are made before and in between. What a call gave is not altered by later calls.',
     ['inputs', 'histories'],
     'all calls, objects shared between them, and orders and repetitions of calls',
     'each test makes one call; effects on later calls show in histories of calls only.',
     ['src/BELLA/optimiser.py', 'src/LAYLA_V02/optimiser.py', 'src/RELAY/repair_ss.py', 'src/RELAY/repair_mp.py', 'src/guidelines/one_stack.py', 'src/BELLA/format_pdl.py'],
     [('run', 'src/BELLA/optimiser.py:BELLA_optimiser'), ('run of LAYLA', 'src/LAYLA_V02/optimiser.py:LAYLA_optimiser'),
      ('repair', 'src/RELAY/repair_ss.py:repair_ss'), ('conversions', 'src/BELLA/format_pdl.py')],
     state=[('parameters, constraints, multipanel', 'objects shared by calls', 'src/BELLA/parameters.py')])
