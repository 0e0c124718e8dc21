"""C29: set-ups are refused or taken over."""
import json
import math

import numpy as np

import core
from core import observe, as_int, as_ints, as_scaled, tier, gen_lines, Odd
from bella import A4, A8, constraints

RULES = ('sym bal oopo dam_tol dam_tol_rule rule_10_percent percent_0 '
         'percent_45 percent_90 percent_135 percent_45_135 diso contig '
         'n_contig delta_angle angles').split()
BELLA_RULES = RULES + ('rule_10_Abdalla percent_Abdalla combine_45_135 '
                       'calc_combine_45_135 min_drop pdl_spacing covering '
                       'n_covering').split()
REPAIR = ('repair_membrane_switch repair_flexural_switch p_A n_D1 n_D2 '
          'n_D3').split()
FIELDS = {
    'bella_rules': BELLA_RULES,
    'layla_rules': RULES + ['ipo'],
    'bella_par': REPAIR + (
        'global_node_limit local_node_limit global_node_limit_final '
        'local_node_limit_final global_node_limit2 local_node_limit2 '
        'global_node_limit3 local_node_limit3 n_ini_ply_drops '
        'group_size_min group_size_max n_plies_ref_panel').split(),
    'layla_par': REPAIR + (
        'global_node_limit local_node_limit global_node_limit_p '
        'local_node_limit_final n_outer_step group_size_min group_size_max '
        'sizes penalty_10_pc_switch penalty_10_lampam_switch '
        'penalty_bal_switch penalty_ipo_switch coeff_10 coeff_bal_ipo '
        'coeff_oopo sens chosen').split(),
    'objective': ('n_modes coeff_10 coeff_bal_ipo coeff_oopo coeff_contig '
                  'coeff_diso coeff_spacing').split(),
    'panel': 'n_plies area length_x length_y weighting weights'.split(),
    'material': 'E11 E22 G12 nu12 density_volume density_area ply_t'.split(),
}
KINDS = list(FIELDS)


def py(x, mult=1):
    """the Python value of a field"""
    t, v = x['t'], x['v']
    if t == 'b':
        return bool(v)
    if t == 'i':
        return v//100*mult
    if t == 'f':
        return v/100*mult
    return str(v//100) if t == 's' else None


def val(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    return as_scaled(x, 100)


def shares(x):
    x = np.asarray(x, float)
    if not np.isfinite(x).all():
        return [-1]*x.size
    return [as_scaled(v, 10000) for v in x]


def displayed(obj, labels):
    """the values shown after labels, in the order they come;
    labels: (label, field, scale); scale 0 for truth values"""
    lines = [[w.strip() for w in line.split(':', 1)]
             for line in repr(obj).splitlines() if ':' in line]
    out = {}
    for label, field, scale in labels:
        k = next((i for i, w in enumerate(lines)
                  if w[0].lstrip('- ') == label), None)
        if k is None:
            raise Odd('not displayed: ' + label)
        text = lines.pop(k)[1].rstrip(' %')
        if text in ('True', 'False'):
            out[field] = int(text == 'True')
        else:
            out[field] = as_scaled(float(text), scale)
    return out


PCT_LABELS = [('percentage 0', 'percent_0', 100),
              ('percentage 45', 'percent_45', 100),
              ('percentage 90', 'percent_90', 100),
              ('percentage -45', 'percent_135', 100),
              ('percentage +-45', 'percent_45_135', 100)]
DISO_LABELS = [('Disorientation rule', 'diso', 1),
               ('delta_angle', 'delta_angle', 100),
               ('Contiguity rule', 'contig', 1),
               ('n_contig', 'n_contig', 1),
               ('Number of allowed fibre orientations', 'n_set_of_angles', 1)]
LABELS = {
    'bella_rules': [
        ('Symmetry', 'sym', 1), ('Balance requirement', 'bal', 1),
        ('Out-of-plane orthotropy requirement', 'oopo', 1),
        ('Damage tolerance constraint', 'dam_tol', 1),
        ('Damage tolerance rule', 'dam_tol_rule', 1),
        ('Covering', 'covering', 1),
        ('Number of plies for covering rule', 'n_covering', 1),
        ('10 percent rule', 'rule_10_percent', 1),
        ('percentage limit for the rule applied on LPs',
         'percent_Abdalla', 100)] + PCT_LABELS + DISO_LABELS + [
        ('Ply drop spacing rule', 'pdl_spacing', 1),
        ('Minimum number of plies between ply drops region', 'min_drop', 1)],
    'layla_rules': [
        ('Symmetry', 'sym', 1), ('Balance', 'bal', 1),
        ('In-plane orthotropy requirement', 'ipo', 1),
        ('Out-of-plane orthotropy requirement', 'oopo', 1),
        ('Damage tolerance constraint', 'dam_tol', 1),
        ('Damage tolerance rule', 'dam_tol_rule', 1),
        ('10 percent rule', 'rule_10_percent', 1)] + PCT_LABELS + [
        ('percentage of plies concerned by the 10 % rule', 'percent_tot',
         100)] + DISO_LABELS,
    'bella_par': [
        ('Number of initial ply drops to be tested', 'n_ini_ply_drops', 100),
        ('Minimum size for the ply groups', 'group_size_min', 100),
        ('Maximum size for the ply groups', 'group_size_max', 100),
        ('for global pruning', 'global_node_limit', 100),
        ('for local pruning', 'local_node_limit', 100),
        ('for global pruning at the last level', 'global_node_limit_final',
         100),
        ('for local pruning at the last level', 'local_node_limit_final',
         100),
        ('Input number of plies in reference panel', 'n_plies_ref_panel',
         100),
        ('Repair for in-plane lamination parameter convergence',
         'repair_membrane_switch', 1),
        ('Repair for out-of-plane lamination parameter convergence',
         'repair_flexural_switch', 1),
        ('p_A', 'p_A', 100), ('n_D1', 'n_D1', 100), ('n_D2', 'n_D2', 100),
        ('n_D3', 'n_D3', 100),
        ('for global pruning', 'global_node_limit2', 100),
        ('for local pruning', 'local_node_limit2', 100),
        ('for global pruning', 'global_node_limit3', 100),
        ('for local pruning', 'local_node_limit3', 100)],
    'layla_par': [
        ('Minimum size for the groups of plies', 'group_size_min', 100),
        ('Number of outer steps', 'n_outer_step', 100),
        ('Repair for in-plane lamination parameter convergence',
         'repair_membrane_switch', 1),
        ('Repair for out-of-plane lamination parameter convergence',
         'repair_flexural_switch', 1),
        ('Penalty for the 10% rule (on ply counts)', 'penalty_10_pc_switch',
         1),
        ('Penalty for the 10% rule (on lampams)',
         'penalty_10_lampam_switch', 1),
        ('Penalty for balance', 'penalty_bal_switch', 1),
        ('Penalty for in-plane orthotropy', 'penalty_ipo_switch', 1),
        ('Coefficient for the penalty for the 10\\% rule', 'coeff_10', 100),
        ('Coefficient for the penalty for in-plane orthotropy or balance',
         'coeff_bal_ipo', 100),
        ('Coefficient for the penalty for out-of-plane orthotropy',
         'coeff_oopo', 100),
        ('Percent_thickness_repair_membrane', 'p_A', 100),
        ('N_plies_last_permut_diso_contig', 'n_D1', 100),
        ('N_shifts_tested_flexural_repair', 'n_D2', 100),
        ('N_repeat_flexural_repair', 'n_D3', 100),
        ('for global pruning during ply orientation optimisation',
         'global_node_limit', 100),
        ('for global pruning at the last level of ply orientation '
         'optimisation', 'global_node_limit_p', 100),
        ('for local pruning during ply orientation optimisation',
         'local_node_limit', 100),
        ('for local pruning at the last level of ply orientation '
         'optimisation', 'local_node_limit_final', 100)],
    'objective': [
        ('Number of buckling modes to be tested if buckling minimisation '
         'problem', 'n_modes', 100),
        ('for the disorientation rule', 'coeff_diso', 100),
        ('for the contiguity rule', 'coeff_contig', 100),
        ('for the 10% rule', 'coeff_10', 100),
        ('for balance', 'coeff_bal_ipo', 100),
        ('for out-of-plane orthotropy', 'coeff_oopo', 100),
        ('for the ply drop spacing guideline', 'coeff_spacing', 100)],
}


# --------------------------------------------------------------------------
def enc_rules(kind):
    def enc(c):
        frac = lambda x: as_scaled(x, 10000)
        pairs = lambda d: [[as_int(k), as_int(v)]
                           for k, v in sorted(d.items())]
        v = {f: int(bool(getattr(c, f)))
             for f in ('sym', 'oopo', 'bal', 'ipo', 'dam_tol', 'diso',
                       'contig', 'rule_10_percent')}
        for f in ('percent_0', 'percent_45', 'percent_90', 'percent_135',
                  'percent_45_135', 'percent_tot'):
            v[f] = frac(getattr(c, f))
        v['dam_tol_rule'] = as_int(c.dam_tol_rule)
        v['delta_angle'] = as_scaled(c.delta_angle, 100)
        v['n_contig'] = as_int(c.n_contig)
        v['n_contig_c'] = as_int(min(c.n_contig_c, 1000000))
        if kind == 'bella_rules':
            for f in ('pdl_spacing', 'rule_10_Abdalla', 'covering'):
                v[f] = int(bool(getattr(c, f)))
            v['min_drop'] = as_int(c.min_drop)
            v['n_covering'] = as_int(c.n_covering)
            v['percent_Abdalla'] = frac(c.percent_Abdalla)
        v['set_of_angles'] = as_ints(c.set_of_angles)
        v['n_set_of_angles'] = as_int(c.n_set_of_angles)
        v['pos_angles'] = as_ints(c.pos_angles)
        for f in ('index0', 'index45', 'index90', 'index135'):
            v[f] = as_int(getattr(c, f, -1))
        v['angles_bal'] = [as_ints(row) for row in c.angles_bal]
        for f in ('angles_dict', 'ind_angles_dict',
                  'indices_pos_angles_dict', 'indices_bal'):
            v[f] = pairs(getattr(c, f))
        return {'v': v, 'shown': displayed(c, LABELS[kind]),
                'trig': [[as_scaled(x) for x in row] for row in c.cos_sin]}
    return enc


def enc_par(kind):
    def enc(p):
        v = {f: val(getattr(p, f)) for f in FIELDS[kind]
             if f not in ('sizes', 'sens', 'chosen')
             and not (kind == 'layla_par' and f == 'group_size_max')}
        out = {'v': v, 'shown': displayed(p, LABELS[kind])}
        if kind == 'layla_par':
            v['group_size_max'] = as_ints(p.group_size_max)
            out['ini'] = shares(p.lampam_weightings_ini)
            out['final'] = shares(p.lampam_weightings_final)
            out['finalA'] = shares(p.weighting_finalA)
            out['finalD'] = shares(p.weighting_finalD)
        return out
    return enc


def guidelines(q, layla):
    kw = {'set_of_angles': A4 if q['std'] else A8}
    for f in ('sym', 'bal', 'oopo', 'rule_10_percent'):
        kw[f] = bool(q[f])
    if layla:
        kw['ipo'] = bool(q['ipo'])
        kw['contig'] = q['n_contig'] > 1
        kw['n_contig'] = q['n_contig']
    else:
        kw['contig'] = bool(q['contig'])
        kw['n_contig'] = 3
        kw['diso'] = bool(q['diso'])
        kw['pdl_spacing'] = bool(q['pdl_spacing'])
    return constraints(layla=layla, **kw)


def setup_step(kind, d, q, rng):
    d = {f: d[f] for f in FIELDS[kind]}
    args = {'d': d, 'q': q}
    if kind.endswith('_rules'):
        kw = {f: py(d[f]) for f in d if f != 'angles'}

        def fn():
            return constraints(layla=kind == 'layla_rules',
                               set_of_angles=d['angles'], **kw)
        return observe(kind, args, enc_rules(kind), fn)
    if kind == 'bella_par':
        from src.BELLA.parameters import Parameters
        c = constraints()
        kw = {f: py(d[f]) for f in d}
        return observe(kind, args, enc_par(kind),
                       lambda: Parameters(c, **kw))
    if kind == 'layla_par':
        from src.LAYLA_V02.parameters import Parameters
        c = guidelines(q, True)
        kw = {f: py(d[f]) for f in d if f not in ('sizes', 'sens', 'chosen')}
        if d['sizes']:
            kw['group_size_max'] = np.array(d['sizes'])
        kw['first_level_sensitivities'] = np.array(
            d['sens'], float if rng.random() < 0.7 else int)
        kw['lampam_to_be_optimised'] = np.array(
            d['chosen'], float if rng.random() < 0.5 else int)
        from src.LAYLA_V02.targets import Targets
        args['targets'] = [rng.randint(-100, 100) for _ in range(12)]
        args['n'] = rng.randint(1, 60)

        def enc(p):
            given = np.array(args['targets'])/100
            out, t = enc_par(kind)(p), Targets(args['n'], given)
            t.filter_target_lampams(c)
            out['n'] = as_int(t.n_plies)
            for f, w in (('targets', t.lampam), ('targets_ini',
                         t.lampam_initial), ('targets_given', given)):
                out[f] = [as_scaled(x, 100) for x in w]
            return out
        return observe(kind, args, enc, lambda: Parameters(c, **kw))
    if kind == 'objective':
        from src.BELLA.obj_function import ObjFunction
        c = guidelines(q, False)
        kw = {f: py(d[f]) for f in d}
        return observe(kind, args, enc_par(kind),
                       lambda: ObjFunction(c, **kw))
    if kind == 'panel':
        return panel_step(args, d, q, rng)
    return material_step(args, d, rng)


def panel_step(args, d, q, rng):
    from src.BELLA.panels import Panel
    from src.BELLA.obj_function import ObjFunction
    c = guidelines(q, False)
    args['coef'] = rng.choice([0, 50, 100, 250])
    args['dens'] = rng.choice([1, 250, 300])
    args['targets'] = [rng.randint(-100, 100) for _ in range(12)]
    kw = {f: py(d[f]) for f in d if f != 'weights'}
    kw['lampam_weightings'] = np.array(
        d['weights'], float if rng.random() < 0.7 else int)

    def fn():
        return Panel(ID=1, constraints=c, neighbour_panels=[],
                     lampam_target=np.array(args['targets'])/100, **kw)

    def enc(p):
        obj = ObjFunction(c, coeff_oopo=args['coef']/100)
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p.filter_target_lampams(c, obj)
                p.filter_lampam_weightings(c, obj)
        v = {f: val(getattr(p, f))
             for f in ('weighting', 'length_x', 'length_y', 'area')}
        v['n_plies'] = as_int(p.n_plies)
        v['has_middle_ply'] = int(bool(p.has_middle_ply))
        v['middle_ply_index'] = as_int(p.middle_ply_index)
        v['weight'] = as_scaled(p.calc_weight(args['dens']), 100)
        return {'v': v, 'targets': [as_scaled(x, 100)
                                    for x in p.lampam_target],
                'weights': shares(p.lampam_weightings),
                'weightsA': shares(p.lampam_weightingsA),
                'weightsD': shares(p.lampam_weightingsD)}
    return observe('panel', args, enc, fn)


GIGA = ('E11', 'E22', 'G12')


def material_step(args, d, rng):
    if rng.random() < 0.5:
        from src.BELLA.materials import Material
    else:
        from src.LAYLA_V02.materials import Material
    mult = {'density_volume': 1000, 'ply_t': 1e-6}
    kw = {f: py(d[f], 10**9 if f in GIGA else mult.get(f, 1))
          if d[f]['t'] in 'if' else py(d[f]) for f in d}

    def enc(m):
        out = {f: as_scaled(getattr(m, f)/1e7, 1)
               for f in GIGA + ('Q11', 'Q12', 'Q22', 'Q66', 'U1', 'U2', 'U3',
                                'U4', 'U5')}
        out['nu12'] = as_scaled(m.nu12, 100)
        out['nu21'] = as_scaled(m.nu21, 10000)
        out['density_volume'] = as_scaled(m.density_volume/1000, 100)
        out['density_area'] = as_scaled(m.density_area, 100)
        out['ply_t'] = as_scaled(m.ply_t*1e6, 100)
        return out
    return observe('material', args, enc, lambda: Material(**kw))


# --------------------------------------------------------------------------
# random drafts
# --------------------------------------------------------------------------
def v_(t, x):
    return {'t': t, 'v': x}


def flag(rng):
    return v_('b', rng.randint(0, 1))


def whole(rng, a, b):
    return v_('i', 100*rng.randint(a, b))


def number(rng, a, b):
    """between a and b hundredths"""
    if rng.random() < 0.5:
        return v_('i', rng.randint(math.ceil(a/100), b//100)*100)
    return v_('f', rng.randint(a, b))


def rnd_angles(rng, ten):
    pos = rng.sample([15, 30, 45, 60, 75], rng.randint(0, 4))
    if ten and 45 not in pos:
        pos.append(45)
    a = [x for p in pos for x in (p, -p)]
    if ten or rng.random() < 0.8:
        a.append(0)
    if ten or rng.random() < 0.8 or not a:
        a.append(90)
    rng.shuffle(a)
    return a


def rnd_draft(rng, kind):
    q = {f: rng.randint(0, 1)
         for f in ('sym', 'bal', 'ipo', 'oopo', 'rule_10_percent', 'std',
                   'contig', 'diso', 'pdl_spacing')}
    q['ipo'] = max(q['ipo'], q['bal'])
    q['n_contig'] = rng.choice([1, 3, 4])
    d = {}
    if kind.endswith('_rules'):
        ten = rng.random() < 0.7
        for f in FIELDS[kind]:
            if f.startswith('percent'):
                d[f] = number(rng, 0, 4000)
            else:
                d[f] = flag(rng)
        d['rule_10_percent'] = v_('b', int(ten))
        if kind == 'bella_rules':
            d['rule_10_Abdalla'] = v_('b', int(rng.random() < 0.3))
            d['percent_Abdalla'] = number(rng, 0, 2499)
            d['min_drop'] = whole(rng, 1, 5)
            d['n_covering'] = whole(rng, 0, 2)
        if rng.random() < 0.4:
            d['percent_45'] = d['percent_135'] = v_('i', 0)
        d['dam_tol_rule'] = whole(rng, 1, 3)
        d['n_contig'] = whole(rng, 2, 8)
        d['delta_angle'] = number(rng, 1500, 9000)
        d['angles'] = rnd_angles(rng, ten)
        return d, q
    if kind.endswith('_par'):
        for f in FIELDS[kind]:
            d[f] = (flag(rng) if f.endswith('switch')
                    else number(rng, 0, 500) if f.startswith('coeff')
                    else whole(rng, 1, 300))
        d['p_A'] = number(rng, 0, 10000)
        g = rng.randint(1, 9)
        if kind == 'layla_par':
            g = max(g, q['n_contig'])
            runs = rng.randint(1, 4)
            d['n_outer_step'] = v_('i', 100*runs)
            d['sizes'] = [] if rng.random() < 0.4 else \
                [rng.randint(g, g + 8)
                 for _ in range(runs + rng.randint(0, 2))]
            if rng.random() < 0.8:
                d[rng.choice(['penalty_10_pc_switch',
                              'penalty_10_lampam_switch'])] = v_('b', 0)
                d[rng.choice(['penalty_bal_switch',
                              'penalty_ipo_switch'])] = v_('b', 0)
            d['sens'] = [rng.choice([0, 1, 1, 2, 5, 9]) for _ in range(12)]
            d['chosen'] = [int(rng.random() < 0.7) for _ in range(12)]
            if not q['rule_10_percent']:
                d['penalty_10_pc_switch'] = v_('b', 0)
            if not q['bal']:
                d['penalty_bal_switch'] = v_('b', 0)
        d['group_size_min'] = v_('i', 100*g)
        d['group_size_max'] = whole(rng, g, g + 8)
        if kind == 'bella_par':
            d['n_plies_ref_panel'] = number(rng, 100, 20000)
        return d, q
    if kind == 'objective':
        for f in FIELDS[kind]:
            d[f] = number(rng, 0, 500)
        d['n_modes'] = whole(rng, 1, 20)
        return d, q
    if kind == 'panel':
        d['n_plies'] = whole(rng, 1, 60)
        for f in ('length_x', 'length_y'):
            d[f] = v_('i', 0) if rng.random() < 0.3 else \
                v_('f', 10*rng.randint(0, 50)) if rng.random() < 0.5 else \
                whole(rng, 1, 6)
        d['area'] = number(rng, 0, 800)
        d['weighting'] = number(rng, 0, 500)
        d['weights'] = [rng.choice([0, 1, 1, 2, 5, 9]) for _ in range(12)]
        return d, q
    d['E11'] = number(rng, 5000, 20000)
    d['E22'] = whole(rng, 2, 20)
    d['G12'] = number(rng, 100, 1500)
    d['nu12'] = v_('f', rng.choice([-20, -10, 0, 10, 20, 30, 40]))
    d['density_volume'] = v_('i', 0) if rng.random() < 0.4 else \
        whole(rng, 500, 3000)
    d['density_area'] = v_('i', 0) if rng.random() < 0.4 else \
        number(rng, 5000, 60000)
    d['ply_t'] = v_('f', 100*rng.choice([100, 125, 150, 200, 250]))
    return d, q


def spoil(rng, kind, d):
    """one field outside what is admissible, or merely another one"""
    f = rng.choice([f for f in d if isinstance(d[f], dict)
                    and f not in ('combine_45_135', 'calc_combine_45_135',
                                  'delta_angle', 'n_contig')])
    d[f] = rng.choice([v_('s', 500), v_('n', 0), v_('i', -300),
                       v_('f', -50), v_('f', 250), v_('i', 12000)])


def rnd_trace(rng, i):
    kind = KINDS[i % len(KINDS)]
    steps = []
    for _ in range(8):
        d, q = rnd_draft(rng, kind)
        if rng.random() < 0.25 and kind != 'material':
            spoil(rng, kind, d)
        if not settled_by_the_spec(kind, d, q):
            continue
        steps.append(setup_step(kind, d, q, rng))
    return {'steps': steps}


def settled_by_the_spec(kind, d, q):
    """left open: flags of penalties whose guideline is not required"""
    on = lambda f: d[f] == v_('b', 1)
    fl = lambda f: d[f]['t'] == 'b'
    num = lambda f: d[f]['t'] in 'if'
    if kind == 'layla_par':
        for f, g in (('penalty_10_pc_switch', 'rule_10_percent'),
                     ('penalty_10_lampam_switch', 'rule_10_percent'),
                     ('penalty_bal_switch', 'bal'),
                     ('penalty_ipo_switch', 'ipo')):
            if not q[g] and (on(f) or not fl(f)):
                return False
    if kind.endswith('_rules'):
        if d['dam_tol_rule']['t'] == 'f' or \
                (kind == 'bella_rules' and d['n_covering']['t'] == 'f'):
            return False
    if kind == 'bella_par' and not num('n_plies_ref_panel'):
        return True
    return True


MODELS = {'bella_rules': 2, 'layla_rules': 2, 'bella_par': 2, 'layla_par': 2,
          'objective': 2, 'panel': 2, 'material': 2}


def cases(chk):
    cfg = ['SPECIFICATION Spec', 'CONSTANTS Kinds = {%s}' % ', '.join(
        '"%s"' % k for k in KINDS), 'MaxChanges = 2', 'EmitCases = TRUE',
        'CHECK_DEADLOCK FALSE',
        'INVARIANTS StartsFine Settled Sound GiveUp WeightShares Emit']
    res = chk.model('SetupGen', '\n'.join(cfg), label='drafts', heap='8g')
    found = gen_lines(res)
    chk.note('drafts_generated', len(found))
    return found


def generated(chk):
    rng = chk.rng
    by = {k: [] for k in KINDS}
    for g in cases(chk):
        by[g['kind']].append(g)
    keep = tier(1500, 12000)
    traces = []
    for kind, all_ in by.items():
        all_.sort(key=lambda g: json.dumps(g, sort_keys=True))
        chosen = all_ if len(all_) <= keep else rng.sample(all_, keep)
        steps = [setup_step(kind, g['d'], g['q'], rng) for g in chosen
                 if settled_by_the_spec(kind, g['d'], g['q'])]
        traces += [{'id': '%s-%d' % (kind, i), 'steps': steps[i:i + 50]}
                   for i in range(0, len(steps), 50)]
    return traces


def check_C29(chk):
    traces = generated(chk)
    traces += chk.record(rnd_trace, tier(420, 6000), tag='draft')
    chk.conform('TraceSetup', traces)
