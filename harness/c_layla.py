"""C27..: LAYLA, the optimiser of single laminates."""
import os
import shutil
import tempfile
import numpy as np
import numpy.matlib     # noqa: the optimiser relies on it

import core
from core import observe, as_bool, as_int, as_ints, as_scaled, tier, Odd
from bella import A4, A8, ODD, constraints, c_rec
from c_search import mc_module
from c_relay import exact_percents
from c_optimise import Everywhere, near, num, pairs, truth, \
    words, WEIGHTS, WEIGHTS_B, FEW

SQ = 10000
TWIST = [[0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0],
         [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0]]


def rules(rng, search=False, **over):
    """rules of a laminate"""
    from_one = rng.choice([A4, A4, A4, A8])
    kw = {'sym': rng.random() < 0.5, 'set_of_angles': from_one}
    kw['bal'] = rng.random() < 0.4
    kw['ipo'] = kw['bal'] or rng.random() < 0.15
    kw['oopo'] = rng.random() < 0.2
    kw['contig'] = rng.random() < 0.5
    kw['n_contig'] = rng.choice([2, 2, 3, 3, 4, 5]) if kw['contig'] else 1
    kw['diso'] = rng.random() < 0.5
    kw['delta_angle'] = rng.choice([45, 45, 30, 60, 90])
    rule = rng.choice([0, 1] if search else [0, 1, 2, 3])
    kw['dam_tol'] = rule > 0
    if rule:
        kw['dam_tol_rule'] = rule
    kw['rule_10_percent'] = rng.random() < 0.4
    if kw['rule_10_percent']:
        kw['percent_0'] = rng.choice([0, 10, 15])
        kw['percent_90'] = rng.choice([0, 10, 20])
        if rng.random() < 0.5:
            kw['combine_45_135'] = False
            kw['percent_45'] = kw['percent_135'] = rng.choice([0, 5, 10])
        else:
            kw['percent_45_135'] = rng.choice([0, 10, 20])
    kw.update(over)
    if rng.random() < 0.2 and not kw['rule_10_percent']:
        kw['set_of_angles'] = rng.choice(ODD)
    return constraints(layla=True, **kw)


def record(c):
    r = c_rec(c)
    r['bal'] = bool(c.bal or c.ipo)
    if not c.contig:
        r['n_contig'] = 1000
    return r


def request(rng, c, n, runs, search=False):
    """targets and parameters, as a record"""
    few = bool(c.oopo or c.ipo)
    pool = FEW + TWIST if few else WEIGHTS + ([] if c.sym else WEIGHTS_B*2)
    pen = rng.choice(['', '', 'ipo', 'bal', 'ten', 'ten'])
    lim = (lambda *x: rng.choice(x))
    q = {'n': n, 'w': rng.choice(pool), 'tg': near(rng, c, n, 0.4),
         'norm': rng.choice([2, 2, 2, 1]),
         'cb': rng.choice([1, 1, 2]) if c.ipo else 0,
         'co': rng.choice([1, 1, 2]) if c.oopo else 0,
         'c10': rng.choice([0, 1, 1, 2]) if c.rule_10_percent else 0,
         'sipo': bool(pen == 'ipo' and c.ipo),
         'sbal': bool(pen == 'bal' and c.bal),
         'sten': bool(pen == 'ten' and c.rule_10_percent),
         'loc': lim(1, 2, 3, 100), 'locf': lim(1, 2, 3, 100),
         'glob': lim(1, 2, 3, 5), 'globp': lim(1, 2, 3, 5), 'loose': 0}
    g = max(c.n_contig if c.contig else 1, rng.choice([1, 2, 3]))
    top = [max(g, rng.choice([g, g + 1, g + 2, 6, 8, 12]))]
    for _ in range(runs - 1):
        top.append(top[-1] if rng.random() < 0.7
                   else max(g, rng.choice([g + 1, 4, 6, 8])))
    return q, g, top


def parameters(c, q, gmin, gmax, par, lams=None):
    from src.LAYLA_V02.parameters import Parameters
    return Parameters(
        constraints=c, n_outer_step=len(gmax), coeff_10=q['c10'],
        coeff_bal_ipo=q['cb'], coeff_oopo=q['co'], group_size_min=gmin,
        group_size_max=np.array(gmax, int),
        first_level_sensitivities=np.array(q['w'], float),
        lampam_to_be_optimised=np.array(
            lams or [1 if x else par['zeros'] for x in q['w']]),
        global_node_limit=q['glob'], global_node_limit_p=q['globp'],
        local_node_limit=q['loc'], local_node_limit_final=q['locf'],
        repair_membrane_switch=par['membrane'],
        repair_flexural_switch=par['flexural'], p_A=par['p_A'],
        n_D1=par['n_D1'], n_D2=par['n_D2'], n_D3=par['n_D3'],
        penalty_10_pc_switch=q['sten'], penalty_bal_switch=q['sbal'],
        penalty_ipo_switch=q['sipo'], type_obj_func=q['norm'])


def layla_steps(c, q, gmin, gmax, par, ops):
    """one run of the optimiser, for each of the operations"""
    from src.LAYLA_V02.targets import Targets
    from src.LAYLA_V02 import optimiser
    from src.LAYLA_V02.divide_laminate_sym import divide_laminate_sym
    from src.LAYLA_V02.divide_laminate_asym import divide_laminate_asym
    from src.RELAY.repair_ss import repair_ss
    from src.guidelines.one_stack import check_lay_up_rules
    outer = optimiser.outer_step_sym if c.sym else optimiser.outer_step_asym
    divide = divide_laminate_sym if c.sym else divide_laminate_asym
    seen = [[]]
    found = []

    def spy_repair(ss, *a, **kw):
        before = as_ints(ss)
        v = repair_ss(ss, *a, **kw) if par['repair'] \
            else (np.array(before, int), True, 0)
        seen[-1].append({'a': before, 'z': as_ints(v[0]),
                         'ok': as_bool(v[1])})
        return v

    def spy_outer(*a, **kw):
        v = outer(*a, **kw)
        seen.append([])
        found.append(v)
        return v

    def targets():
        return Targets(n_plies=q['n'], lampam=np.array(q['tg'])/1000)

    def run():
        t, given = targets(), np.array(q['tg'])/1000
        checks = check_lay_up_rules if par['repair'] \
            else (lambda *a, **kw: 0)
        with Everywhere(repair_ss, spy_repair), \
                Everywhere(outer, spy_outer), \
                Everywhere(check_lay_up_rules, checks):
            r = optimiser.LAYLA_optimiser(
                parameters(c, q, gmin, gmax, par), c, t)
        if (t.lampam_initial != given).any() or t.n_plies != q['n']:
            raise Odd('the targets given were changed')
        return r

    def obj(x):
        return -1 if x != x else as_scaled(x, SQ) if x < 1e5 else 1000000000

    def count(x):
        return -1 if x != x else as_int(x)

    def enc(r):
        k = r.obj_tab.size
        if r.lampam_tab_tab.shape != (k, 12):
            raise Odd('tables')
        return {'done': as_bool(r.completed), 'ss': as_ints(r.ss),
                'shown': core.call(repr, r)[0] == 'ok',
                'lp': [as_scaled(x, 1000) for x in r.lampam],
                'obj': obj(r.objective),
                'steps': as_int(r.number_of_outer_steps_performed),
                'best': as_int(r.n_outer_step_best_solution),
                'tab': [{'ss': as_ints(r.ss_tab[i]), 'obj': obj(r.obj_tab[i]),
                         'lp': [as_scaled(x, 1000)
                                for x in r.lampam_tab_tab[i]],
                         'last': count(r.n_designs_last_level_tab[i]),
                         'rep': count(r.n_designs_repaired_tab[i]),
                         'uniq': count(r.n_designs_repaired_unique_tab[i])}
                        for i in range(k)]}
    step = observe('design', {'q': q, 'gmin': gmin, 'gmax': gmax,
                              'most': len(gmax)}, enc, run, timeout=90)
    runs = []
    for k in range(len(seen)):
        if k == len(found) and (step['k'] != 'exc' or k >= len(gmax)):
            break
        out = core.call(
            divide, parameters(c, q, gmin, gmax, par), targets(), step=k)
        x = {'g': as_ints(out[1][0]) if out[0] == 'ok' else [], 'nodes': seen[k], 'best': [],
             'obj': 0, 'lp': [], 'zero': False, 'last': 0, 'rep': 0,
             'uniq': 0}
        if k < len(found):
            v = found[k]
            x.update(best=as_ints(v.ss_best), obj=obj(v.obj_const),
                     lp=[as_scaled(y, 1000) for y in v.lampam_best],
                     zero=bool(v.obj_const < 1e-10),
                     last=as_int(v.n_designs_last_level),
                     rep=as_int(v.n_designs_repaired),
                     uniq=as_int(v.n_designs_repaired_unique))
        runs.append(x)
    text = step['x']
    step['runs'] = runs
    step['why'] = '' if step['k'] != 'exc' else \
        'partition' if 'PartitioningError' in text else \
        'search' if 'Infeasible beam-search' in text else \
        'repair' if 'No successfull repair' in text else 'other'
    return [dict(step, op=op) for op in ops]


def settings(rng, repair):
    return {'repair': repair, 'zeros': rng.choice([0, 1]),
            'membrane': rng.random() < 0.6, 'flexural': rng.random() < 0.6,
            'p_A': rng.choice([100, 100, 60]), 'n_D1': rng.choice([1, 2, 3, 4]),
            'n_D2': rng.choice([1, 3]), 'n_D3': rng.choice([1, 2])}


def good_percents(c, lo, hi):
    return not c.rule_10_percent or all(exact_percents(c, n)
                                        for n in range(lo, hi + 1))


def search_trace(rng, i):
    strict = i % 5 == 0    # lay-ups that only their repair makes compliant
    even = i % 7 == 2      # penalties for balance
    c = rules(rng, search=True, **(dict(
        rule_10_percent=True, percent_0=rng.choice([10, 20]),
        percent_90=rng.choice([10, 20]), percent_45_135=10, oopo=False,
        bal=False, ipo=False) if strict else dict(
        bal=True, ipo=True, oopo=False) if even else {}))
    if not good_percents(c, 4, 12):
        return None
    steps = []
    for _ in range(2):
        few = c.oopo or c.ipo
        n = rng.randint(3, 8 if few else 12 if c.sym else 9)
        q, g, top = request(rng, c, n, rng.choice([1, 1, 2, 3]))
        if c.sym and i % 4 == 1:    # back to the first groups
            n = q['n'] = rng.randint(8, 14)
            g = max(2, c.n_contig if c.contig else 1)
            top = [g, rng.choice([6, 7, 8]), g] + [g]*rng.randint(0, 1)
            q.update(loc=100, locf=100, tg=near(rng, c, n, 0.8))
        if even and c.bal:
            q.update(sbal=True, sipo=False, sten=False, cb=rng.choice([1, 2]),
                     loc=rng.choice([1, 2]), locf=rng.choice([1, 2]),
                     glob=4, globp=4)
        if strict:
            q.update(sten=True, sbal=False, sipo=False, c10=2, locf=100,
                     globp=5)
        steps += layla_steps(c, q, g, top,
                             settings(rng, strict or rng.random() < 0.5),
                             ['search'])
    return {'id': 'search%d' % i, 'c': record(c), 'steps': steps}


FREE = {'loc': 100000, 'locf': 100000, 'glob': 100000, 'globp': 100000,
        'loose': 100000}


def setting(w, lims, **kw):
    q = {'w': w, 'norm': 2, 'cb': 0, 'co': 0, 'c10': 0, 'sipo': False,
         'sbal': False, 'sten': False, 'loose': 0}
    q.update(lims)
    q.update(kw)
    return q


def lim(loc, locf, glob, globp):
    return {'loc': loc, 'locf': locf, 'glob': glob, 'globp': globp}


D1 = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 0]
AD = [1, 0, 1, 0, 0, 0, 0, 0, 2, 1, 1, 0]
A1 = [1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
ABD = [1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0]
# constraints, sizes: (plies, groups, smallest and largest group), settings
MODELS = [
    (dict(sym=True, contig=True, n_contig=2, diso=True, delta_angle=45),
     [(7, [4], 2, 6), (8, [4], 2, 6), (8, [2, 2], 2, 2), (9, [2, 3], 2, 2)],
     [setting(AD, FREE), setting(D1, lim(2, 2, 2, 2)),
      setting(D1, lim(100, 1, 3, 1)), setting(AD, FREE, norm=1)]),
    (dict(sym=False, contig=True, n_contig=2, diso=True, delta_angle=45),
     [(5, [5], 2, 6), (6, [3, 3], 2, 3)],
     [setting(ABD, FREE), setting(ABD, lim(2, 3, 2, 2)),
      setting(AD, lim(100, 100, 3, 2), norm=1)]),
    (dict(sym=True, bal=True, ipo=True, rule_10_percent=True, percent_0=20,
          percent_45_135=10, dam_tol=True, dam_tol_rule=1),
     [(7, [4], 1, 6), (8, [2, 2], 1, 2)],
     [setting(A1, FREE, sipo=True, cb=1),
      setting(A1, lim(3, 2, 3, 2), sipo=True, cb=1),
      setting(D1, FREE, sbal=True, cb=2),
      setting(D1, lim(2, 2, 4, 3), sten=True, c10=1)]),
    (dict(sym=False, oopo=True, dam_tol=True, dam_tol_rule=1, diso=True,
          delta_angle=45),
     [(5, [5], 1, 6), (6, [3, 3], 1, 3)],
     [setting(A1, FREE, co=1), setting(A1, lim(2, 2, 2, 2), co=2)]),
]


def model_cases(chk):
    """requests generated by the specification"""
    rng = chk.rng
    out = []
    for i, (kw, sizes, sets) in enumerate(MODELS):
        c = constraints(layla=True, set_of_angles=A4, **kw)
        targets = [near(rng, c, 8, 0.5) for _ in range(tier(3, 12))]
        mod = mc_module(chk, 'MCLayla%d' % i, 'LaylaGen', {
            'MyCfg': record(c), 'MySizes': [{'n': s[0], 'g': s[1]}
                                            for s in sizes],
            'MyTargets': targets, 'MySettings': sets})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
            ' Cfg <- MyCfg\n Sizes <- MySizes\n Targets <- MyTargets\n'
            ' Settings <- MySettings\n Runs = 3\nINVARIANT Settled Legal '
            'Order Disjoint OneEach Complete3 Exact Optimal Repeats '
            'Completion Emit\n', label='LAYLA %d' % i)
        for e in sorted(core.gen_lines(res), key=str):
            n, _, gmin, gmax = sizes[e['size'] - 1]
            out.append((c, dict(sets[e['set'] - 1], n=n,
                                tg=targets[e['tgt'] - 1]), gmin, gmax))
    return out


def check_C27(chk):
    traces = []
    for j, (c, q, gmin, gmax) in enumerate(model_cases(chk)):
        traces.append({'id': 'gen%d' % j, 'c': record(c), 'steps': layla_steps(
            c, q, gmin, [gmax]*3, settings(chk.rng, False), ['search'])})
    traces += chk.record(search_trace, tier(300, 3000), tag='search')
    chk.conform('TraceLayla', traces)


def saved_step(rng, c):
    """the set-up, saved in a workbook and read back"""
    from src.LAYLA_V02 import save_set_up as book
    q, gmin, gmax = request(rng, c, 12, rng.choice([1, 2, 3]))
    par = settings(rng, True)
    par['zeros'] = 0
    folder = tempfile.mkdtemp(prefix='bella_verif_')
    name = os.path.join(folder, 'set-up.xlsx')
    q['w'] = [rng.choice([0, 1, 2, 3]) for _ in range(12)]
    lams = [rng.choice([0, 1, 1]) for _ in range(12)]
    q['w'][0] = lams[0] = 1

    def run():
        p = parameters(c, q, gmin, gmax, par, lams)
        book.save_constraints_LAYLA(name, c)
        book.save_parameters_LAYLA_V02(name, p)
        return p

    def enc(p):
        s = pairs(name, 'Parameters')
        g = lambda k: num(s[k], 1)
        return {'cons': enc_rules(pairs(name, 'Constraints')), 'par': {
            'most': as_int(s['maximum number of iterations']),
            'glob': as_int(s['global_node_limit']),
            'globp': as_int(s['global_node_limit_p']),
            'loc': as_int(s['local_node_limit']),
            'locf': as_int(s['local_node_limit_final']),
            'membrane': truth(s['repair_membrane_switch']),
            'flexural': truth(s['repair_flexural_switch']),
            'p_A': g('p_A'), 'n_D1': g('n_D1'), 'n_D2': g('n_D2'),
            'n_D3': g('n_D3'),
            'sten': truth(s['penalty for the 10% rule (ply counts)']),
            'sbal': truth(s['penalty for balance']),
            'sipo': truth(s['penalty for in-plane orthotropy']),
            'cb': num(s['coeff for in-plane orthotropy/balance penalty'], 1),
            'co': num(s['coeff for out-of plane orthotropy penalty'], 1),
            'c10': num(s['coeff for the 10% rule penalty'], 1),
            'norm': int(str(s['type of objective function']).split()[-1]),
            'gmin': g('minimum group size'),
            'gmax': words(s['maximum group size']),
            'lams': [g('lampam_to_be_optimised[%d]' % (k + 1))
                     for k in range(12)],
            'w': [num(s['first_level_sensitivities[%d]' % (k + 1)], 1000000)
                  for k in range(12)]}}
    step = observe('saved', {'q': q, 'gmin': gmin, 'gmax': gmax,
                             'par': par, 'lams': lams}, enc, run)
    shutil.rmtree(folder)
    return step


def saved_trace(rng, i):
    c = rules(rng)
    return {'id': 'saved%d' % i, 'c': dict(
        record(c), balance=bool(c.bal), ipo=bool(c.ipo)),
        'steps': [saved_step(rng, c) for _ in range(2)]}


def enc_rules(p):
    g = lambda k: as_scaled(p[k], 1)
    return {
        'sym': truth(p['symmetry']), 'balance': truth(p['balance']),
        'ipo': truth(p['in-plane orthotropy']),
        'oopo': truth(p['out-of-plane orthotropy']),
        'dam_tol': truth(p['damage tolerance']),
        'dam_tol_rule': as_int(p['dam_tol_rule']),
        'ten': truth(p['10% rule']),
        'p': {'p0': g('percent_0'), 'p45': g('percent_45'),
              'p90': g('percent_90'), 'p135': g('percent_-45'),
              'p45_135': g('percent_+-45')},
        'diso': truth(p['diso']), 'delta': as_int(p['delta_angle']),
        'contig': truth(p['contig']),
        'n_contig': int(min(float(p['n_contig']), 10**9)),
        'angles': words(p['fibre orientations'])}


def design_trace(rng, i):
    c = rules(rng)
    if not good_percents(c, 4, 20):
        return None
    steps = []
    for _ in range(3):
        n = rng.randint(4, 20)
        q, g, top = request(rng, c, n, rng.choice([1, 2, 3, 4]))
        steps += layla_steps(c, q, g, top, settings(rng, True), ['design'])
    return {'id': 'design%d' % i, 'c': record(c), 'steps': steps}


def check_C28(chk):
    traces = chk.record(design_trace, tier(300, 4000), tag='design')
    traces += chk.record(saved_trace, tier(60, 600), tag='saved')
    chk.conform('TraceLayla', traces)

