"""C24..: the optimiser of blended structures."""
import os
import sys
import tempfile

import numpy as np

import core
from core import observe, as_int, as_ints, as_scaled, tier, Odd
import bella
from bella import A4, A8, arr, constraints, c_rec
from c_search import mc_module
import c_relay
from c_relay import rnd_rules, exact_percents
from c_blending import make_panels, chain_nbrs, nested_table
from c_rework import lampams

from src.BELLA.multipanels import MultiPanel
from src.BELLA.panels import Panel
from src.BELLA.parameters import Parameters
from src.BELLA.obj_function import ObjFunction

SQ = 10000


def all_lampams(s):
    """the twelve lamination parameters of a stack"""
    import math
    n = len(s)
    a, d = lampams(s)
    f4 = ((math.cos, 2), (math.cos, 4), (math.sin, 2), (math.sin, 4))
    w = [((2*i + 2 - n)**2 - (2*i - n)**2)/(2*n**2) for i in range(n)]
    b = [sum(x*f(math.radians(k*p)) for x, p in zip(w, s)) for f, k in f4]
    return a + b + d


def layout(rng, c, counts, numbered=True):
    """a guide-based layout of the drops of the panels of the strip"""
    n = counts[-1]
    cov = c.n_covering if c.covering else 0
    if not c.sym:
        return nested_table(rng, counts, n, nc=cov, numbered=numbered)
    h = n//2
    half = nested_table(rng, [k//2 - cov for k in counts], h - cov,
                        numbered=False)
    if half is None:
        return None
    half = [[0]*cov + r for r in half]
    rows = [r + [0]*(n % 2) + r[::-1] for r in half]
    if numbered:
        for r in rows:
            k = 0
            for i, x in enumerate(r):
                if x != -1:
                    r[i] = k
                    k += 1
    return rows


def near(rng, c, n, odd=0.2):
    """a target: that of a laminate which may break guidelines"""
    angles = [int(a) for a in c.set_of_angles]
    if rng.random() < odd:
        return [rng.randint(-1000, 1000) for _ in range(12)]
    s = [rng.choice(angles) for _ in range(n)]
    if c.sym:
        s = [s[min(i, n - 1 - i)] for i in range(n)]
    return [int(round(1000*x)) for x in all_lampams(s)]


class Everywhere:
    """replaces a function of the code under test in every module that
    imported it"""

    def __init__(self, fn, new):
        self.fn, self.new, self.seen = fn, new, []

    def __enter__(self):
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').startswith('src.'):
                for k, v in list(vars(m).items()):
                    if v is self.fn:
                        self.seen.append((m, k))
                        setattr(m, k, self.new)
        return self

    def __exit__(self, *exc):
        for m, k in self.seen:
            setattr(m, k, self.fn)


def strip(c, counts, w, wt, tg, o, ref=None):
    ids = list(range(1, len(counts) + 1))
    ps = make_panels(c, counts, ids, chain_nbrs(ids), [float(x) for x in w],
                     targets=[np.array(t)/1000 for t in tg])
    for p, v in zip(ps, wt):
        p.lampam_weightings = np.array(v, float)
        p.lampam_weightings_ini = np.array(v, float)
    mp = MultiPanel(ps)
    mp.filter_target_lampams(c, o)
    mp.filter_lampam_weightings(c, o)
    mp.from_mp_to_blending_strip(c, ref or counts[-1])
    return mp


# --------------------------------------------------------------------------
# C25 the search
# --------------------------------------------------------------------------
def beam_step(c, s, lims, cf):
    from src.BELLA.divide_panels import divide_panels
    from src.BELLA.ply_order import calc_ply_order
    from src.BELLA.moments_of_areas import calc_mom_of_areas
    from src.BELLA.lampam_matrix import calc_delta_lampams
    from src.BELLA.optimiser_with_one_pdl import BELLA_optimiser_one_pdl
    from src.RELAY.repair_mp import repair_mp
    seen = []

    def repair(multipanel, stack, *a, **kw):
        pdl = kw.get('reduced_pdl', a[-1] if a else None)
        ss = [as_ints(x) for x in stack]
        seen.append(ss)
        sst = []
        for row, x in zip(pdl, ss):
            x = list(x)
            sst.append([x.pop(0) if y != -1 else -1 for y in row])
        return True, [np.array(x, int) for x in ss], np.array(sst, int), \
            np.array(pdl), 4

    def run():
        o = ObjFunction(constraints=c, coeff_diso=cf[0], coeff_contig=cf[1],
                        coeff_10=cf[2], coeff_oopo=s['co'])
        par = Parameters(
            c, group_size_min=1, group_size_max=100,
            local_node_limit=lims['loc'], local_node_limit_final=100000,
            global_node_limit=lims['glob'],
            global_node_limit_final=lims['fin'])
        mp = strip(c, s['counts'], s['w'], s['wt'], s['tg'], o)
        par.group_size_max = 10000
        divide_panels(mp, par, c)
        order = calc_ply_order(mp, c)
        plus, mom = calc_mom_of_areas(mp, c, order)
        delta = calc_delta_lampams(mp, c, mom, order)
        pdl, k = [], 0
        for r in s['rows']:
            k, o2 = 0, []
            for x in r:
                o2.append(-1 if x == -1 else k)
                k += x != -1
            pdl.append(o2)
        with Everywhere(repair_mp, repair):
            return BELLA_optimiser_one_pdl(
                mp, par, o, c, order, plus, delta, np.array(pdl, int))

    def enc(v):
        if v is None:
            raise Odd('no result')
        return {'seen': bool(seen), 'nodes': list(seen),
                'ss': [as_ints(x) for x in v.ss],
                'objs': [as_scaled(x, SQ) for x in v.obj_no_constraints],
                'calls': as_int(v.n_obj_func_calls)}
    cf = [cf[0] if c.diso else 0, cf[1] if c.contig else 0,
          cf[2] if c.rule_10_percent else 0]
    return observe('beam', {'s': s, 'lims': lims, 'cf': cf, 'exact':
                            cf[1] == 0 and not (cf[2] and c.rule_10_Abdalla)},
                   enc, run, timeout=60)


WEIGHTS = [
    [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 2, 0],
    [1, 0, 1, 0, 0, 0, 0, 0, 2, 1, 1, 0],
    [1, 1, 0, 0, 0, 0, 0, 0, 2, 0, 2, 0],
    [1, 1, 0, 1, 0, 0, 0, 0, 1, 0, 1, 1],
]
WEIGHTS_B = [
    [1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0],
    [0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 1, 0],
    [1, 1, 0, 0, 0, 1, 1, 0, 0, 0, 2, 0],
]
FEW = [[1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
       [0, 0, 1, 0, 0, 0, 0, 0, 1, 1, 0, 0],
       [1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0]]


def beam_trace(rng, i):
    angles = A8 if rng.random() < 0.15 else A4
    c = rnd_rules(rng, set_of_angles=angles, dam_tol=(i % 3 == 0),
                  **({'dam_tol_rule': 1} if i % 3 == 0 else {}),
                  oopo=rng.random() < 0.2)
    if c.rule_10_percent and not c.rule_10_Abdalla \
            and not all(exact_percents(c, n) for n in range(4, 13)):
        return None
    few = c.oopo
    steps = []
    for _ in range(2):
        top = 8 if few else (12 if c.sym else 9)
        n = rng.randint(5, top)
        unit = 2 if c.sym else 1
        P = rng.choice([1, 2, 2, 3])
        low = max(4, 2*(c.n_covering if c.covering else 0) + 1)
        counts = sorted({n} | {max(low + (n - low) % unit,
                                   n - unit*rng.randint(1, 3))
                               for _ in range(P - 1)})
        rows = layout(rng, c, counts, numbered=False)
        if rows is None:
            continue
        P = len(counts)
        pool = FEW if few else WEIGHTS + ([] if c.sym else WEIGHTS_B*2)
        one = rng.choice(pool)
        wt = [one if rng.random() < 0.6 else rng.choice(pool)
              for _ in counts]
        s = {'counts': counts, 'rows': rows,
             'w': [rng.choice([1, 1, 2]) for _ in counts], 'wt': wt,
             'tg': [near(rng, c, k, 0.6) for k in counts], 'co': 1}
        wide = rng.random() < 0.1 and len(angles) == 4 and n <= (
            8 if c.sym else 5)
        if wide:
            lims = {'loc': 100000, 'glob': 100000, 'fin': 100000,
                    'loose': 100000}
        else:
            lims = {'loc': rng.choice([1, 2, 3]) if c.sym
                    and rng.random() < 0.5 else 100000,
                    'glob': rng.choice([1, 2, 3, 5, 10]),
                    'fin': rng.choice([1, 2, 3, 5]), 'loose': 0}
        cf = [rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 0, 1]),
              rng.choice([0, 0, 1])]
        steps.append(beam_step(c, s, lims, cf))
    return {'id': 'beam%d' % i, 'c': c_rec(c), 'steps': steps} \
        if steps else None


FREE = {'loc': 100000, 'glob': 100000, 'fin': 100000, 'loose': 100000}


def lim(loc, glob, fin):
    return {'loc': loc, 'glob': glob, 'fin': fin, 'loose': 0}


MODELS = [
    (dict(sym=True, bal=False, contig=True, n_contig=2, diso=True,
          delta_angle=45, rule_10_percent=False, dam_tol=False),
     [([7], [[0]*7], [1]), ([6, 8], [[0, 0, -1, 0, 0, -1, 0, 0], [0]*8],
                            [1, 2])]),
    (dict(sym=True, bal=True, contig=False, diso=False,
          rule_10_percent=False, dam_tol=True, dam_tol_rule=1),
     [([6, 8, 10], [[0, -1, 0, 0, -1, -1, 0, 0, -1, 0],
                    [0, 0, 0, 0, -1, -1, 0, 0, 0, 0], [0]*10],
       [1, 1, 1])]),
    (dict(sym=False, bal=False, contig=True, n_contig=2, diso=True,
          delta_angle=45, rule_10_percent=False, dam_tol=False),
     [([5], [[0]*5], [1]), ([3, 5], [[0, -1, 0, -1, 0], [0]*5], [2, 1])]),
]


def model_cases(chk):
    """searches generated by the specification: (constraints, case)"""
    rng = chk.rng
    out = []
    for i, (kw, shapes) in enumerate(MODELS):
        c = constraints(set_of_angles=A4, **kw)
        shapes = [{'counts': a, 'rows': b, 'w': w} for a, b, w in shapes]
        targets = [near(rng, c, 8, 0.5) for _ in range(tier(4, 12))]
        weights = WEIGHTS[:4] if c.sym else WEIGHTS_B
        limits = [FREE, dict(lim(100000, 100000, 1), loose=100000),
                  lim(100000, 3, 2), lim(100000, 1, 1), lim(100000, 6, 100000)]
        if c.sym:
            limits += [lim(1, 4, 2), lim(2, 3, 100000)]
        mod = mc_module(chk, 'MCBeam%d' % i, 'BeamGen', {
            'MyCfg': c_rec(c), 'MyShapes': shapes, 'MyTargets': targets,
            'MyWeights': weights, 'MyLimits': limits})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
            ' Cfg <- MyCfg\n Shapes <- MyShapes\n Targets <- MyTargets\n'
            ' Weights <- MyWeights\n Limits <- MyLimits\nINVARIANT Ordered2 '
            'Legal Bounded Enough Complete2 Exact Kept Emit\n',
            label='beam search %d' % i)
        cases = core.gen_lines(res)
        cases.sort(key=str)
        if len(cases) > tier(60, 400):
            cases = rng.sample(cases, tier(60, 400))
        for e in cases:
            sh = shapes[e['shape'] - 1]
            P = len(sh['counts'])
            out.append((c, dict(sh, wt=[weights[e['wgt'] - 1]]*P,
                                tg=[targets[e['tgt'] - 1]]*P, co=1),
                        e['lims']))
    return out


def check_C25(chk):
    traces = []
    for j, (c, s, lims) in enumerate(model_cases(chk)):
        traces.append({'id': 'gen%d' % j, 'c': c_rec(c),
                       'steps': [beam_step(c, s, lims, [0, 0, 0])]})
    traces += chk.record(beam_trace, tier(160, 2500), tag='beam')
    chk.conform('TraceDesign', traces)


# --------------------------------------------------------------------------
# C24, C26 the whole optimiser
# --------------------------------------------------------------------------
def material():
    from src.BELLA.materials import Material
    return Material(E11=130e9, E22=9e9, nu12=0.3, G12=4e9,
                    density_area=300, density_volume=1500, ply_t=0.0002)


def write_layouts(path, layouts):
    import pandas as pd
    with pd.ExcelWriter(path, engine='openpyxl') as w:
        for i, x in enumerate(layouts):
            pd.DataFrame(x).to_excel(w, sheet_name='pdl%d' % (i + 1),
                                     header=False, index=False)


def case(rng, c, lo=6, hi=14, mixed=False):
    """a structure and the parameters of the optimiser, as a record"""
    unit = 2 if c.sym and not mixed else 1
    base = rng.randint(lo, hi)
    few = rng.choice([1, 2, 2, 3])
    counts = [base] + [base + unit*rng.choice([0, 1, 1, 2, 3])
                       for _ in range(few - 1)]
    rng.shuffle(counts)
    kinds = {}
    pool = WEIGHTS + ([] if c.sym else WEIGHTS_B)
    same = rng.choice(pool)
    for n in counts:
        kinds.setdefault(n, (same if rng.random() < 0.6
                             else rng.choice(pool), near(rng, c, n, 0.1)))
    s = {'counts': counts, 'wt': [kinds[n][0] for n in counts],
         'tg': [kinds[n][1] for n in counts],
         'w': [rng.choice([1, 1, 2, 3]) for _ in counts],
         'co': rng.choice([1, 1, 2]), 'nref': rng.choice(
             [1, 1000, 1000, max(counts), min(counts), min(counts) + 1]),
         'cf': [rng.choice([0, 0, 1, 2]) if c.diso else 0,
                rng.choice([0, 0, 1]) if c.contig else 0,
                rng.choice([0, 0, 1]) if c.rule_10_percent else 0]}
    s['spacing'], s['min_drop'] = bool(c.pdl_spacing), int(c.min_drop)
    s['ids'] = rng.sample(range(1, 9), len(counts))
    s['areas'] = [rng.choice([0, 1, 2, 3]) for _ in counts]
    thick = sorted(set(counts))
    lay = []
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 3)):
            rows = layout(rng, c, thick)
            if rows is not None:
                lay.append(rows)
    s['given'] = lay
    s['most'] = len(lay) or rng.randint(1, 3)
    s['par'] = {
        'loc': rng.choice([1, 2, 4, 10]), 'glob': rng.choice([1, 3, 5, 10]),
        'locf': rng.choice([1, 2, 5]), 'globf': rng.choice([1, 2, 3, 5]),
        'membrane': rng.random() < 0.6, 'flexural': rng.random() < 0.6,
        'p_A': rng.choice([100, 100, 60]), 'n_D1': rng.choice([1, 2, 3, 4]),
        'n_D2': rng.choice([1, 3]), 'n_D3': rng.choice([1, 2]),
        'loc2': rng.choice([1, 2, 4, 10]), 'glob2': rng.choice([1, 3, 5]),
        'loc3': rng.choice([1, 2, 4, 10]), 'glob3': rng.choice([1, 3, 5]),
        'success': rng.random() < 0.4}
    return s


def optimise(c, s, path, seed):
    """the optimiser on the given case: (results, structure, parameters)"""
    import random
    from src.BELLA.optimiser import BELLA_optimiser
    random.seed(seed)
    np.random.seed(seed)
    P = len(s['counts'])
    nb = chain_nbrs(s['ids'])
    ps = []
    for i, n in enumerate(s['counts']):
        size = {'length_x': 2, 'length_y': 1.5} if s['areas'][i] == 0 \
            else {'area': s['areas'][i], 'length_x': 0, 'length_y': 0}
        ps.append(Panel(
            s['ids'][i], c, n, lampam_target=np.array(s['tg'][i])/1000,
            lampam_weightings=np.array(s['wt'][i], float), N_x=1, N_y=2,
            weighting=s['w'][i], neighbour_panels=nb[i], **size))
    mp = MultiPanel(ps)
    q = s['par']
    par = Parameters(
        c, group_size_min=1, group_size_max=6, global_node_limit=q['glob'],
        local_node_limit=q['loc'], local_node_limit_final=q['locf'],
        global_node_limit_final=q['globf'], global_node_limit2=q['glob2'],
        local_node_limit2=q['loc2'], global_node_limit3=q['glob3'],
        local_node_limit3=q['loc3'], n_ini_ply_drops=s['most'],
        p_A=q['p_A'], n_D1=q['n_D1'], n_D2=q['n_D2'], n_D3=q['n_D3'],
        repair_membrane_switch=q['membrane'],
        repair_flexural_switch=q['flexural'], n_plies_ref_panel=s['nref'],
        save_success_rate=q['success'], time_limit_group_pdl=1,
        time_limit_all_pdls=2)
    o = ObjFunction(constraints=c, coeff_diso=s['cf'][0],
                    coeff_contig=s['cf'][1], coeff_10=s['cf'][2],
                    coeff_oopo=s['co'])
    given = None
    if s['given']:
        given = path + '_pdl.xlsx'
        write_layouts(given, s['given'])
    book = path + '.xlsx'
    for f in (book,):
        if os.path.exists(f):
            os.remove(f)
    r = BELLA_optimiser(mp, par, o, c, book, material(), given)
    return r, mp, par


def value(x):
    if x != x:
        return 'none', 0
    if x >= 1e10:
        return 'fail', 0
    return 'value', as_scaled(x, SQ)


def enc_design(r, mp, c, q=None):
    """the design of layout q, or the best one"""
    if q is None:
        obj, objs, ss, sst = (r.obj_constraints, r.obj_no_constraints, r.ss,
                              r.sst)
        lp, cnt = r.lampam, r.n_plies_per_angle
        q = r.ind_mini
    else:
        obj, objs = r.obj_constraints_tab[q], r.obj_no_constraints_tab[q]
        ss, sst = r.ss_tab[q], r.ss_tab_tab[q]
        lp, cnt = r.lampam_tab_tab[:, q], r.n_plies_per_angle_tab[q]
    k, v = value(obj)
    d = {'k': k, 'obj': v}
    if k == 'none':
        return d
    f = lambda x: [as_scaled(y, SQ) for y in x]
    d['objs'] = f(objs) if k == 'value' else [0]*len(objs)
    d['ss'] = [as_ints(x) for x in ss]
    d['sst'] = [as_ints(x) for x in sst]
    d['lp'] = [[as_scaled(y, 1000) for y in x] for x in lp]
    d['np'] = [[as_scaled(y, 2) for y in x] for x in cnt]
    d['pd'], d['pc'], d['pt'] = (f(r.penalty_diso_tab[q]),
                                 f(r.penalty_contig_tab[q]),
                                 f(r.penalty_10_tab[q]))
    d['nd'] = as_ints(r.n_diso_tab[q])
    d['nc'] = [as_scaled(x, 100) for x in r.n_contig_tab[q]]
    return d


def enc_run(r, mp, c):
    n = len(r.obj_constraints_tab)
    return {'tab': [enc_design(r, mp, c, q) for q in range(n)],
            'best': as_int(r.ind_mini) + 1,
            'final': enc_design(r, mp, c)}


def run_step(op, c, s, seed, enc=None):
    with tempfile.TemporaryDirectory(prefix='bella_run_') as d:
        path = os.path.join(d, 'r')

        def fn():
            return optimise(c, s, path, seed)

        def encode(v):
            r, mp, par = v
            out = enc_run(r, mp, c)
            if enc:
                out.update(enc(path + '.xlsx', r, mp, par))
            return out
        e = observe(op, {'s': s, 'seed': seed, 'most': s['most']}, encode, fn,
                    timeout=100)
        e['nothing'] = e['k'] == 'exc' and 'no solutions' in str(e.get('x'))
        return e


def run_rules(rng, i):
    sym = i % 3 != 0
    ten = rng.random() < 0.4
    return rnd_rules(
        rng, sym=sym, bal=rng.random() < 0.5, ten=ten,
        set_of_angles=A8 if rng.random() < 0.15 else A4,
        pcts=[0, 5, 10, 10, 15], oopo=rng.random() < 0.2,
        pdl_spacing=rng.random() < 0.3, min_drop=rng.choice([1, 2, 3]),
        diso=rng.random() < 0.6, delta_angle=rng.choice([45, 45, 60]))


def design_trace(rng, i):
    c = run_rules(rng, i)
    s = case(rng, c, 6, 14 if c.sym else 11)
    if c.rule_10_percent and not c.rule_10_Abdalla \
            and not all(exact_percents(c, n) for n in range(1, 25)):
        return None
    return {'id': 'run%d' % i, 'c': c_rec(c),
            'steps': [run_step('design', c, s, rng.randrange(10**6))]}


def mixed_steps():
    """symmetric structures of panels with and without a middle ply; the
    set-up accepts them when the thickest panel has one"""
    c = constraints(set_of_angles=A4, sym=True, bal=False, diso=False,
                    contig=False, rule_10_percent=False, dam_tol=False)
    steps = []
    for counts, row, nref in (
            ([8, 9], [0, 1, 2, 3, -1, 4, 5, 6, 7], 1000),
            ([8, 9], [0, 1, 2, 3, -1, 4, 5, 6, 7], 1),
            ([8, 11], [0, 1, 2, 3, -1, -1, -1, 4, 5, 6, 7], 1000),
            ([8, 11], [0, 1, 2, 3, -1, -1, -1, 4, 5, 6, 7], 1)):
        s = {'counts': counts, 'wt': [WEIGHTS[0]]*2,
             'tg': [[0]*8 + [-400, 300, 200, 0], [0]*8 + [300, -200, 100, 0]],
             'w': [1, 1], 'co': 1, 'nref': nref, 'cf': [0, 0, 0],
             'ids': [1, 2], 'areas': [1, 1], 'spacing': False, 'min_drop': 2,
             'given': [[row, list(range(counts[1]))]], 'most': 1,
             'par': {'loc': 10, 'glob': 10, 'locf': 5, 'globf': 3,
                     'membrane': False, 'flexural': False, 'p_A': 100,
                     'n_D1': 2, 'n_D2': 3, 'n_D3': 1, 'loc2': 5, 'glob2': 5,
                     'loc3': 5, 'glob3': 5,
                     'success': False}}
        steps.append(run_step('design', c, s, 1))
    return {'id': 'mixed', 'c': c_rec(c), 'steps': steps}


def check_C24(chk):
    traces = [mixed_steps()]
    traces += chk.record(design_trace, tier(160, 3000), tag='run')
    chk.conform('TraceDesign', traces)


# ---- the workbook ------------------------------------------------------
def sheet(book, name):
    import pandas as pd
    return pd.read_excel(book, sheet_name=name, header=None,
                         keep_default_na=False)


def tables(book, name):
    """the tables below each other in a sheet, as lists of dicts"""
    out = []
    head = None
    for row in sheet(book, name).values.tolist():
        if 'index panel' in row:
            head = row
            out.append([])
        elif head is None:
            raise Odd('no header in %s' % name)
        else:
            out[-1].append(dict(zip(head, row)))
    return out


def pairs(book, name):
    return {r[0]: r[1] for r in sheet(book, name).values.tolist()}


def words(x):
    out = []
    for y in str(x).split():
        f = float(y)
        if f != int(f):
            raise Odd('not a ply: %s' % y)
        out.append(int(f))
    return out


def num(x, scale):
    if x == '':
        raise Odd('an empty cell')
    return as_scaled(x, scale)


def enc_table(c, t):
    """one design in the workbook"""
    head = t[0]
    d = {'k': 'none', 'obj': 0, 'calls': -1}
    if head['obj_constraints'] != '':
        d['k'], d['obj'] = value(float(head['obj_constraints']))
    if d['k'] != 'none':
        d['calls'] = as_int(head['n_obj_func_calls'])
        d['gap'] = num(head['penalty_spacing'], SQ)
    rows = []
    for r in t:
        e = {'i': as_int(r['index panel']), 'n': as_int(r['n_plies'])}
        if d['k'] != 'none':
            e.update({
                'obj': 0 if d['k'] == 'fail'
                else num(r['obj_no_constraints'], SQ),
                'nd': as_int(r['n_violations_diso']),
                'pct': [num(r['percentage_%s_plies' % x], 1000)
                        for x in ('0', '+45', '90', '-45', '+-45')],
                'ipo': num(r['ipo: |lampam[3]| + |lampam[4]|'], 1000),
                'oopo': num(r['oopo: |lampam[11]| + |lampam[12]|'], 1000),
                'pd': num(r['penalty_diso'], SQ),
                'pc': num(r['penalty_contig'], SQ),
                'pt': num(r['penalty_10'], SQ),
                'pi': num(r['penalty_ipo'], 1000),
                'po': num(r['penalty_oopo'], 1000),
                'np': [as_int(r['n_%splies' % a]) for a in c.set_of_angles],
                'err': [num(r['lampam_error[%d]' % (k + 1)], 1000)
                        for k in range(12)],
                'lp': [num(r['lampam[%d]' % (k + 1)], 1000)
                       for k in range(12)],
                'sst': words(r['stacking sequences with ply drops included']),
                'ss': words(r['stacking sequences']),
                'pdl': words(r['initial ply drop layout'])})
        rows.append(e)
    d['rows'] = rows
    return d


def truth(x):
    if x in (True, 'True', 1):
        return True
    if x in (False, 'False', 0):
        return False
    raise Odd('neither true nor false: %r' % (x,))


def enc_constraints(p):
    g = lambda k: as_scaled(p[k], 1)
    return {
        'sym': truth(p['symmetry']), 'bal': truth(p['balance']),
        'oopo': truth(p['out-of-plane orthotropy']),
        'dam_tol': truth(p['damage tolerance']),
        'dam_tol_rule': as_int(p['dam_tol_rule']),
        'covering': truth(p['covering']), 'n_covering': as_int(p['n_covering']),
        'ten': truth(p['10% rule']),
        'onlp': truth(p['10% rule applied on LPs']),
        'onpc': truth(p['10% rule applied on ply percentages']),
        'p': {'p0': g('percent_0'), 'p45': g('percent_45'),
              'p90': g('percent_90'), 'p135': g('percent_-45'),
              'p45_135': g('percent_+-45')},
        'pa': as_scaled(p['percentage limit when rule applied on LPs'], 10),
        'diso': truth(p['diso']), 'delta': as_int(p['delta_angle']),
        'contig': truth(p['contig']),
        'n_contig': int(min(float(p['n_contig']), 10**9)),
        'angles': words(p['fibre orientations']),
        'n_angles': as_int(p['number fibre orientations']),
        'spacing': truth(p['ply drop spacing rule']),
        'min_drop': as_int(
            p['minimum number of continuous plies between ply drops'])}


def enc_parameters(p):
    return {
        'most': as_int(p['number of initial ply drops']),
        'gmin': as_int(p['minimum group size']),
        'gmax': as_int(p['maximum group size']),
        'glob': as_int(p['global_node_limit']),
        'globf': as_int(p['global_node_limit_final']),
        'loc': as_int(p['local_node_limit']),
        'locf': as_int(p['local_node_limit_final']),
        'nref': as_int(p['input number of plies in reference panel']),
        'membrane': truth(p['repair_membrane_switch']),
        'flexural': truth(p['repair_flexural_switch']),
        'p_A': as_int(p['p_A']), 'n_D1': as_int(p['n_D1']),
        'n_D2': as_int(p['n_D2']), 'n_D3': as_int(p['n_D3']),
        'glob2': as_int(p['global_node_limit2']),
        'loc2': as_int(p['local_node_limit2']),
        'glob3': as_int(p['global_node_limit3']),
        'loc3': as_int(p['local_node_limit3'])}


def enc_panels(book):
    rows = sheet(book, 'Panels').values.tolist()
    head = rows[0]
    out = []
    for row in rows[1:]:
        r = dict(zip(head, row))
        out.append({
            'id': as_int(r['Panel ID']),
            'nbrs': words(r['Neighbour panel IDs']),
            'n': as_int(r['Number of plies']),
            'w': num(r['Weighting in MP objective funtion'], 1000),
            'area': num(r['Area'], 1000),
            'nx': num(r['N_x'], 1000), 'ny': num(r['N_y'], 1000),
            'tg': [num(r['lampam_target[%d]' % (k + 1)], 1000)
                   for k in range(12)],
            'wi': [num(r['lampam_weightings_ini[%d]' % (k + 1)], 1000)
                   for k in range(12)],
            'wf': [num(r['lampam_weightings[%d]' % (k + 1)], 1000000)
                   for k in range(12)]})
    return out


def enc_book(c):
    def enc(book, r, mp, par):
        tab = [enc_table(c, t) for t in tables(book, 'Results')]
        best = [enc_table(c, t) for t in tables(book, 'Best Result')]
        m = pairs(book, 'Multipanel')
        f = pairs(book, 'Objective function')
        return {
            'tab': tab, 'best': best,
            'gap': [0 if x != x else as_scaled(x, SQ)
                    for x in r.penalty_spacing_tab],
            'calls': [-1 if x != x or x < 0 else as_int(x)
                      for x in r.n_obj_func_calls_tab],
            'cons': enc_constraints(pairs(book, 'Constraints')),
            'par': enc_parameters(pairs(book, 'Parameters')),
            'panels': enc_panels(book),
            'mp': {'panels': as_int(m['Number of panels']),
                   'most': as_int(m['Number of plies max']),
                   'area': as_scaled(m['Area'], 1000),
                   'weight': as_scaled(m['Weight'], 1),
                   'thick': as_int(m['Index of one thickest panel']) + 1},
            'cf': [as_scaled(f['coeff_' + k], 1)
                   for k in ('diso', 'contig', '10')]}
    return lambda *a: {'book': enc(*a)}


def values_trace(rng, i):
    c = run_rules(rng, i)
    s = case(rng, c, 6, 14 if c.sym else 11)
    if c.rule_10_percent and not c.rule_10_Abdalla \
            and not all(exact_percents(c, n) for n in range(1, 25)):
        return None
    one = run_step('book', c, s, rng.randrange(10**6), enc_book(c))
    two = dict(one, op='values')
    if isinstance(one.get('r'), dict):
        two['r'] = {k: x for k, x in one['r'].items() if k != 'book'}
    return {'id': 'val%d' % i, 'c': c_rec(c), 'steps': [two, one]}


def check_C26(chk):
    traces = chk.record(values_trace, tier(120, 2500), tag='val')
    chk.conform('TraceDesign', traces)
