"""C35: calls leave what they are given as it was, and give the same result
whenever they are made."""
import copy
import hashlib
import os
import random
import tempfile

import numpy as np

import bella
import c_layla
import c_optimise
import c_relay
import c_rework
from bella import A4, A8, arr, constraints, rnd_stack
from c_blending import (Clock, build, chain_nbrs, make_panels, nested_table,
                        rnd_structure)
from c_search import mc_module
from core import call, gen_lines, tier


# -- values as numbers --------------------------------------------------------
def canon(x, seen=()):
    """what a value is, without the identity of the objects that hold it"""
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return float(x)
    if isinstance(x, (float, np.floating)):
        return 'nan' if x != x else float(x) + 0.0
    if isinstance(x, (complex, np.complexfloating)):
        return complex(x)
    if id(x) in seen:
        return '...'
    seen = seen + (id(x),)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [canon(y, seen) for y in x.ravel()]
        if x.dtype.kind in 'iufb':
            return (x.shape, (np.nan_to_num(x.astype(float), nan=1e300)
                              + 0.0).tobytes())
        return (x.shape, repr(x.tolist()))
    if isinstance(x, (list, tuple)):
        return [canon(y, seen) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(canon(y, seen)) for y in x)
    if isinstance(x, dict):
        return sorted((repr(canon(k, seen)), repr(canon(v, seen)))
                      for k, v in x.items())
    if callable(x):
        return 'function'
    if hasattr(x, '__dict__'):
        return (type(x).__name__, canon(
            {k: v for k, v in vars(x).items() if 'time' not in k}, seen))
    return repr(x)


def number(x):
    return int(hashlib.md5(repr(canon(x)).encode()).hexdigest()[:7], 16)


def variant(rng, c):
    """rules that differ from the given ones in one respect"""
    d = copy.deepcopy(c)
    what = rng.choice(['percent_0', 'percent_45', 'percent_90', 'percent_135',
                       'percent_45_135', 'n_contig', 'delta_angle', 'diso',
                       'contig', 'bal', 'dam_tol', 'percent_Abdalla'])
    v = getattr(d, what)
    if isinstance(v, (bool, np.bool_)):
        setattr(d, what, not v)
    elif what == 'n_contig':
        d.n_contig = d.n_contig_c = v + 1 if v < 6 else 2
    elif what == 'delta_angle':
        d.delta_angle = 30 if v == 45 else 45
    else:
        setattr(d, what, v + .05)
    return d


# -- calls: (objects, function of the objects) ---------------------------------
def rules_calls(rng):
    """the rules, their penalties, the filters"""
    from src.RELAY.repair_10_bal import calc_mini_10
    from src.guidelines.ten_percent_rule_Abdalla import (
        calc_distance_Abdalla)
    from src.guidelines import (contiguity as ct, disorientation as ds,
                                balance as bl, ten_percent_rule as tp,
                                internal_contig as ic, dam_tol as dt,
                                external_contig as ec, ipo_oopo as io,
                                internal_diso_contig as idc,
                                external_diso_contig as edc, one_stack as one)
    sym = rng.random() < .6
    c = c_relay.rnd_rules(rng, sym=sym, set_of_angles=rng.choice([A4, A8]))
    c.delta_angle = rng.choice([45, 45, 30])
    c2 = variant(rng, c)
    seed = rng.random()

    def entries(c):
        rng = random.Random(seed)
        angles = [int(a) for a in c.set_of_angles]
        n = rng.choice([8, 9, 12, 15])
        pick = lambda m=n: rnd_stack(rng, m, angles, .5)
        lam = lambda: c_relay.rnd_laminate(rng, c, n)
        rows = lambda k, m: np.array([pick(m) for _ in range(k)])

        def counts():
            return np.array([float(rng.choice([0, 1, 1, 2, 4])) for _ in angles])
        num = c.n_contig
        areas = rng.choice([1, 3])
        g = rng.choice([2, 3, 4, 5])
        lp = np.array([rng.uniform(-1, 1) for _ in range(12)])
        pool = [
            ((arr(lam()),), lambda s: ct.is_contig(s, num)),
            ((arr(pick()),), lambda s: ct.calc_contig_vector(s, num)),
            (([arr(pick()), arr(pick())],),
             lambda s: ct.calc_matrix_viol_contig(s, num)),
            (([arr(pick()), arr(pick())],),
             lambda s: ct.calc_penalty_contig_mp(s, c)),
            ((arr(pick()),), lambda s: ct.calc_penalty_contig_ss(s, c)),
            ((arr(pick()),), lambda s: ds.is_diso_ss(s, c.delta_angle)),
            ((arr(lam()),), lambda s: ds.is_diso_ss(
                s, c.delta_angle, dam_tol=True, dam_tol_rule=2)),
            (([arr(pick()), arr(pick(7))],),
             lambda s: ds.calc_penalty_diso_mp_0(s, c.delta_angle)),
            (([arr(pick()), arr(pick(7))],),
             lambda s: ds.calc_number_violations_diso_mp(s, c)),
            ((arr(lam()),), lambda s: ds.calc_n_penalty_diso_ss(s, c)),
            ((arr(lam()),), lambda s: dt.is_dam_tol(s, c)),
            ((arr(lam()),), lambda s: bl.is_balanced(s, c)),
            ((counts(),), lambda p: bl.calc_penalty_bal(p, c, areas)),
            ((np.array([counts(), counts()]),),
             lambda p: bl.calc_penalty_bal(p, c, areas)),
            ((arr(lam()),), lambda s: tp.is_ten_percent_rule(c, stack=s)),
            ((arr(lam()), [rng.choice(angles), 666]),
             lambda s, q: tp.is_ten_percent_rule(c, stack=s, ply_queue=q)),
            ((counts(),), lambda p: tp.is_ten_percent_rule(
                c, n_plies_per_angle=p)),
            ((arr(lam()),), lambda s: tp.calc_penalty_10_ss(s, c)),
            (([arr(lam()), arr(lam())],),
             lambda s: tp.calc_penalty_10_ss(s, c, mp=True)),
            ((counts(),), lambda p: tp.calc_penalty_10_pc(p, c, areas)),
            ((rows(5, g),), lambda a: ic.internal_contig(a, c)),
            ((rows(5, g), rows(5, g)),
             lambda a, b: ic.internal_contig(a, c, b)),
            ((arr(lam()),), lambda s: ic.internal_contig2(s, c)),
            ((rows(5, g),), lambda a: idc.internal_diso_contig(a, c)),
            ((rows(5, g), rows(5, g)),
             lambda a, b: idc.internal_diso_contig(a, c, b)),
            ((rows(5, g), arr(pick(3))),
             lambda a, b: ec.external_contig(a, g, c, b)),
            ((rows(5, g), arr(pick(2)), rows(5, g)),
             lambda a, b, d: ec.external_contig(a, g, c, b, d)),
            ((rows(5, g), arr(pick(3))),
             lambda a, b: edc.external_diso_contig(a, g, c, b)),
            ((rows(5, g), arr(pick(1)), rows(5, g)),
             lambda a, b, d: edc.external_diso_contig(a, g, c, b, d)),
            ((arr(lam()),), lambda s: one.check_lay_up_rules(s, c)),
            ((arr(lam()),), lambda s: one.check_lay_up_rules(
                s, c, no_ipo_check=True, no_bal_check=True)),
            ((arr(lam()),), lambda s: one.check_lay_up_rules(
                s, c, no_bal_check=True)),
            ((n,), lambda x: calc_mini_10(c, x)),
            ((lp,), lambda x: calc_distance_Abdalla(x, c, 50)),
            ((lp,), lambda x: io.calc_penalty_ipo(x)),
            ((lp,), lambda x: io.calc_penalty_oopo_ss(x, c)),
            ((lp,), lambda x: io.calc_penalty_ipo_oopo_ss(x, c, None)),
        ]
        return pool
    return {'rules': c, 'other': c2}, [entries(c), entries(c2)]


def conversion_calls(rng):
    """stacks, tables and layouts of a multi-panel structure"""
    from src.BELLA import format_pdl as fp, pdl_tools as pt
    from src.BELLA.divide_panels import divide_panels
    from src.BELLA.multipanels import MultiPanel
    from src.BELLA.parameters import Parameters
    from src.BELLA.pdl_ini import check_pdls_ini, create_initial_pdls
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.moments_of_areas import calc_mom_of_areas
    from src.BELLA.ply_order import calc_ply_order
    from src.BELLA.lampam_matrix import calc_delta_lampams
    from src.guidelines.ply_drop_spacing import (
        calc_penalty_spacing, calc_penalty_spacing_1ss, is_same_pdl)
    while True:
        s = rnd_structure(rng, nmax=4, mixed=0, lo=8, hi=16)
        c = constraints(sym=s['sym'], pdl_spacing=True,
                        min_drop=rng.choice([2, 3]),
                        set_of_angles=rng.choice([A4, A8]))
        counts = sorted(set(s['plies']))
        unit = 2 if s['sym'] else 1
        half = nested_table(rng, [k//unit for k in counts],
                            counts[-1]//unit, numbered=False)
        if half is None:
            continue
        mid = counts[-1] % 2 if s['sym'] else 0
        t = [r + [0]*mid + r[::-1] for r in half] if s['sym'] else half
        break
    mp = build(s, c)
    mp.from_mp_to_blending_strip(c, 1)
    q = Parameters(c, group_size_min=2, group_size_max=5,
                   n_ini_ply_drops=2, time_limit_group_pdl=1,
                   time_limit_all_pdls=2)
    o = ObjFunction(constraints=c)
    divide_panels(mp, q, c)
    n = counts[-1]
    guide = [int(x) for x in rnd_stack(rng, n, [int(a) for a in
                                                c.set_of_angles])]
    pdl = c_rework.numbered(
        [[0 if x != -1 else -1 for x in r] for r in t])
    sst = np.array([[g if x != -1 else -1 for g, x in zip(guide, r)]
                    for r in t])
    ss = [arr([x for x in r if x != -1]) for r in sst]
    ref = rng.randrange(len(t))
    new = rnd_stack(rng, len(ss[ref]), A8)
    lists = [[i for i, x in enumerate(r) if x == -1] for r in t]
    cp = lambda x: np.array(x)
    P = len(s['plies'])
    order = calc_ply_order(mp, c)

    def fresh_drops(k):
        with Clock():
            return create_initial_pdls(mp, c, q, o)
    pool = [
        ((arr(guide), cp(pdl)), fp.convert_ss_guide_to_sst),
        ((cp(sst),), fp.convert_sst_to_ss),
        (([cp(x) for x in ss], cp(pdl)), fp.convert_ss_to_sst),
        ((arr(new), cp(pdl), [cp(x) for x in ss]),
         lambda a, b, d: fp.convert_ss_ref_to_reduced_sst(a, ref, b, d)),
        ((cp(t[0]), sorted(rng.sample(range(len(ss[0])), 3))),
         lambda r, p: fp.pos_in_ss_ref_to_pos_in_sst(p, r)),
        ((cp(t[0]), sorted(rng.sample(range(1, n + 1), 3))),
         lambda r, p: fp.pos_in_sst_to_pos_in_panel(p, r)),
        ((cp(t[0]), rng.sample(range(1, n + 1), 3)),
         lambda r, p: fp.pos_in_sst_to_pos_in_panel_2(p, r)),
        ((lists,), lambda x: pt.format_ply_drops(x, n)),
        ((cp(pdl),), pt.format_ply_drops2),
        (([[i]*3 for i in range(P)],),
         lambda x: fp.reduce_for_guide_based_blending(mp, x)),
        ((cp([[i]*3 for i in range(P)]),),
         lambda x: fp.reduce_for_guide_based_blending(mp, x)),
        (([[i]*3 for i in range(len(counts))],),
         lambda x: fp.extend_after_guide_based_blending(mp, x)),
        ((cp(pdl),), lambda x: calc_penalty_spacing(
            pdl=x, multipanel=mp, constraints=c, on_blending_strip=True)),
        ((np.array(t[0]),), lambda x: calc_penalty_spacing_1ss(
            x, c.min_drop)),
        ((cp(pdl), cp(pdl)), lambda a, b: is_same_pdl(a, b, ref)),
        ((cp(sst),), lambda x: mp.calc_weight_from_sst(
            x, 300) if P == len(counts) else None),
        ((cp(sst),), lambda x: pt.input_pdl_from_sst(x, mp, c)),
        (([cp(pdl)],), lambda x: check_pdls_ini(mp, x)),
        ((3,), fresh_drops),
        ((0,), lambda x: calc_ply_order(mp, c)),
        ((order,), lambda x: calc_mom_of_areas(mp, c, x)),
        ((order,), lambda x: calc_delta_lampams(
            mp, c, calc_mom_of_areas(mp, c, x)[0], x)),
    ]
    return {'rules': c, 'structure': mp, 'parameters': q, 'objective': o}, pool


def repair_calls(rng):
    """the stages of the repair of a laminate"""
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    from src.RELAY.repair_membrane import repair_membrane
    from src.RELAY.repair_diso_contig import (repair_diso_contig,
                                              repair_diso_contig_list)
    from src.RELAY.repair_flexural import repair_flexural
    from src.RELAY.repair_ss import repair_ss
    while True:
        c = c_relay.rnd_rules(rng, set_of_angles=rng.choice([A4, A8]))
        n = rng.choice([8, 10, 11, 13])
        if c_relay.exact_percents(c, n):
            break
    q = c_rework.repair_parameters(rng)
    q.repair_membrane_switch = q.repair_flexural_switch = True
    w = lambda: np.array(rng.choice(c_relay.COEFS), float)
    q.weighting_finalA, q.weighting_finalD = w(), w()
    c2 = variant(rng, c)
    seed = rng.random()

    def entries(c):
        rng = random.Random(seed)
        w = lambda: np.array(rng.choice(c_relay.COEFS), float)
        lp = np.array([rng.uniform(-1, 1) for _ in range(12)])
        lam = lambda: arr(c_relay.rnd_laminate(rng, c, n))

        def queued():
            k, v, _ = call(repair_10_bal, lam(), calc_mini_10(c, n), c)
            return (arr(v[0]), [int(a) for a in v[1]]) if k == 'ok' \
                else (lam(), [])
        s = [queued() for _ in range(4)]
        f = [lam() for _ in range(3)]
        for i in range(3):
            k, v, _ = call(c_relay.quick_repair, c, [int(x) for x in f[i]])
            if k == 'ok' and v is not None:
                f[i] = arr(v)
        mini = calc_mini_10(c, n)
        pool = [
            ((lam(), mini), lambda a, m: repair_10_bal(a, m, c)),
            ((lam(), mini), lambda a, m: repair_10_bal(a, m, c)),
            ((*s[0], mini, w(), lp), lambda a, b, m, x, t: repair_membrane(
                a, b, m, x, c, q, lampam_target=t)),
            ((*s[1], mini, w(), lp), lambda a, b, m, x, t: repair_membrane(
                a, b, m, x, c, q, lampam_target=t)),
            (s[2], lambda a, b: repair_diso_contig(a, list(b), c, q.n_D1)),
            (([x[0] for x in s], [x[1] for x in s]),
             lambda a, b: repair_diso_contig_list(
                 a, [list(x) for x in b], c, q.n_D1)),
            ((f[0], w(), lp), lambda a, x, t: repair_flexural(
                a, c, x, q, lampam_target=t, count_obj=True)),
            ((f[1], w(), lp), lambda a, x, t: repair_flexural(
                a, c, x, q, lampam_target=t, count_obj=True)),
            ((lam(), lp), lambda a, t: repair_ss(a, c, q, t, count_obj=True)),
            ((lam(), lp), lambda a, t: repair_ss(a, c, q, t, count_obj=True)),
        ]
        return pool
    return {'rules': c, 'other': c2, 'parameters': q}, [
        entries(c), entries(c2)]


def rework_calls(rng):
    """the repair of a blended structure"""
    from src.BELLA.obj_function import ObjFunction
    from src.CLA.lampam_functions import calc_lampam
    from src.RELAY.repair_mp import repair_mp
    from src.RELAY.repair_reference_panel import repair_reference_panel
    from src.RELAY.thick_to_thin import repair_thick_to_thin
    from src.RELAY.thin_to_thick import repair_thin_to_thick
    while True:
        c = c_relay.rnd_rules(rng, abdalla=False,
                              set_of_angles=rng.choice([A4, A8]))
        unit = 2 if c.sym else 1
        counts = [rng.randint(6, 10)]
        for _ in range(rng.choice([1, 2])):
            counts.append(counts[-1] + unit*rng.choice([1, 2]))
        n = counts[-1]
        if not all(c_relay.exact_percents(c, x)
                   for x in range(counts[0], n + 1)):
            continue
        full = c_relay.anchored(rng, c, c_relay.rnd_laminate(rng, c, n))
        k, v, _ = call(c_relay.quick_repair, c, full)
        if k == 'ok' and v is not None:
            full = v
        if c.sym and n % 2 and full[n//2] not in (0, 90):
            full[n//2] = 0
        rows = c_rework.rnd_rows(rng, c, full, counts)
        if rows is not None:
            break
    ref = rng.randint(1, len(counts))
    t = [c_rework.near_target(rng, x, full) for x in counts]
    co = rng.choice(c_relay.COEFS)
    mp = c_rework.structure(
        c, counts, ref, [1]*len(counts), [co]*len(counts), [co]*len(counts),
        [x[0] for x in t], [x[1] for x in t])
    for p in mp.reduced.panels:
        p.lampam_weightings_ini = p.lampam_weightings
        p.lampam_weightingsA = np.array(p.lampam_weightings[:4])
        p.lampam_weightingsD = np.array(p.lampam_weightings[8:])
    o = ObjFunction(constraints=c, coeff_diso=rng.choice([0, 1]))
    q = c_rework.repair_parameters(rng)
    ss = lambda: [arr(c_rework.plies(r)) for r in rows]
    lp = lambda: np.array([calc_lampam(x, c) for x in ss()])
    sst = lambda: np.array(rows, int)
    pool = [
        ((ss(), c_rework.numbered(rows)),
         lambda a, b: repair_reference_panel(mp, a, c, q, o, b)),
        ((ss(), c_rework.numbered(rows)),
         lambda a, b: repair_mp(mp, a, c, q, o, b)),
        ((lp(), sst(), ss()),
         lambda x, a, b: repair_thick_to_thin(
             np.array(x), np.array(a), [arr(y) for y in b], mp, q, o, c)),
        ((lp(), sst(), ss()),
         lambda x, a, b: repair_thin_to_thick(
             np.array(x), np.array(a), [arr(y) for y in b], mp, q, o, c)),
    ]
    return {'rules': c, 'structure': mp, 'parameters': q,
            'objective': o}, pool


def tool_calls(rng):
    """orthotropy, buckling, the general tools"""
    from src.guidelines import ipo_oopo as io
    from src.buckling.buckling import buckling_factor, buckling_factor_ss
    from src.divers import pretty_print
    from src.divers.arrays import max_arrays
    m = c_optimise.material()
    lp = lambda: np.array([rng.uniform(-.4, .4) for _ in range(12)])
    n = rng.choice([8, 12])
    st = lambda: arr(rnd_stack(rng, n, A8))
    pool = [
        ((lp(),), lambda x: io.ipo_param_1_12(x, m, False)),
        ((lp(),), lambda x: io.ipo_param_1_6(x, m, False)),
        ((lp(),), lambda x: io.ipo_param_7_12(x, m, False)),
        ((lp(),), lambda x: io.calc_penalty_ipo_param(x, .1)),
        ((st(),), lambda s: buckling_factor_ss(s, 1, 2, 1, 1, m)),
        ((lp(),), lambda x: buckling_factor(
            x, m, n, N_x=1, N_y=2, length_x=1, length_y=2)),
        ((np.array([3., 1, 2]), np.array([2., 4, 1])), max_arrays),
        ((lp(),), pretty_print.print_lampam),
        ((st(),), pretty_print.print_ss),
    ]
    return {'material': m}, pool


def bella_calls(rng):
    """whole runs of the optimiser"""
    from src.BELLA.materials import Material
    from src.BELLA.multipanels import MultiPanel
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.optimiser import BELLA_optimiser
    from src.BELLA.panels import Panel
    from src.BELLA.parameters import Parameters
    c = c_optimise.run_rules(rng, rng.randrange(12))
    s = c_optimise.case(rng, c, hi=9)
    q = s['par']
    par = Parameters(
        c, group_size_min=1, group_size_max=6, global_node_limit=q['glob'],
        local_node_limit=q['loc'], local_node_limit_final=q['locf'],
        global_node_limit_final=q['globf'], global_node_limit2=2,
        local_node_limit2=2, global_node_limit3=2, local_node_limit3=2,
        n_ini_ply_drops=s['most'], p_A=q['p_A'], n_D1=q['n_D1'],
        n_D2=q['n_D2'], n_D3=q['n_D3'],
        repair_membrane_switch=q['membrane'],
        repair_flexural_switch=q['flexural'], n_plies_ref_panel=s['nref'],
        time_limit_group_pdl=1, time_limit_all_pdls=2)
    o = ObjFunction(constraints=c, coeff_diso=s['cf'][0],
                    coeff_contig=s['cf'][1], coeff_10=s['cf'][2],
                    coeff_oopo=s['co'])
    m = c_optimise.material()
    nb = chain_nbrs(s['ids'])

    def panels(k):
        return [Panel(
            s['ids'][i], c, n, lampam_target=np.array(
                s['tg'][i] if k == 0 else s['tg'][-1 - i])/1000,
            lampam_weightings=np.array(s['wt'][i], float), N_x=1, N_y=2,
            weighting=s['w'][i], neighbour_panels=nb[i], length_x=2,
            length_y=1.5) for i, n in enumerate(s['counts'])]
    lay = s['given']

    def run(mp, given=None):
        with tempfile.TemporaryDirectory(prefix='bella_run_') as d, \
                Clock() as clock:
            clock.t = 1.7e9
            path = None
            if given:
                path = os.path.join(d, 'pdl.xlsx')
                c_optimise.write_layouts(path, given)
            return BELLA_optimiser(mp, par, o, c,
                                   os.path.join(d, 'r.xlsx'), m, path)
    # the optimiser takes the structure over: it is made anew, or one that
    # former runs have used
    used = [MultiPanel(panels(0)), MultiPanel(panels(1))]
    pool = [((lay or None,), lambda x: run(MultiPanel(panels(0)), x)),
            ((None,), lambda x: run(MultiPanel(panels(1)))),
            ((lay or None,), lambda x: run(used[0], x))]
    return {'rules': c, 'parameters': par, 'objective': o,
            'material': m}, pool


def layla_calls(rng):
    """whole runs of LAYLA"""
    import numpy.matlib   # noqa: F401
    from src.LAYLA_V02.optimiser import LAYLA_optimiser
    from src.LAYLA_V02.targets import Targets
    while True:
        c = c_layla.rules(rng)
        n = rng.choice([8, 9, 10, 12])
        if c_relay.exact_percents(c, n):
            break
    q, g, top = c_layla.request(rng, c, n, rng.choice([1, 2]))
    par = c_layla.parameters(c, q, g, top, c_layla.settings(rng, True))
    tg = [np.array(q['tg'], float)/1000,
          np.array([rng.uniform(-1, 1) for _ in range(12)])]
    used = Targets(n_plies=n, lampam=np.array(tg[0]))
    pool = [
        ((tg[0],), lambda t: LAYLA_optimiser(
            par, c, Targets(n_plies=n, lampam=np.array(t)))),
        ((tg[1],), lambda t: LAYLA_optimiser(
            par, c, Targets(n_plies=n, lampam=np.array(t)))),
        ((0,), lambda t: LAYLA_optimiser(par, c, used)),
    ]
    return {'rules': c, 'parameters': par}, pool


# -- histories -----------------------------------------------------------------
def outcome(chosen, i):
    args, fn = chosen[i - 1]
    random.seed(7 + i)
    np.random.seed(7 + i)
    out = call(fn, *args, timeout=100)
    if out[0] == 'ok':
        return out[1], ''
    return ('exc', out[1]), out[1][:80]


def alone(chosen, i):
    """the result of the call in a process where it is the only one"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, str(number(outcome(chosen, i)[0])).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return int(text)


def run_history(name, shared, chosen, sched):
    objs = dict(shared)
    for i, (args, _) in enumerate(chosen):
        objs['given%d' % (i + 1)] = args
    values = lambda: {k: number(v) for k, v in objs.items()}
    start = values()
    one = [alone(chosen, i) for i in (1, 2, 3)]
    steps = []
    for i in sched:
        r, x = outcome(chosen, i)
        step = {'op': name, 'f': i, 'k': 'ok', 'x': x, 'r': number(r)}
        # what a call gave is held by its caller from then on
        objs.setdefault('result%d' % i, r)
        step['after'] = values()
        steps.append(step)
    return {'id': '', 'c': {}, 'objs': start, 'alone': one, 'steps': steps}


KINDS = {'rules': rules_calls, 'conversions': conversion_calls,
         'repairs': repair_calls, 'reworks': rework_calls,
         'tools': tool_calls, 'runs': bella_calls, 'layla': layla_calls}


def history_trace(kind, scheds):
    def make(rng, i):
        shared, pool = KINDS[kind](rng)
        if len(pool) == 3:
            chosen = pool
        elif len(pool) == 2:
            k = rng.randrange(len(pool[0]))
            chosen = [pool[0][k], rng.choice([pool[0], pool[1]])[
                rng.randrange(len(pool[0]))], pool[1][k]]
        else:
            chosen = rng.sample(pool, 3)
        t = run_history(kind, shared, chosen, rng.choice(scheds))
        t['id'] = '%s%d' % (kind, i)
        return t
    return make


def check_C35(chk):
    mod = mc_module(chk, 'MCHistory', 'HistoryGen', {})
    res = chk.model(
        mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = 3\n'
        ' MaxLen = %d\n EmitCases = TRUE\n'
        'INVARIANT NoFalseAlarm WideReveals TightReveals Emit\n' % tier(10, 11),
        label='revealing schedules')
    scheds = [g['calls'] for g in gen_lines(res)]
    chk.note('schedules', len(scheds))
    for kind, n in (('rules', (900, 6000)), ('tools', (120, 800)),
                    ('conversions', (260, 1800)), ('repairs', (90, 1000)),
                    ('reworks', (100, 900)), ('layla', (36, 400)),
                    ('runs', (24, 300))):
        short = [s for s in scheds if len(s) == 6] \
            if kind in ('layla', 'runs', 'reworks') else scheds
        chk.conform('TraceHistory', chk.record(
            history_trace(kind, short), tier(*n)), label=kind)
