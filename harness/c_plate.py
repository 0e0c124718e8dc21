"""C30: buckling of panels and the sheets of materials and panels."""
import math
import os
import tempfile
from fractions import Fraction
from types import SimpleNamespace

import numpy as np

import core
from core import observe, as_int, as_scaled, tier, gen_lines, Odd
import bella
from bella import A4, A8, constraints, c_rec
from c_search import mc_module
from c_relay import rnd_rules, exact_percents
from c_blending import chain_nbrs
import c_optimise
from c_optimise import layout, near, num, pairs, sheet

from src.BELLA.materials import Material
from src.BELLA.multipanels import MultiPanel
from src.BELLA.panels import Panel
from src.BELLA.obj_function import ObjFunction

# (E11, E22, nu12 in 1/100, G12); invariants in 1/30 GPa
MODULI = [(136, 8, 0, 4), (140, 20, 0, 8), (72, 8, 0, 2), (50, 14, 0, 4),
          (130, 9, 30, 4), (141, 9, 32, 5), (38, 11, 25, 5), (120, 40, 20, 12)]


def invariants(m):
    e1, e2, nu, g = (Fraction(x) for x in m)
    nu /= 100
    k = 1 - nu*nu*e2/e1
    q11, q22, q12, q66 = e1/k, e2/k, nu*e2/k, g
    u = ((3*q11 + 3*q22 + 2*q12 + 4*q66)/8, (q11 - q22)/2,
         (q11 + q22 - 2*q12 - 4*q66)/8, (q11 + q22 + 6*q12 - 4*q66)/8,
         (q11 + q22 - 2*q12 + 4*q66)/8)
    return [int(round(30*x)) for x in u]


def make_material(m, ply_t=0.0002, dens=300, layla=False):
    if layla:
        from src.LAYLA_V02.materials import Material as M
    else:
        M = Material
    return M(E11=m[0]*1e9, E22=m[1]*1e9, nu12=m[2]/100, G12=m[3]*1e9,
             density_area=dens, ply_t=ply_t)


def plain(lam, n, ply_t):
    return as_scaled(lam*12/(math.pi**2*(n*ply_t)**3*1e9), 1000)


def rnd_plate(rng):
    while True:
        nx, ny = rng.randint(-5, 5), rng.randint(-5, 5)
        if nx or ny:
            return {'lx': rng.randint(1, 2), 'ly': rng.randint(1, 2),
                    'nx': nx, 'ny': ny}


def stack_step(m, ss, p, modes, ply_t=0.0002):
    from src.buckling.buckling import buckling_factor_ss
    mat = make_material(m, ply_t)
    kw = {} if modes == 10 else {'n_modes': modes}
    return observe(
        'stack', {'u': invariants(m), 'ss': ss, 'p': p, 'modes': modes},
        lambda v: plain(v, len(ss), ply_t),
        lambda: buckling_factor_ss(
            np.array(ss), p['nx'], p['ny'], p['lx'], p['ly'], mat, **kw))


def lampam_step(rng, m, x, y, p, modes, n, ply_t):
    from src.buckling.buckling import buckling_factor
    mat = make_material(m, ply_t)
    other = [rng.uniform(-1, 1) for _ in range(12)]
    if rng.random() < 0.5:
        v = other[:8] + [x/100, y/100] + other[10:]
    else:
        v = [x/100, y/100] + other[:2]
    return observe(
        'lampam', {'u': invariants(m), 'at': [x, y], 'p': p,
                   'modes': modes},
        lambda v: plain(v, n, ply_t),
        lambda: buckling_factor(
            np.array(v), mat, n, N_x=p['nx'], N_y=p['ny'], length_x=p['lx'],
            length_y=p['ly'], n_modes=modes))


def margin_step(x):
    from src.buckling.buckling import buckling_margin
    return observe('margin', {'at': x}, lambda v: as_scaled(v, 1),
                   lambda: buckling_margin(x/100))


def plate_trace(rng, i):
    steps = []
    for _ in range(6):
        m = rng.choice(MODULI)
        p = rnd_plate(rng)
        t = rng.choice([0.0002, 0.000125, 0.001])
        modes = rng.choice([1, 2, 3, 5, 10, 10])
        angles = rng.choice([A4, A8, [0, 90, 30, -30, 60, -60]])
        ss = [rng.choice(list(angles)) for _ in range(rng.randint(1, 14))]
        if rng.random() < 0.3:
            ss = [rng.choice(list(angles))]*len(ss)
        steps.append(stack_step(m, ss, p, modes, t))
        x = rng.randint(-100, 100)
        low = 2*x*x/100 - 100
        y = rng.randint(math.ceil(low), 100)
        steps.append(lampam_step(rng, m, x, y, rnd_plate(rng), modes,
                                 rng.randint(1, 40), t))
        steps.append(margin_step(rng.randint(0, 400)))
    steps.append(material_step(rng))
    return {'id': 'plate%d' % i, 'c': {}, 'steps': steps}


# --------------------------------------------------------------------------
# sheets
# --------------------------------------------------------------------------
NAMES = ('E11', 'E22', 'G12', 'nu12', 'nu21', 'areal density',
         'volumic density', 'ply thickness', 'Q11', 'Q12', 'Q22', 'Q66', 'U1',
         'U2', 'U3', 'U4', 'U5')


def material_step(rng):
    from src.BELLA.save_set_up import save_materials as one
    from src.LAYLA_V02.save_set_up import save_materials as two
    layla = rng.random() < 0.5
    mat = make_material(rng.choice(MODULI), rng.choice([0.0002, 0.000125]),
                        rng.randint(100, 400), layla)
    scale = {'nu12': 1000, 'nu21': 10000, 'areal density': 1,
             'volumic density': 1, 'ply thickness': 1e7}
    attr = {'areal density': 'density_area',
            'volumic density': 'density_volume', 'ply thickness': 'ply_t'}

    def row(get):
        return [as_scaled(get(k), scale.get(k, 1e-7)) for k in NAMES]

    def fn():
        with tempfile.TemporaryDirectory(prefix='bella_mat_') as d:
            book = os.path.join(d, 'm.xlsx')
            (two if layla else one)(book, mat)
            return pairs(book, 'Materials')
    given = row(lambda k: getattr(mat, attr.get(k, k)))
    return observe('materials', {'m': given},
                   lambda t: row(lambda k: float(t[k])), fn)


def structure(rng, c):
    """a laid-up structure with loads"""
    unit = 2 if c.sym else 1
    base = rng.randint(6, 14 if c.sym else 11)
    counts = [base + unit*rng.choice([0, 1, 1, 2, 3])
              for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    thick = sorted(set(counts))
    rows = layout(rng, c, thick, numbered=False)
    if rows is None:
        return None
    angles = [int(a) for a in c.set_of_angles]
    n = thick[-1]
    full = [rng.choice(angles) for _ in range(n)]
    if rng.random() < 0.5:
        for k in range(1, n):
            if rng.random() < 0.5:
                full[k] = full[k - 1]
    if c.sym:
        full = [full[min(k, n - 1 - k)] for k in range(n)]
    table = {k: [-1 if x == -1 else a for x, a in zip(r, full)]
             for k, r in zip(thick, rows)}
    return {'counts': counts, 'sst': [table[k] for k in counts],
            'tg': [[round(x/10) for x in near(rng, c, k, 0)]
                   for k in counts],
            'w': [rng.choice([1, 1, 2, 3]) for _ in counts],
            'plates': [rnd_plate(rng) for _ in counts],
            'ids': rng.sample(range(1, 12), len(counts)),
            'spacing': bool(c.pdl_spacing), 'min_drop': int(c.min_drop),
            'dens': rng.randint(100, 400)}


def build(c, s):
    nb = chain_nbrs(s['ids'])
    ps = [Panel(s['ids'][i], c, n, lampam_target=np.array(s['tg'][i])/100,
                lampam_weightings=np.ones(12), N_x=p['nx'], N_y=p['ny'],
                length_x=p['lx'], length_y=p['ly'], weighting=s['w'][i],
                neighbour_panels=nb[i])
          for i, (n, p) in enumerate(zip(s['counts'], s['plates']))]
    o = ObjFunction(constraints=c)
    mp = MultiPanel(ps)
    mp.filter_lampam_weightings(c, o)
    return mp, o


def tables_of(s):
    sst = np.array(s['sst'], int)
    return sst, [np.array([a for a in r if a != -1]) for r in s['sst']]


def saved_step(rng, c, s, m):
    from src.BELLA.save_set_up import save_multipanel
    mat = make_material(m, 0.0002, s['dens'])
    sst, ss = tables_of(s)

    def fn():
        mp, o = build(c, s)
        with tempfile.TemporaryDirectory(prefix='bella_mp_') as d:
            book = os.path.join(d, 'p.xlsx')
            save_multipanel(book, mp, o, sst=sst, calc_penalties=True,
                            constraints=c, mat=mat, save_buckling=True)
            return sheet(book, 'Panels').values.tolist(), \
                pairs(book, 'Multipanel')

    def enc(v):
        (head, *rows), f = v
        out = []
        for row in rows:
            x = dict(zip(head, row))
            n = as_int(x['Number of plies'])
            pay = lambda k: num(x['Penalty ' + k], 10000)
            out.append({
                'id': as_int(x['Panel ID']), 'n': n,
                'w': num(x['Weighting in MP objective funtion'], 1000),
                'area': num(x['Area'], 1000),
                'lx': num(x['Length_x'], 1000), 'ly': num(x['Length_y'], 1000),
                'nx': num(x['N_x'], 1000), 'ny': num(x['N_y'], 1000),
                'lam': plain(float(x['lambda buckling']), n, 0.0002),
                'pd': pay('disorientation'), 'pc': pay('contiguity'),
                'pt': pay('10% rule'), 'pi': pay('balance'),
                'po': pay('out-of-plane orthotropy')})
        return {'rows': out, 'gap': num(f['Penalty spacing'], 10000),
                'panels': as_int(f['Number of panels']),
                'most': as_int(f['Number of plies max']),
                'area': num(f['Area'], 1000), 'weight': num(f['Weight'], 1)}
    return observe('plates', {'s': dict(s, u=invariants(m))}, enc, fn)


def design_step(rng, c, s, m):
    from src.BELLA.save_result import save_result_BELLA_one_pdl
    import pandas as pd
    mat = make_material(m, 0.0002, s['dens'])
    sst, ss = tables_of(s)
    asked = rng.random() < 0.7
    par = SimpleNamespace(save_buckling=asked)
    p = s['plates'][0]
    if asked and (p['nx'] or p['ny']) and rng.random() < 0.5:
        par = None
    ind = rng.choice([0, 0, 2])

    def fn():
        mp, o = build(c, s)
        out = SimpleNamespace(ss=ss, sst=sst,
                              penalty_spacing_tab=[0.25]*(ind + 1))
        return save_result_BELLA_one_pdl(
            pd.DataFrame(), mp, c, par, o, out, None, ind, mat)

    def enc(t):
        lam = [plain(float(x), n, 0.0002) for x, n in
               zip(t['lambda buckling'], s['counts'])] \
            if 'lambda buckling' in t else []
        return {'lam': lam, 'twist': [
            [as_scaled(a*a, 1000), as_scaled(b*b, 1000)]
            for a, b in zip(t['gamma'], t['delta'])]}
    return observe('designs', {'s': dict(s, u=invariants(m), asked=asked)},
                   enc, fn)


def sheet_trace(rng, i):
    c = c_optimise.run_rules(rng, i)
    if c.rule_10_percent and not c.rule_10_Abdalla \
            and not all(exact_percents(c, n) for n in range(1, 25)):
        return None
    steps = []
    for _ in range(3):
        s = structure(rng, c)
        if s is None:
            continue
        m = rng.choice(MODULI)
        steps += [saved_step(rng, c, s, m), design_step(rng, c, s, m)]
    return {'id': 'sheet%d' % i, 'c': c_rec(c), 'steps': steps} \
        if steps else None


def model_cases(chk):
    rng = chk.rng
    out = []
    runs = [(MODULI[0], [0, 45, -45, 90], tier(4, 5),
             {(1, 0), (1, 2), (-3, 1), (2, -2)}),
            (MODULI[4], [0, 60, -60, 90], tier(3, 5), {(0, 1), (5, 2)})]
    for k, (m, angs, most, loads) in enumerate(runs):
        mod = mc_module(chk, 'MCPlate%d' % k, 'PlateGen', {
            'MyU': invariants(m),
            'MyAngs': set(angs), 'MyLoads': loads})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
            ' Angs <- MyAngs\n MaxPlies = %d\n Loads <- MyLoads\n U <- MyU\n'
            ' EmitCases = TRUE\nINVARIANT Upside MirrorPlate TurnPlate Signs '
            'Loaded MoreModes Stable Emit\n' % most,
            label='plates %d' % k)
        cases = gen_lines(res)
        cases.sort(key=str)
        if len(cases) > tier(800, 8000):
            cases = rng.sample(cases, tier(800, 8000))
        out += [(m, e) for e in cases]
    return out


def check_C30(chk):
    steps = [stack_step(m, e['ss'], e['p'], e['modes'])
             for m, e in model_cases(chk)]
    traces = [{'id': 'gen%d' % k, 'c': {}, 'steps': steps[k:k + 20]}
              for k in range(0, len(steps), 20)]
    traces += chk.record(plate_trace, tier(100, 1500), tag='plate')
    traces += chk.record(sheet_trace, tier(80, 1200), tag='sheet')
    chk.conform('TracePlate', traces)
