"""C01..C07: the lay-up guideline checkers, counters, penalties, filters."""
import itertools

import numpy as np

import core
from core import observe, as_bool, as_int, as_ints, as_rows, scaled, \
    scaled_seq, tier
import bella
from bella import A4, A8, A12, arr, rnd_stack, constraints, c_rec

SC = 100000
MODS = {}


def mod(name):
    import importlib
    if name not in MODS:
        MODS[name] = importlib.import_module('src.guidelines.' + name)
    return MODS[name]


def gen_stacks(chk, angles=A4, plies=4, delta=45):
    """design check of the lay-up table; returns every stack it reaches"""
    cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
           'CONSTANTS\n AnglesList <- AL\n MaxPlies = %d\n Delta = %d\n'
           ' EmitCases = TRUE\n'
           'INVARIANT ContigAgrees DisoAgrees BalAgrees CountsAgree Mirror\n'
           'INVARIANT DamTolOrder TenMonotone Emit\n'
           'PROPERTY Monotone\n' % (plies, delta))
    import os
    name = 'MCLayup'
    with open(os.path.join(chk.scratch, name + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS LayupGen\nAL == <<%s>>\n====\n' % (
            name, ', '.join(str(a) for a in angles)))
    res = chk.model(os.path.join(chk.scratch, name), cfg,
                    label='lay-up table %s up to %d plies' % (angles, plies))
    stacks = sorted(core.gen_lines(res), key=lambda s: (len(s), s))
    if not stacks:
        raise core.MachineryError('no stack was generated')
    return stacks


def bunch(steps, size=40, prefix='t'):
    return [{'id': '%s%d' % (prefix, i), 'steps': steps[i:i + size]}
            for i in range(0, len(steps), size)]


def rnd_stacks(chk, n, lo=1, hi=30, angles=None, sticky=0.5):
    out = []
    for _ in range(n):
        a = angles or chk.rng.choice([A4, A4, A8, A12])
        out.append(rnd_stack(chk.rng, chk.rng.randint(lo, hi), a,
                             sticky=chk.rng.choice([0.1, sticky, 0.8])))
    return out


def dt_constraints(rng, n_contig=None, delta=None, **kw):
    r = rng.choice([0, 0, 1, 2, 3])
    kw.setdefault('set_of_angles', A12)
    if r:
        kw.update(dam_tol=True, dam_tol_rule=r)
    if n_contig:
        kw.update(contig=True, n_contig=n_contig)
    if delta:
        kw.update(diso=True, delta_angle=delta)
    return constraints(**kw)


# -------------------------------------------------------------------- C01
def check_C01(chk):
    ct, ic = mod('contiguity'), mod('internal_contig')
    stacks = gen_stacks(chk, A4, tier(5, 6))
    # block-structured stacks: every way of placing a long block
    for n in range(2, 7):
        for lead in range(0, 3):
            for block in range(1, n + 3):
                for tail in range(0, 3):
                    stacks.append([0]*lead + [45]*block + [90]*tail)
                    stacks.append(([-45, 90]*lead + [45]*block
                                   + [0, 45]*tail))
    stacks += rnd_stacks(chk, tier(1500, 12000), hi=40)
    steps = []
    for ss in stacks:
        ns = [2, 3, 4, 5, 6] if len(ss) > 6 else [2, 3, 4, 5, 6][:len(ss)]
        for n in ns:
            steps.append(observe('is_contig', {'ss': ss, 'n': n}, as_bool,
                                 ct.is_contig, arr(ss), n))
    for ss in chk.rng.sample(stacks, tier(900, 6000)):
        if not ss:
            continue
        n = chk.rng.randint(2, 6)
        act = chk.rng.random() < 0.85
        kw = dict(contig=True, n_contig=n) if act else {}
        c = constraints(set_of_angles=A12, **kw)
        x = arr(ss) if chk.rng.random() < .5 else arr(ss).reshape(1, -1)
        steps.append(observe('contig_flag', {'ss': ss, 'n': n, 'contig': act},
                             as_bool, ic.internal_contig2, x, c))
        steps.append(observe('contig_vector', {'ss': ss, 'n': n}, as_ints,
                             ct.calc_contig_vector, arr(ss), n))
    for _ in range(tier(500, 4000)):
        sss = rnd_stacks(chk, chk.rng.randint(1, 4), lo=4, hi=16)
        n = chk.rng.randint(2, 6)
        steps.append(observe('contig_matrix', {'sss': sss, 'n': n}, as_rows,
                             ct.calc_matrix_viol_contig,
                             [arr(s) for s in sss], n))
        c = dt_constraints(chk.rng, n_contig=n)
        steps.append(observe('contig_mp', {'sss': sss, 'n': n, 'c': c_rec(c)},
                             as_ints, ct.calc_penalty_contig_mp,
                             [arr(s) for s in sss], c))
        before = arr(sss[0])
        keep = before.copy()
        steps.append(observe('contig_ss', {'ss': sss[0], 'n': n,
                                           'c': c_rec(c)},
                             as_int, ct.calc_penalty_contig_ss, before, c))
        if (before != keep).any():
            steps[-1].update(k='odd', x='the stack was modified')
    for _ in range(tier(120, 800)):
        rows = chk.rng.randint(1, 5)
        cols = chk.rng.randint(1, 4)
        viola = [[chk.rng.randint(0, 9) for _ in range(cols)]
                 for _ in range(rows)]
        act = chk.rng.random() < .8
        coeff, norm = chk.rng.randint(1, 5), chk.rng.randint(1, 90)
        steps.append(observe(
            'viola_penalty', {'viola': viola, 'active': act, 'coeff': coeff,
                              'norm': norm},
            scaled_seq(SC), ct.penalty_contig, rows, np.array(viola), act,
            coeff, norm))
    chk.conform('TraceGuidelines', bunch(steps))


# -------------------------------------------------------------------- C02
def check_C02(chk):
    ds = mod('disorientation')
    stacks = gen_stacks(chk, [0, 30, 60, 90, -60, -30], tier(4, 5), 30)
    stacks += gen_stacks(chk, A4, tier(4, 5), 45)
    stacks += rnd_stacks(chk, tier(1200, 9000), lo=2, hi=30)
    steps = []
    full = list(range(-89, 91)) if core.THOROUGH else list(range(-85, 91, 5))
    deltas = [15, 30, 45, 60, 90, 5, 89] if core.THOROUGH else [15, 45, 60, 90]
    for a in full:
        for b in full:
            d = deltas if core.THOROUGH else [chk.rng.choice(deltas), 45]
            for delta in set(d):
                steps.append(observe('is_diso', {'a': a, 'b': b,
                                                 'delta': delta},
                                     as_bool, ds.is_diso, a, b, delta))
    for ss in stacks:
        if len(ss) < 1:
            continue
        delta = chk.rng.choice([15, 30, 45, 60])
        c = constraints(set_of_angles=A12, diso=True, delta_angle=delta)
        steps.append(observe('is_diso_ss', {'ss': ss, 'delta': delta,
                                            'c': c_rec(c)},
                             as_bool, ds.is_diso_ss, arr(ss), delta))
        if len(ss) >= 4:
            for r in (1, 2, 3):
                c = constraints(set_of_angles=A12, diso=True,
                                delta_angle=delta, dam_tol=True,
                                dam_tol_rule=r)
                steps.append(observe('is_diso_ss', {'ss': ss, 'delta': delta,
                                                    'c': c_rec(c)},
                                     as_bool, ds.is_diso_ss, arr(ss), delta,
                                     dam_tol=True, dam_tol_rule=r))
            c1 = dict(c_rec(c), dam_tol_rule=2)
            steps.append(observe('is_diso_ss', {'ss': ss, 'delta': delta,
                                                'c': c1},
                                 as_bool, ds.is_diso_ss, arr(ss), delta,
                                 dam_tol=True, n_plies_dam_tol=2))
            c1 = dict(c_rec(c), dam_tol_rule=1)
            steps.append(observe('is_diso_ss', {'ss': ss, 'delta': delta,
                                                'c': c1},
                                 as_bool, ds.is_diso_ss, arr(ss), delta,
                                 dam_tol=True, n_plies_dam_tol=1))
    for _ in range(tier(500, 4000)):
        sss = rnd_stacks(chk, chk.rng.randint(1, 4), lo=4, hi=16)
        delta = chk.rng.choice([15, 30, 45, 60])
        c = dt_constraints(chk.rng, delta=delta)
        steps.append(observe('diso_matrix', {'sss': sss, 'delta': delta},
                             as_rows, ds.calc_penalty_diso_mp_0,
                             [arr(s) for s in sss], delta))
        steps.append(observe('diso_mp', {'sss': sss, 'delta': delta,
                                         'c': c_rec(c)},
                             as_ints, ds.calc_number_violations_diso_mp,
                             [arr(s) for s in sss], c))
        steps.append(observe('diso_n', {'ss': sss[0], 'delta': delta,
                                        'c': c_rec(c)},
                             as_int, ds.calc_n_penalty_diso_ss,
                             arr(sss[0]), c))
    for _ in range(tier(120, 800)):
        rows, cols = chk.rng.randint(1, 5), chk.rng.randint(1, 4)
        viola = [[chk.rng.randint(0, 9) for _ in range(cols)]
                 for _ in range(rows)]
        act = chk.rng.random() < .8
        coeff, norm = chk.rng.randint(1, 5), chk.rng.randint(1, 90)
        steps.append(observe(
            'viola_penalty', {'viola': viola, 'active': act, 'coeff': coeff,
                              'norm': norm},
            scaled_seq(SC), ds.calc_penalty_diso, rows, np.array(viola), act,
            coeff, norm))
    chk.conform('TraceGuidelines', bunch(steps))


# -------------------------------------------------------------------- C03
def check_C03(chk):
    dt = mod('dam_tol')
    stacks = [s for s in gen_stacks(chk, A4, tier(5, 6)) if len(s) >= 4]
    stacks += gen_stacks(chk, [45, -45], 8)[15:]
    stacks += rnd_stacks(chk, tier(500, 5000), lo=4, hi=40)
    for ss in rnd_stacks(chk, tier(800, 6000), lo=0, hi=30, angles=A12):
        stacks.append([chk.rng.choice([45, -45, 45, -45, 90, 0, 60])
                       for _ in range(2)] + ss
                      + [chk.rng.choice([45, -45, 45, -45, 90, 0, -30])
                         for _ in range(2)])
    steps = []
    cs = {r: constraints(set_of_angles=A12, dam_tol=True, dam_tol_rule=r)
          for r in (1, 2, 3)}
    cs[0] = constraints(set_of_angles=A12)
    # constraint sets that only give the number of damage-tolerance plies
    from types import SimpleNamespace
    lay = {r: SimpleNamespace(dam_tol=True, n_plies_dam_tol=r)
           for r in (1, 2)}
    for ss in stacks:
        if len(ss) < 4:
            continue
        for r in (0, 1, 2, 3):
            x = arr(ss) if chk.rng.random() < .7 else list(ss)
            steps.append(observe('is_dam_tol', {'ss': ss, 'c': {
                'dam_tol': r > 0, 'dam_tol_rule': r}},
                as_bool, dt.is_dam_tol, x, cs[r]))
    for ss in chk.rng.sample(stacks, tier(600, 3000)):
        if len(ss) >= 4:
            for r in (1, 2):
                steps.append(observe('is_dam_tol', {'ss': ss, 'c': {
                    'dam_tol': True, 'dam_tol_rule': r}},
                    as_bool, dt.is_dam_tol, arr(ss), lay[r]))
    chk.conform('TraceGuidelines', bunch(steps))


# -------------------------------------------------------------------- C04
def check_C04(chk):
    bl = mod('balance')
    stacks = gen_stacks(chk, [0, 30, -30, 90, 60, -60], tier(4, 5), 30)
    stacks += gen_stacks(chk, A4, tier(5, 6))
    for _ in range(tier(1500, 10000)):
        a = chk.rng.choice([A4, A8, A12])
        s = rnd_stack(chk.rng, chk.rng.randint(1, 24), a)
        ang = [x for x in s if x not in (0, 90)]
        if chk.rng.random() < .7:       # (nearly) balanced stacks
            s = s + [-x for x in ang]
            chk.rng.shuffle(s)
            if chk.rng.random() < .4 and ang:
                i = chk.rng.randrange(len(s))
                s[i] = chk.rng.choice(a)
        stacks.append(s)
    steps = []
    for ss in stacks:
        c = constraints(set_of_angles=A12, bal=True)
        steps.append(observe('is_balanced', {'ss': ss}, as_bool,
                             bl.is_balanced, arr(ss), c))
    for _ in range(tier(700, 6000)):
        a = chk.rng.choice([A4, A8, A12])
        c = constraints(set_of_angles=a, bal=True)
        order = [int(x) for x in c.set_of_angles]
        counts = [chk.rng.choice([0, 0, 1, 2, 3, 8, 15]) for _ in order]
        areas = chk.rng.choice([1, 1, 2, 5])
        p = {'angles': order, 'counts': counts}
        steps.append(observe('penalty_bal', dict(p, areas=areas),
                             scaled(SC), bl.calc_penalty_bal,
                             np.array(counts), c, areas))
        rows = [[chk.rng.choice([0, 0, 1, 2, 3, 8]) for _ in order]
                for _ in range(chk.rng.randint(1, 4))]
        steps.append(observe('penalty_bal_rows',
                             {'rows': rows, 'angles': order, 'areas': areas},
                             scaled_seq(SC), bl.calc_penalty_bal,
                             np.array(rows), c, areas))
    chk.conform('TraceGuidelines', bunch(steps))


# -------------------------------------------------------------------- C05
def ten_constraints(rng, angles=A4, sym=False, active=True):
    kw = {}
    mode = rng.choice(['each', 'pair', 'zero90', 'mix'])
    p = lambda: rng.choice([0, 5, 8, 10, 10, 12, 15, 20, 25, 30])
    if mode == 'each':
        kw = dict(percent_0=p(), percent_45=p(), percent_90=p(),
                  percent_135=p())
    elif mode == 'pair':
        kw = dict(percent_0=p(), percent_90=p(),
                  percent_45_135=rng.choice([10, 20, 30, 40, 60, 80]))
    elif mode == 'zero90':
        kw = dict(percent_0=p(), percent_90=p())
    else:
        x = p()
        kw = dict(percent_0=x, percent_45=x, percent_90=x, percent_135=x)
    return constraints(rule_10_percent=active, sym=sym, set_of_angles=angles,
                       **kw)


def near_limit_counts(rng, c, order, total=None):
    """counts close to (often exactly at) the required percentages"""
    p = bella.p_rec(c)
    total = total or rng.choice([10, 20, 25, 40, 50, 60, 80, 100, 30, 17, 33])
    need = {0: p['p0'], 45: p['p45'], 90: p['p90'], -45: p['p135']}
    cnt = {a: 0 for a in order}
    for a, v in need.items():
        x = -(-v*total//100) + rng.choice([0, 0, 0, 0, -1, 1])
        cnt[a] = max(0, x)
    if p['p45_135']:
        x = -(-p['p45_135']*total//100) + rng.choice([0, 0, 0, -1, 1])
        k = rng.randint(0, max(0, x))
        cnt[45], cnt[-45] = k, max(0, x - k)
    rest = total - sum(cnt.values())
    for _ in range(max(0, rest)):
        cnt[rng.choice(order)] += 1
    return [cnt[a] for a in order]


def expand(rng, order, counts):
    s = [a for a, k in zip(order, counts) for _ in range(k)]
    rng.shuffle(s)
    return s


def check_C05(chk):
    tp = mod('ten_percent_rule')
    rng = chk.rng
    base = gen_stacks(chk, A4, tier(4, 5))
    steps = []
    for ss in base:
        if not ss:
            continue
        c = ten_constraints(rng)
        steps.append(observe('ten_stack', {
            'ss': ss, 'p': bella.p_rec(c), 'eq45': False, 'eq090': False},
            as_bool, tp.is_ten_percent_rule, c, stack=arr(ss)))
    for _ in range(tier(3000, 20000)):
        a = rng.choice([A4, A4, A8])
        active = rng.random() < .93
        c = ten_constraints(rng, a, active=active)
        order = [int(x) for x in c.set_of_angles]
        counts = near_limit_counts(rng, c, order)
        ss = expand(rng, order, counts)
        if not ss:
            continue
        eq45, eq090 = rng.random() < .3, rng.random() < .3
        if rng.random() < .4:
            share = lambda *a: min(100, 100*sum(
                ss.count(x) for x in a)//len(ss) + rng.choice([0, 0, 0, 1]))
            kw = dict(percent_0=share(0), percent_90=share(90))
            if rng.random() < .5:
                kw['percent_45_135'] = share(45, -45)
            else:
                kw['percent_45'], kw['percent_135'] = share(45), share(-45)
            c = constraints(rule_10_percent=True, set_of_angles=a, **kw)
        steps.append(observe('ten_stack', {
            'ss': ss, 'p': bella.p_rec(c), 'eq45': eq45, 'eq090': eq090},
            as_bool, tp.is_ten_percent_rule, c, stack=arr(ss),
            equality_45_135=eq45, equality_0_90=eq090))
        p = {'angles': order, 'counts': counts, 'p': bella.p_rec(c)}
        typ = rng.choice([int, float, 'float16'])
        steps.append(observe('ten_counts', p, as_bool, tp.is_ten_percent_rule,
                             c, n_plies_per_angle=np.array(counts, typ)))
        steps.append(observe('ten_penalty_ss', {'ss': ss,
                                                'p': bella.p_rec(c)},
                             scaled(SC), tp.calc_penalty_10_ss, arr(ss), c))
        areas = rng.choice([1, 1, 3])
        typ = rng.choice([int, float, 'float16', 'list'])
        x = list(counts) if typ == 'list' else np.array(counts, typ)
        steps.append(observe('ten_penalty_pc', dict(p, areas=areas),
                             scaled(SC), tp.calc_penalty_10_pc, x, c, areas))
    for _ in range(tier(300, 2500)):
        a = rng.choice([A4, A4, A8])
        c = ten_constraints(rng, a, active=rng.random() < .9)
        order = [int(x) for x in c.set_of_angles]
        rows = [near_limit_counts(rng, c, order) for _ in
                range(rng.randint(1, 4))]
        areas = rng.choice([1, 1, 3])
        steps.append(observe('ten_penalty_pc_rows', {
            'rows': rows, 'angles': order, 'areas': areas,
            'p': bella.p_rec(c)}, scaled_seq(SC), tp.calc_penalty_10_pc,
            np.array(rows, rng.choice([int, float, 'float16'])), c, areas))
        sss = [expand(rng, order, r) for r in rows]
        sss = [s for s in sss if s]
        steps.append(observe('ten_penalty_mp', {
            'sss': sss, 'p': bella.p_rec(c)}, scaled_seq(SC),
            tp.calc_penalty_10_ss, [arr(s) for s in sss], c, mp=True))
    # +45/-45 counts that together sit exactly at the required percentage
    for pct in (10, 20, 40, 60, 80):
        c = constraints(rule_10_percent=True, percent_45_135=pct)
        order = [int(x) for x in c.set_of_angles]
        for n in (10, 15, 20, 30, 60, 70):
            need = -(-pct*n//100)
            for k in range(0, need + 1, tier(3, 1)):
                for d in (0, -1):
                    cnt = {45: k, -45: need - k + d, 0: n - need - d, 90: 0}
                    if min(cnt.values()) < 0:
                        continue
                    counts = [cnt[a] for a in order]
                    p = {'angles': order, 'counts': counts,
                         'p': bella.p_rec(c)}
                    steps.append(observe(
                        'ten_counts', p, as_bool, tp.is_ten_percent_rule, c,
                        n_plies_per_angle=np.array(counts)))
                    steps.append(observe(
                        'ten_penalty_pc', dict(p, areas=1), scaled(SC),
                        tp.calc_penalty_10_pc, np.array(counts, 'float16'),
                        c, 1))
    # stacks under construction: placed plies, unknown plies, queued plies
    for _ in range(tier(4000, 30000)):
        sym = rng.random() < .6
        a = rng.choice([A4, A4, A8])
        c = ten_constraints(rng, a, sym=sym)
        order = [int(x) for x in c.set_of_angles]
        counts = near_limit_counts(rng, c, order, rng.choice([5, 10, 20, 15]))
        plies = expand(rng, order, counts)
        k = rng.randint(0, len(plies))
        placed, queue = plies[:k], plies[k:]
        if sym:
            half = placed + [666]*len(queue)
            rng.shuffle(half)
            odd = rng.random() < .5
            mid = [rng.choice(order)] if odd else []
            ss = half + mid + half[::-1]
        else:
            ss = placed + [666]*len(queue)
            rng.shuffle(ss)
        if not ss:
            continue
        eq45, eq090 = rng.random() < .3, rng.random() < .3
        if rng.random() < .6:    # limits next to the shares of this stack
            h = len(ss)//2
            full = [ss[h]]*(len(ss) % 2) + 2*(ss[:h] + queue) if sym \
                else ss + queue
            share = lambda *a: min(100, 100*sum(
                full.count(x) for x in a)//len(ss) + rng.choice([0, 0, 1]))
            kw = {}
            for key, angs in (('percent_0', [0]), ('percent_90', [90])):
                if rng.random() < .6:
                    kw[key] = share(*angs)
            if rng.random() < .5:
                kw['percent_45_135'] = share(45, -45)
            else:
                kw['percent_45'], kw['percent_135'] = share(45), share(-45)
            c = constraints(rule_10_percent=True, sym=sym,
                            set_of_angles=a, **kw)
        steps.append(observe('ten_queue', {
            'ss': ss, 'queue': queue, 'sym': sym, 'p': bella.p_rec(c),
            'eq45': eq45, 'eq090': eq090}, as_bool, tp.is_ten_percent_rule,
            c, stack=arr(ss), ply_queue=list(queue), equality_45_135=eq45,
            equality_0_90=eq090))

    class R:
        pass
    for _ in range(tier(150, 1000)):
        c = ten_constraints(rng, rng.choice([A4, A8]))
        order = [int(x) for x in c.set_of_angles]
        sss = [rnd_stack(rng, rng.randint(1, 20), order) for _ in
               range(rng.randint(1, 3))]
        mp = R()
        mp.reduced = R()
        mp.reduced.n_panels = len(sss)
        steps.append(observe('ply_counts', {'sss': sss, 'angles': order},
                             as_rows, tp.calc_ply_counts, mp,
                             [arr(s) for s in sss], c))
    chk.conform('TraceGuidelines', bunch(steps))


# -------------------------------------------------------------------- C06
def check_C06(chk):
    tp, ab = mod('ten_percent_rule'), mod('ten_percent_rule_Abdalla')
    rng = chk.rng
    cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
           'CONSTANTS\n Q = 600\n Grid = %d\n'
           'INVARIANT Symmetric0 CornersIn Bounded ConvexMid\n'
           % tier(50, 20))
    chk.model('AbdallaRegion', cfg, label='admissible region is convex')
    steps = []

    def lp(lx, ly):
        return np.array([lx/1000, ly/1000, rng.choice([0, .2]), 0]
                        + [0.]*8)
    for p in (0, 5, 10, 15, 20, 24):
        c = constraints(rule_10_percent=True, rule_10_Abdalla=True,
                        percent_Abdalla=p)
        q = 1000 - 40*p
        pts = [(x, y) for x in range(-1000, 1001, tier(100, 40))
               for y in range(-1000, 1001, tier(100, 40))]
        # points on either side of the boundary
        for _ in range(tier(150, 900)):
            x = rng.randint(-q, q)
            y = (2*x*x - q*q)//max(1, q) + rng.choice([-40, -9, -3, 3, 9, 40])
            pts.append((x, y))
            pts.append((rng.randint(-q, q), q + rng.choice([-5, -2, 2, 5])))
            pts.append((rng.choice([-q, q]) + rng.randint(-9, 9),
                        q + rng.randint(-9, 9)))
        out = []
        for lx, ly in pts:
            clear = abs(q*q + q*ly - 2*lx*lx) > 10 and ly != q
            if not clear or abs(ly) > 1000 or abs(lx) > 1000:
                continue
            x = lp(lx, ly)
            steps.append(observe('abdalla_ok', {'q': q, 'lx': lx, 'ly': ly},
                                 as_bool, tp.is_ten_percent_rule, c, LPs=x))
            out.append((lx, ly))
        for lx, ly in rng.sample(out, tier(60, 300)):
            steps.append(observe('abdalla_distance', {
                'q': q, 'lx': lx, 'ly': ly}, scaled(1000),
                ab.calc_distance_Abdalla, lp(lx, ly), c,
                num=tier(2001, 4001), timeout=60))
        for lx, ly in rng.sample(out, tier(5, 40)):
            steps.append(observe('abdalla_distance', {
                'q': q, 'lx': lx, 'ly': ly}, scaled(1000),
                tp.calc_penalty_10_ss, None, c, LPs=lp(lx, ly), timeout=60))
        for _ in range(tier(2, 12)):
            sub = rng.sample(out, 3)
            steps.append(observe('abdalla_distances', {
                'q': q, 'pts': [list(s) for s in sub]}, scaled_seq(SC),
                tp.calc_penalty_10_ss, None, c,
                LPs=[lp(*s) for s in sub], mp=True, timeout=60))
    chk.conform('TraceGuidelines', bunch(steps, 20))


# -------------------------------------------------------------------- C07
def check_C07(chk):
    rng = chk.rng
    ic, idc = mod('internal_contig'), mod('internal_diso_contig')
    ec, edc = mod('external_contig'), mod('external_diso_contig')
    gen_stacks(chk, [0, 45, 90, -45], tier(4, 6))
    steps = []

    def cands(width, n):
        seen = set()
        for _ in range(n):
            a = rng.choice([A4, A4, A8])
            seen.add(tuple(rnd_stack(rng, width, a, rng.choice([.3, .7]))))
        out = [list(s) for s in seen]
        out.sort()
        rng.shuffle(out)
        return out

    def run(op, fn, args, cs, cs2, pre, c):
        """fn(angle, *pre, angle2)"""
        second = cs2 is not None

        def enc(v):
            a, b = v
            if second != (b is not None):
                raise core.Odd('second sublaminate: %r' % (b,))
            step2['r2'] = as_rows(b) if second else []
            return as_rows(a)
        step2 = {'r2': []}
        kw = {'angle2': np.array(cs2)} if second else {}
        s = observe(op, args, enc, fn, np.array(cs), *pre, **kw)
        s.update(step2)
        s.update(cands=cs, cands2=cs2 if second else [], second=second)
        return s

    for _ in range(tier(4000, 25000)):
        n = rng.randint(2, 6)
        delta = rng.choice([30, 45, 60])
        contig, diso = rng.random() < .85, rng.random() < .8
        kw = {}
        if contig:
            kw.update(contig=True, n_contig=n)
        if diso:
            kw.update(diso=True, delta_angle=delta)
        c = constraints(set_of_angles=A8, **kw)
        width = rng.randint(1, 8)
        cs = cands(width, rng.randint(1, 10))
        cs2 = None
        if rng.random() < .35:
            cs2 = [rnd_stack(rng, rng.randint(1, 1) * width, A4)
                   for _ in cs]
        a = {'contig': contig, 'diso': diso, 'n': n, 'delta': delta,
             'ng': width, 'before': []}
        steps.append(run('internal_contig', ic.internal_contig, a, cs, cs2,
                         (c,), c))
        steps.append(run('internal_diso_contig', idc.internal_diso_contig, a,
                         cs, cs2, (c,), c))
        last = rng.choice(A8)
        before = rnd_stack(rng, rng.randint(0, 5), A4) \
            + [last]*rng.randint(0, 6)
        if rng.random() < .6:           # many junctions at the limit
            cs = [list(s) for s in cs]
            for s in cs:
                k = rng.randint(0, len(s))
                s[:k] = [last]*k
            cs = [list(x) for x in sorted({tuple(s) for s in cs})]
            rng.shuffle(cs)
            if cs2 is not None:
                cs2 = cs2[:len(cs)]
        ng = width if rng.random() < .7 else rng.randint(1, width)
        a = dict(a, ng=ng, before=before)
        steps.append(run('external_contig', ec.external_contig, a, cs, cs2,
                         (ng, c, arr(before)), c))
        steps.append(run('external_diso_contig', edc.external_diso_contig, a,
                         cs, cs2, (ng, c, arr(before)), c))
    chk.conform('TraceGuidelines', bunch(steps))
