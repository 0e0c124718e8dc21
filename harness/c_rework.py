"""C22, C23: repair of blended structures: redesign of the ply drops around
the reference panel, and the whole repair."""
import numpy as np

import core
from core import observe, as_int, as_ints, as_rows, as_scaled, as_bool, \
    tier, Odd
import bella
from bella import A4, A8, arr, constraints, c_rec
from c_search import mc_module
import c_relay
from c_relay import COEFS, rnd_rules, exact_percents, anchored, rnd_laminate
from c_blending import make_panels, chain_nbrs, nested_table

from src.BELLA.multipanels import MultiPanel
from src.BELLA.obj_function import ObjFunction

SMALL = [(1, 1, 0, 0), (1, 0, 0, 0), (0, 1, 0, 1), (2, 1, 1, 0), (0, 0, 1, 0)]


def lampams(plies):
    """in-plane and out-of-plane lamination parameters"""
    import math
    n = len(plies)
    f4 = ((math.cos, 2), (math.cos, 4), (math.sin, 2), (math.sin, 4))
    a = [sum(f(math.radians(k*p)) for p in plies)/n for f, k in f4]
    w = [((2*i + 2 - n)**3 - (2*i - n)**3)/(2*n**3) for i in range(n)]
    d = [sum(x*f(math.radians(k*p)) for x, p in zip(w, plies))
         for f, k in f4]
    return a, d


def structure(c, counts, ref, w, coA, coD, tA, tD):
    """multi-panel structure whose blending strip has the given rows"""
    n = len(counts)
    targets, weights = [], []
    for i in range(n):
        t = np.zeros(12)
        t[:4] = np.array(tA[i])/1000
        t[8:] = np.array(tD[i])/1000
        v = np.zeros(12)
        v[:4], v[8:] = coA[i], coD[i]
        targets.append(t)
        weights.append(v)
    ids = list(range(1, n + 1))
    ps = make_panels(c, counts, ids, chain_nbrs(ids), [float(x) for x in w],
                     targets=targets)
    mp = MultiPanel(ps)
    mp.from_mp_to_blending_strip(c, counts[ref - 1])
    for p, v in zip(mp.reduced.panels, weights):
        p.lampam_weightings = v
    return mp


def limits(op, wide, lim):
    """limits of the search concerned; the other search gets narrow ones"""
    class P:
        local_node_limit2 = global_node_limit2 = 1
        local_node_limit3 = global_node_limit3 = 1
    loc, glob = (10**6, 10**6) if wide else lim
    if op == 'thin':
        P.local_node_limit2, P.global_node_limit2 = loc, glob
    else:
        P.local_node_limit3, P.global_node_limit3 = loc, glob
    return P


def plies(row):
    return [a for a in row if a != -1]


def enc_result(v):
    if len(v) != 4:
        raise Odd('%d results' % len(v))
    ok, sst, lp, ss = v
    rows = [as_ints(r) for r in sst]
    out = {'ok': as_bool(ok), 'rows': rows, 'ss': [as_ints(s) for s in ss],
           'lp': []}
    for x in lp:
        if len(x) != 12:
            raise Odd('%d lamination parameters' % len(x))
        x = list(x[:4]) + list(x[8:])
        out['lp'].append([as_scaled(y, 1000) for y in x])
    return out


def rework_step(op, c, rows, ref, w, coA, coD, tA, tD, cd=0, wide=True,
                lim=(3, 3)):
    from src.RELAY.thick_to_thin import repair_thick_to_thin
    from src.RELAY.thin_to_thick import repair_thin_to_thick
    from src.CLA.lampam_functions import calc_lampam
    counts = [len(plies(r)) for r in rows]
    ss = [plies(r) for r in rows]
    args = {'rows': rows, 'ss': ss, 'counts': counts, 'ref': ref, 'w': w,
            'coA': [list(x) for x in coA], 'coD': [list(x) for x in coD],
            'tA': tA, 'tD': tD, 'cd': cd, 'wide': wide}

    def fn():
        mp = structure(c, counts, ref, w, coA, coD, tA, tD)
        o = ObjFunction(constraints=c, coeff_diso=cd)
        f = repair_thick_to_thin if op == 'thin' else repair_thin_to_thick
        stacks = [arr(s) for s in ss]
        lp = np.array([calc_lampam(s, c) for s in stacks])
        return f(lp, np.array(rows, int), stacks, mp, limits(op, wide, lim),
                 o, c)
    return observe(op, args, enc_result, fn, timeout=60)


def rnd_counts(rng, c, m, most=3):
    """increasing ply counts, of one parity when symmetric"""
    k = rng.choice([2, 2, 3])
    unit = 2 if c.sym else 1
    out = [m]
    budget = rng.randint(1 if most == 3 else 2, most)
    for _ in range(k - 1):
        step = rng.randint(1, max(1, budget - 1 if k == 3 else budget))
        out.append(out[-1] + unit*step)
    return out


def near_target(rng, n, stack):
    """lamination parameters of a laminate like this one, scaled by 1000"""
    if rng.random() < 0.2:
        return ([rng.randint(-1000, 1000) for _ in range(4)],
                [rng.randint(-1000, 1000) for _ in range(4)])
    s = [a for a in stack]
    while len(s) > n:
        del s[rng.randrange(len(s))]
    while len(s) < n:
        s.insert(rng.randrange(len(s) + 1), rng.choice(s))
    for _ in range(rng.randint(0, 3)):
        i, j = rng.randrange(n), rng.randrange(n)
        s[i], s[j] = s[j], s[i]
    a, d = lampams(s)
    return ([int(round(1000*x)) for x in a], [int(round(1000*x)) for x in d])


def rnd_rows(rng, c, stack, counts):
    """a layout whose thickest panel is the given stack"""
    n = counts[-1]
    cov = c.n_covering if c.covering else 0
    if c.sym:
        h = n//2
        half = nested_table(rng, [k//2 for k in counts], h, numbered=False)
        if half is None:
            return None
        if cov:
            half = nested_table(rng, [k//2 - cov for k in counts], h - cov,
                                numbered=False)
            half = [[0]*cov + r for r in half] if half else None
        if half is None:
            return None
        pat = [r + [0]*(n % 2) + r[::-1] for r in half]
    else:
        pat = nested_table(rng, counts, n, nc=cov, numbered=False)
        if pat is None:
            return None
    return [[stack[i] if x != -1 else -1 for i, x in enumerate(r)]
            for r in pat]


def rnd_case(rng, op, c, most=3, fix=0.75):
    """(rows, ref): the reference panel complies with the rules"""
    counts = rnd_counts(rng, c, rng.choice(
        [rng.randint(4, 9), rng.randint(6, 14)]), most)
    if op == 'thin' and rng.random() < 0.4:
        counts = [x + rng.choice([0, 6, 12]) for x in counts[:1]] and [
            x + 6 for x in counts]
    ref = len(counts)
    if op == 'thick':
        ref = rng.choice([1, 1, len(counts) - 1])
    elif len(counts) > 2 and rng.random() < 0.4:
        ref = 2
    if rng.random() < 0.06:
        ref = 1 if op == 'thin' else len(counts)
    if not all(exact_percents(c, n)
               for n in range(counts[0], counts[-1] + 1)):
        return None
    n = counts[-1]
    for _ in range(6):
        nref = counts[ref - 1]
        s = c_relay.ordered_stack(rng, c, nref) \
            or anchored(rng, c, rnd_laminate(rng, c, nref))
        if c.sym and nref % 2 and s[nref//2] not in (0, 90):
            s[nref//2] = rng.choice([0, 90])
        if rng.random() < fix:
            k, v, _ = core.call(c_relay.quick_repair, c, s)
            if k != 'ok' or v is None:
                continue
            s = v
        break
    else:
        return None
    # the thickest panel: plies added to the reference panel
    full = list(s)
    while len(full) < n:
        a = rng.choice([int(x) for x in c.set_of_angles])
        cov = c.n_covering if c.covering else 0
        p = rng.randint(cov, len(full)//2)
        full.insert(p, a)
        if c.sym:
            full.insert(len(full) - p, a)
    rows = None
    # the reference row must be the reference stack: place the drops so
    for _ in range(40):
        rows = rnd_rows(rng, c, full, counts)
        if rows is None or ref == len(counts):
            break
        if plies(rows[ref - 1]) == s:
            break
        rows = None
    if rows is None:
        rows = [None]*len(counts)
        return None
    return rows, ref


def rework_trace(op):
    def trace(rng, i):
        # every third history: balance in a truncated search; every third:
        # percentages that bind
        mode = i % 3
        kw = dict(set_of_angles=A4) if rng.random() < 0.7 or mode else {}
        if mode == 1:
            kw.update(bal=True, ten=rng.random() < 0.3, abdalla=False)
        elif mode == 2:
            kw.update(ten=True, abdalla=False, pcts=[0, 10, 15, 20, 25, 28])
        else:
            kw.update(ten=None if rng.random() < 0.5 else False)
        c = rnd_rules(rng, **kw)
        if len(c.set_of_angles) > 8:
            return None
        steps = []
        for _ in range(3):
            got = rnd_case(rng, op, c, 4 if mode == 1 else 3,
                           0.4 if mode == 2 else 0.75)
            if got is None:
                continue
            rows, ref = got
            counts = [len(plies(r)) for r in rows]
            m = len(counts)
            span = (counts[ref - 1] - counts[0] if op == 'thin'
                    else counts[-1] - counts[ref - 1])//(2 if c.sym else 1)
            most = 3 if op == 'thin' else (
                2 if len(c.set_of_angles) == 4 else 1)
            wide = span <= most and rng.random() < (
                0.7 if mode != 1 else 0.1)
            if rng.random() < 0.2:
                coA, coD = [(0,)*4]*m, [rng.choice(SMALL)]*m
            else:
                coA, coD = [rng.choice(SMALL)]*m, [(0,)*4]*m
            if rng.random() < 0.3:
                coA = [(1, 0, 0, 0)]*m
                coD = [rng.choice([(1, 0, 0, 0), (0, 1, 1, 0)])]*m
            t = [near_target(rng, n, rows[-1] if -1 not in rows[-1]
                             else plies(rows[-1])) for n in counts]
            steps.append(rework_step(
                op, c, rows, ref, [rng.choice([1, 1, 2]) for _ in counts],
                coA, coD, [x[0] for x in t], [x[1] for x in t],
                rng.choice([0, 0, 1]), wide,
                rng.choice([(1, 1), (2, 3), (5, 2), (10, 1), (10, 10)])))
        return {'id': '%s%d' % (op, i), 'c': c_rec(c), 'steps': steps} \
            if steps else None
    return trace


thin_trace = rework_trace('thin')
thick_trace = rework_trace('thick')


MODELS = [
    (dict(sym=True, bal=True, contig=True, n_contig=2, diso=True,
          delta_angle=45, rule_10_percent=True, percent_0=10, percent_45=0,
          percent_90=10, percent_135=0, dam_tol=False), 10, 2),
    (dict(sym=False, bal=True, contig=True, n_contig=2, diso=False,
          rule_10_percent=False, dam_tol=False), 5, 3),
    (dict(sym=True, bal=False, contig=True, n_contig=3, diso=True,
          delta_angle=45, rule_10_percent=False, dam_tol=True,
          dam_tol_rule=1), 9, 2),
]


def rework_cases(chk):
    out = []
    for i, (kw, n, steps) in enumerate(MODELS):
        c = constraints(set_of_angles=A4, **kw)
        mod = mc_module(chk, 'MCRework%d' % i, 'ReworkGen',
                        {'MyCfg': c_rec(c)})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
            ' Cfg <- MyCfg\n N = %d\n Steps = %d\n EmitCases = TRUE\n'
            'INVARIANT Size Shape Surfaces Rules Balance Back Agree Emit\n'
            % (n, steps), label='redesign of drops %d plies' % n)
        cases = core.gen_lines(res)
        cases.sort(key=str)
        if len(cases) > tier(60, 600):
            cases = chk.rng.sample(cases, tier(60, 600))
        out.append((c, n, cases))
    return out


def gen_traces(chk):
    rng = chk.rng
    traces = []
    for i, (c, n, cases) in enumerate(rework_cases(chk)):
        unit = 2 if c.sym else 1
        steps = []
        for e in cases:
            s = e['ss']
            op = rng.choice(['thin', 'thick'])
            if op == 'thin':
                counts = rng.choice([[n - unit, n], [n - 2*unit, n],
                                     [n - 2*unit, n - unit, n]])
                full, ref = list(s), len(counts)
            else:
                counts = rng.choice([[n, n + unit], [n, n + 2*unit]])
                full, ref = list(s), 1
                while len(full) < counts[-1]:
                    p = rng.randint(len(full)//2 - 1, len(full)//2)
                    full.insert(p, 90)
                    if c.sym:
                        full.insert(len(full) - p, 90)
            rows = None
            for _ in range(60):
                rows = rnd_rows(rng, c, full, counts)
                if rows and plies(rows[ref - 1]) == s:
                    break
                rows = None
            if rows is None:
                continue
            t = [near_target(rng, k, s) for k in counts]
            m = len(counts)
            coA = [rng.choice(SMALL)]*m
            coD = [rng.choice([(0,)*4, (1, 0, 0, 0)])]*m
            steps.append(rework_step(
                op, c, rows, ref, [rng.choice([1, 1, 2]) for _ in counts],
                coA, coD, [x[0] for x in t], [x[1] for x in t],
                rng.choice([0, 1]), True))
        for j in range(0, len(steps), 10):
            traces.append({'id': 'gen%d_%d' % (i, j), 'c': c_rec(c),
                           'steps': steps[j:j + 10]})
    return traces


def check_C22(chk):
    traces = gen_traces(chk)
    traces += chk.record(thin_trace, tier(250, 4000), tag='thin')
    traces += chk.record(thick_trace, tier(150, 2500), tag='thick')
    chk.conform('TraceRework', traces)


# --------------------------------------------------------------------------
# C23 the whole repair
# --------------------------------------------------------------------------
class Q:
    """parameters of the repair"""


def repair_parameters(rng):
    q = Q()
    quiet = rng.random() < 0.3
    q.repair_membrane_switch = not quiet and rng.random() < 0.8
    q.repair_flexural_switch = not quiet and rng.random() < 0.8
    q.p_A = rng.choice([100, 100, 50])
    q.n_D1, q.n_D2, q.n_D3 = (rng.choice([1, 2, 3, 4, 4]),
                              rng.choice([1, 3, 10]), rng.choice([1, 2]))
    q.local_node_limit2, q.global_node_limit2 = rng.choice(
        [(1, 1), (2, 3), (5, 2), (10, 10)])
    q.local_node_limit3, q.global_node_limit3 = rng.choice(
        [(1, 1), (2, 3), (5, 2), (10, 10)])
    return q


def numbered(rows):
    out = []
    for r in rows:
        k, o = 0, []
        for x in r:
            o.append(-1 if x == -1 else k)
            k += x != -1
        out.append(o)
    return np.array(out, int)


def whole_steps(c, rows, ref, q, w, coA, coD, tA, tD, cd):
    from src.RELAY.repair_reference_panel import repair_reference_panel
    from src.RELAY.repair_mp import repair_mp
    counts = [len(plies(r)) for r in rows]
    args = {'rows': rows, 'counts': counts, 'ref': ref, 'd1': 0}

    def ready():
        mp = structure(c, counts, ref, w, coA, coD, tA, tD)
        for p in mp.reduced.panels:
            p.lampam_weightings_ini = p.lampam_weightings
            p.lampam_weightingsA = np.array(p.lampam_weightings[:4])
            p.lampam_weightingsD = np.array(p.lampam_weightings[8:])
        return mp, ObjFunction(constraints=c, coeff_diso=cd)

    def run(f):
        mp, o = ready()
        ss = [arr(plies(r)) for r in rows]
        pdl = numbered(rows)
        out = f(mp, ss, c, q, o, pdl)
        if [list(s) for s in ss] != [plies(r) for r in rows] \
                or (pdl != numbered(rows)).any():
            raise Odd('the input was changed in place')
        return out

    def enc_ref(v):
        return enc_result((v[0], v[2], v[1], v[3]))

    def enc_mp(v):
        if len(v) != 5:
            raise Odd('%d results' % len(v))
        return {'ok': as_bool(v[0]), 'ss': [as_ints(s) for s in v[1]],
                'rows': [as_ints(r) for r in v[2]],
                'pdl': [as_ints(r) for r in v[3]], 'step': as_int(v[4])}
    one = observe('reference', args, enc_ref, run, repair_reference_panel,
                  timeout=90)
    ok = one['k'] == 'ok' and one['r']['ok']
    refss = one['r']['ss'][ref - 1] if ok else plies(rows[ref - 1])
    d1 = c_relay.distance(c, refss, []) if ok else 0
    one['d1'] = d1
    two = observe('repair', dict(args, refok=ok, refss=refss, d1=d1), enc_mp,
                  run, repair_mp, timeout=120)
    return [one] if one['k'] != 'ok' else [one, two]


def whole_trace(rng, i):
    slow = i % 6 == 0
    c = rnd_rules(rng, ten=True if slow else None, abdalla=slow,
                  set_of_angles=A4 if slow or rng.random() < 0.6 else A8)
    steps = []
    for _ in range(2 if slow else 3):
        m = rng.choice([rng.randint(4, 9), rng.randint(8, 20)])
        if slow:
            m = min(m, 9)
        k = rng.choice([1, 2, 3, 3, 4])
        counts = [m]
        unit = 2 if c.sym else 1
        for _ in range(k - 1):
            counts.append(counts[-1] + unit*rng.choice([1, 1, 2, 3]))
        if not all(exact_percents(c, n)
                   for n in range(counts[0], counts[-1] + 1)):
            continue
        n = counts[-1]
        full = anchored(rng, c, rnd_laminate(rng, c, n))
        if rng.random() < 0.3:
            full = c_relay.ordered_stack(rng, c, n) or full
        if rng.random() < 0.4:
            kk, v, _ = core.call(c_relay.quick_repair, c, full)
            full = v if kk == 'ok' and v is not None else full
        if c.sym and n % 2 and full[n//2] not in (0, 90):
            full[n//2] = rng.choice([0, 90])
        rows = rnd_rows(rng, c, full, counts)
        if rows is None:
            continue
        ref = rng.randint(1, k)
        t = [near_target(rng, x, full) for x in counts]
        steps += whole_steps(
            c, rows, ref, repair_parameters(rng),
            [rng.choice([1, 1, 2]) for _ in counts],
            [rng.choice(COEFS)]*k, [rng.choice(COEFS)]*k,
            [x[0] for x in t], [x[1] for x in t], rng.choice([0, 0, 1]))
    return {'id': 'rnd%d' % i, 'c': c_rec(c), 'steps': steps} \
        if steps else None


def check_C23(chk):
    traces = chk.record(whole_trace, tier(300, 5000))
    chk.conform('TraceRework', traces)
