"""C17..C21: the stages of the lay-up repair (RELAY)."""
import json

import numpy as np

import core
from core import observe, as_ints, as_scaled, tier, Odd
import bella
from bella import A4, A8, A12, ODD, arr, constraints, c_rec
from c_search import mc_module, turn

PCTS = [0, 5, 10, 10, 15, 20, 25]


def exact_percents(c, n):
    """float rounding in ceil(percent*n) agrees with whole percentages"""
    import math
    for f in (c.percent_0, c.percent_45, c.percent_90, c.percent_135,
              c.percent_45_135):
        p = int(round(100*f))
        if math.ceil(f*n) != -(-p*n//100):
            return False
    return True


def rnd_rules(rng, sym=None, bal=None, ten=None, abdalla=None, layla=False,
              **kw):
    kw.setdefault('set_of_angles', rng.choice([A4, A4, A8, A12]))
    pcts = kw.pop('pcts', PCTS)
    kw['sym'] = rng.random() < 0.7 if sym is None else sym
    kw['bal'] = rng.random() < 0.6 if bal is None else bal
    kw['rule_10_percent'] = rng.random() < 0.75 if ten is None else ten
    if kw['rule_10_percent']:
        if (rng.random() < 0.25) if abdalla is None else abdalla:
            kw['rule_10_Abdalla'] = True
            kw['percent_Abdalla'] = rng.choice([5, 10, 10, 15])
        else:
            kw['percent_0'] = rng.choice(pcts)
            kw['percent_90'] = rng.choice(pcts)
            if rng.random() < 0.5:
                kw['percent_45'] = kw['percent_135'] = rng.choice(pcts)
            else:
                kw['percent_45'] = kw['percent_135'] = 0
                kw['percent_45_135'] = rng.choice([0, 10, 15, 20, 30])
    rule = rng.choice([0, 1, 2, 3])
    if 'dam_tol' not in kw:
        kw['dam_tol'] = rule > 0
        if rule:
            kw['dam_tol_rule'] = rule
    if 'contig' not in kw:
        kw['contig'] = rng.random() < 0.85
        kw['n_contig'] = rng.choice([2, 3, 3, 4, 4, 5, 6])
    if 'diso' not in kw:
        kw['diso'] = rng.random() < 0.7
        kw['delta_angle'] = rng.choice([45, 45, 45, 60, 30])
    if rng.random() < 0.08 and not kw['rule_10_percent']:
        kw['set_of_angles'] = rng.choice(ODD)
        kw['dam_tol'] = False
    if layla:           # the constraints of the optimiser of single laminates
        kw['ipo'] = rng.random() < 0.5
        return constraints(layla=True, **kw)
    return constraints(**kw)


def rnd_laminate(rng, c, n, sticky=None, ten_bias=True):
    angles = [int(a) for a in c.set_of_angles]
    if rng.random() < 0.4:
        angles = rng.sample(angles, rng.randint(1, len(angles)))
    st = rng.choice([0.0, 0.3, 0.7]) if sticky is None else sticky
    if c.sym:
        half = bella.rnd_stack(rng, n//2, angles, st)
        if rng.random() < 0.3:
            half = compliant_half(rng, c, n) or half
        mid = []
        if n % 2:
            mid = [rng.choice([0, 90]) if rng.random() < 0.7
                   else rng.choice(angles)]
        return half + mid + half[::-1]
    return bella.rnd_stack(rng, n, angles, st)


def compliant_half(rng, c, n):
    """a half that is balanced and rich in 0, 45, 90, -45"""
    h = n//2
    out = []
    others = [int(a) for a in c.set_of_angles if 0 < a < 90]
    while len(out) < h - 1:
        a = rng.choice(others + [0, 90] + [a for a in others if a == 45])
        out += [a, -a] if a not in (0, 90) else [a]
    out = out[:h]
    while len(out) < h:
        out.append(rng.choice([0, 90]))
    rng.shuffle(out)
    return out


# --------------------------------------------------------------------------
# C17 stage 1
# --------------------------------------------------------------------------
def enc_handover(v):
    ss, queue = v
    return {'ss': as_ints(ss), 'queue': as_ints(queue)}


def distance(c, ss, queue):
    from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
    from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
    if not (c.rule_10_percent and c.rule_10_Abdalla):
        return 0
    lp = calc_lampamA_ply_queue(arr(ss), len(ss), list(queue), c)
    return as_scaled(calc_distance_Abdalla(lp, c), 1000000)


def count_step(c, ss):
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10

    def fn():
        a = arr(ss)
        out = repair_10_bal(a, calc_mini_10(c, len(ss)), c)
        if list(a) != list(ss):
            raise Odd('the input was changed in place')
        return out
    step = observe('count', {'ss': ss}, enc_handover, fn)
    step['d0'] = step['d1'] = 0
    if step['k'] == 'ok':
        fixed = list(ss)
        if c.sym and len(ss) % 2 and ss[len(ss)//2] not in (0, 90):
            fixed[len(ss)//2] = 0
        step['d0'] = distance(c, fixed, [])
        step['d1'] = distance(c, step['r']['ss'], step['r']['queue'])
    return step


COUNT_MODELS = [
    (dict(sym=True, bal=True, rule_10_percent=True, percent_0=10,
          percent_90=10, percent_45=10, percent_135=10), 10),
    (dict(sym=True, bal=True, rule_10_percent=True, percent_0=10,
          percent_90=0, percent_45=0, percent_135=0, percent_45_135=20), 11),
    (dict(sym=True, bal=False, rule_10_percent=True, percent_0=10,
          percent_90=10, percent_45=0, percent_135=0, percent_45_135=20), 10),
    (dict(sym=False, bal=True, rule_10_percent=True, percent_0=20,
          percent_90=10, percent_45=0, percent_135=0, percent_45_135=10), 5),
    (dict(sym=False, bal=False, rule_10_percent=True, percent_0=20,
          percent_90=10, percent_45=25, percent_135=25), 5),
]


def count_cases(chk):
    """design check of stage 1; every laminate it meets, and its neighbours"""
    out = []
    models = list(COUNT_MODELS)
    if core.TIER == 'thorough':
        models += [
            (dict(sym=True, bal=True, rule_10_percent=True, percent_0=10,
                  percent_90=10, percent_45=10, percent_135=10), 14),
            (dict(sym=False, bal=True, rule_10_percent=True, percent_0=15,
                  percent_90=15, percent_45=10, percent_135=10), 6)]
    for i, (kw, n) in enumerate(models):
        c = constraints(set_of_angles=A4, **kw)
        mod = mc_module(chk, 'MCRelay%d' % i, 'RelayGen', {'MyCfg': c_rec(c)})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS\n Cfg <- MyCfg\n N = %d\n EmitCases = TRUE\n'
            'INVARIANT NoDeadEnd AlwaysPossible DoneRight NeedsRight Emit\n'
            'PROPERTY Monotone\n' % n, label='stage 1 %s %d plies' % (kw, n))
        stacks = core.gen_lines(res)
        stacks.sort(key=str)
        if len(stacks) > tier(150, 1500):
            stacks = chk.rng.sample(stacks, tier(150, 1500))
        out.append((c, n, stacks))
    return out


def neighbour(rng, c, ss):
    """one ply (pair) changed: mostly no longer compliant"""
    s = list(ss)
    i = rng.randrange(len(s)//2 if c.sym else len(s))
    s[i] = rng.choice([int(a) for a in c.set_of_angles])
    if c.sym:
        s[len(s) - 1 - i] = s[i]
    return s


def check_C17(chk):
    rng = chk.rng
    traces = []
    for i, (c, n, stacks) in enumerate(count_cases(chk)):
        steps = [count_step(c, s) for s in stacks]
        steps += [count_step(c, neighbour(rng, c, s)) for s in stacks]
        for j in range(0, len(steps), 60):
            traces.append({'id': 'gen%d_%d' % (i, j), 'c': c_rec(c),
                           'steps': steps[j:j + 60]})
    for i in range(tier(400, 6000)):
        slow = i % 25 == 0
        c = rnd_rules(rng, ten=True if slow else None, abdalla=slow,
                      **({'set_of_angles': rng.choice([A4, A4, A8])}
                         if slow else {}))
        steps = []
        for _ in range(2 if slow else 8):
            n = rng.choice([rng.randint(4, 16), rng.randint(8, 40),
                            rng.randint(20, 80)])
            if slow:
                n = rng.randint(4, 24)
            if not exact_percents(c, n):
                continue
            steps.append(count_step(c, rnd_laminate(rng, c, n)))
        traces.append({'id': 'rnd%d' % i, 'c': c_rec(c), 'steps': steps})
    chk.conform('TraceRelay', traces)


# --------------------------------------------------------------------------
# C18 stage 3
# --------------------------------------------------------------------------
def enc_order(v):
    ss, inward, outward = v[:3]
    return {'ss': as_ints(ss), 'inward': core.as_bool(inward),
            'outward': core.as_bool(outward)}


def order_step(c, ss, queue, nd1):
    from src.RELAY.repair_diso_contig import repair_diso_contig
    return observe('order', {'ss': list(ss), 'queue': list(queue),
                             'nd1': nd1}, enc_order,
                   repair_diso_contig, arr(ss), list(queue), c, nd1)


def order_list_steps(c, ss_list, queues, nd1):
    """the list is tried in turn; the outcome is judged against the entry
    it comes from"""
    from src.RELAY.repair_diso_contig import repair_diso_contig_list

    def fn():
        out = repair_diso_contig_list(
            [arr(s) for s in ss_list], [list(q) for q in queues], c, nd1)
        return out
    seen = {}

    def enc(v):
        seen['ind'] = core.as_int(v[3])
        return enc_order(v)
    step = observe('order_list', {'nd1': 0}, enc, fn)
    i = seen.get('ind', 0)
    step.update(ss=list(ss_list[i]), queue=list(queues[i]))
    return [step]


def with_unknown(rng, c, ss):
    """opens the innermost slots and queues plies for them"""
    n = len(ss)
    ss = list(ss)
    slots = n//2 if c.sym else n
    keep = {0: 1, 1: 1, 2: 2, 3: 2}[c.dam_tol_rule if c.dam_tol else 0]
    lo = keep if c.sym else 2*keep
    k = rng.randint(min(lo, slots), slots)
    if rng.random() < 0.1:
        k = rng.randint(0, k)
    order = list(range(slots))
    if not c.sym:
        order = [(n - 1 - i//2) if i % 2 == 0 else i//2 for i in range(n)]
    queue = []
    for p in order[k:]:
        queue.append(ss[p])
        ss[p] = 666
        if c.sym:
            ss[n - 1 - p] = 666
    if rng.random() < 0.3:
        queue = [rng.choice([int(a) for a in c.set_of_angles])
                 for _ in queue]
    rng.shuffle(queue)
    return ss, queue


def anchored(rng, c, ss):
    """the outermost plies obey damage tolerance"""
    ss = list(ss)
    if not c.dam_tol or len(ss) < 4:
        return ss
    n = len(ss)
    a, b = rng.choice([45, -45]), rng.choice([45, -45])
    if c.sym:
        b = a
    ss[0], ss[-1] = a, b
    if c.dam_tol_rule in (2, 3):
        ss[1], ss[-2] = -a, -b
        if c.dam_tol_rule == 3 and rng.random() < 0.5:
            ss[1] = a
            ss[-2] = a if c.sym else b
    return ss


ORDER_MODELS = [
    (dict(sym=True, dam_tol=False, contig=True, n_contig=2, diso=True,
          delta_angle=45), 8),
    (dict(sym=True, dam_tol=True, dam_tol_rule=2, contig=True, n_contig=2,
          diso=True, delta_angle=45), 11),
    (dict(sym=True, dam_tol=True, dam_tol_rule=1, contig=True, n_contig=3,
          diso=True, delta_angle=45), 8),
    (dict(sym=False, dam_tol=False, contig=True, n_contig=2, diso=True,
          delta_angle=45), 5),
    (dict(sym=False, dam_tol=True, dam_tol_rule=3, contig=True, n_contig=2,
          diso=True, delta_angle=45), 7),
]


def order_cases(chk):
    out = []
    for i, (kw, n) in enumerate(ORDER_MODELS):
        c = constraints(set_of_angles=A4, bal=False, rule_10_percent=False,
                        **kw)
        mod = mc_module(chk, 'MCOrder%d' % i, 'OrderGen', {'MyCfg': c_rec(c)})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS\n Cfg <- MyCfg\n N = %d\n'
            'INVARIANT SoundOrder Exhausted Emit\n' % n,
            label='stage 3 %s %d plies' % (kw, n))
        cases = core.gen_lines(res)
        cases.sort(key=str)
        if len(cases) > tier(120, 1500):
            cases = chk.rng.sample(cases, tier(120, 1500))
        out.append((c, n, cases))
    return out


def check_C18(chk):
    rng = chk.rng
    traces = []
    for i, (c, n, cases) in enumerate(order_cases(chk)):
        steps = []
        for e in cases:
            for nd1 in (rng.randint(0, 2), 4):
                steps.append(order_step(c, e['ss'], e['queue'], nd1))
        for j in range(0, len(steps), 60):
            traces.append({'id': 'gen%d_%d' % (i, j), 'c': c_rec(c),
                           'steps': steps[j:j + 60]})
    for i in range(tier(220, 3000)):
        c = rnd_rules(rng)
        steps = []
        for _ in range(5):
            n = rng.choice([rng.randint(6, 12), rng.randint(1, 24),
                            rng.randint(20, 60)])
            nd1 = rng.choice([0, 1, 2, 3, 4, 4, 5])
            ss = anchored(rng, c, rnd_laminate(rng, c, n))
            queue = []
            if rng.random() < 0.7:
                ss, queue = with_unknown(rng, c, ss)
            steps.append(order_step(c, ss, queue, nd1))
            if rng.random() < 0.3:
                other = [with_unknown(rng, c, anchored(
                    rng, c, rnd_laminate(rng, c, n))) for _ in range(2)]
                steps += order_list_steps(
                    c, [ss] + [o[0] for o in other],
                    [queue] + [o[1] for o in other], nd1)
        traces.append({'id': 'rnd%d' % i, 'c': c_rec(c), 'steps': steps})
    chk.conform('TraceRelay', traces)


# --------------------------------------------------------------------------
# C19 stage 2
# --------------------------------------------------------------------------
def ranks(values):
    """the order of the values: position among the sorted distinct ones"""
    import math
    v = [float(x) for x in values]
    if any(math.isnan(x) for x in v):
        raise Odd('NaN objective')
    order = sorted(set(v))
    return [order.index(x) for x in v]


def enc_refined(v):
    ss_list, queues, lps = v[:3]
    if not len(ss_list) == len(queues) == len(lps):
        raise Odd('lists of different lengths')
    objs = list(v[3]) if len(v) > 3 else []
    if len(v) > 3 and len(objs) != len(ss_list):
        raise Odd('lists of different lengths')
    return {'list': [{'ss': as_ints(s), 'queue': as_ints(q)}
                     for s, q in zip(ss_list, queues)],
            'lp': [[as_scaled(x) for x in np.asarray(lp).reshape(4)]
                   for lp in lps],
            'obj': [as_scaled(o) for o in objs], 'rank': ranks(objs)}


def refine_step(c, ss, queue, pa, coef, target, top=False, on=True):
    from src.RELAY.repair_membrane import repair_membrane, repair_membrane_1
    from src.RELAY.repair_10_bal import calc_mini_10
    lampam_target = np.zeros(12)
    lampam_target[:4] = np.array(target)/5000
    coeffs = np.array(coef, float)

    class P:
        repair_membrane_switch = on
        p_A = pa

    def fn():
        a, q = arr(ss), list(queue)
        mini = calc_mini_10(c, len(ss))
        if top:
            out = repair_membrane(
                a, q, mini, coeffs, c, P, lampam_target=lampam_target,
                **({'multipanel': object()} if top == 'mp' else {}))
        else:
            out = repair_membrane_1(
                a, q, mini, coeffs, pa, lampam_target, c)
        if list(a) != list(ss) or q != list(queue):
            raise Odd('the input was changed in place')
        return out
    return observe('refine', {
        'ss': list(ss), 'queue': list(queue), 'pa': pa, 'coef': list(coef),
        'target': list(target), 'on': on}, enc_refined, fn, timeout=60)


def rnd_target(rng, c, n):
    """in-plane lamination parameters of some laminate, or any (scaled)"""
    import math
    if rng.random() < 0.25:
        return [rng.randint(-5000, 5000) for _ in range(4)]
    plies = [rng.choice([int(a) for a in c.set_of_angles])
             for _ in range(rng.randint(1, 12))]
    out = []
    for f, k in ((math.cos, 2), (math.cos, 4), (math.sin, 2), (math.sin, 4)):
        out.append(int(round(5000/len(plies)*sum(
            f(math.radians(k*a)) for a in plies))))
    return out


REFINE_MODELS = [
    (dict(sym=True, bal=True, rule_10_percent=True, percent_0=10,
          percent_90=10, percent_45=10, percent_135=10, dam_tol=True,
          dam_tol_rule=1), 11, 100),
    (dict(sym=True, bal=False, rule_10_percent=True, percent_0=10,
          percent_90=0, percent_45=0, percent_135=0, percent_45_135=20,
          dam_tol=False), 10, 50),
    (dict(sym=False, bal=True, rule_10_percent=True, percent_0=0,
          percent_90=10, percent_45=0, percent_135=0, percent_45_135=30,
          dam_tol=False), 6, 100),
    (dict(sym=False, bal=False, rule_10_percent=True, percent_0=20,
          percent_90=0, percent_45=10, percent_135=10, dam_tol=True,
          dam_tol_rule=2), 7, 100),
]


def refine_cases(chk):
    out = []
    for i, (kw, n, pa) in enumerate(REFINE_MODELS):
        c = constraints(set_of_angles=A4, **kw)
        mod = mc_module(chk, 'MCRefine%d' % i, 'RefineGen',
                        {'MyCfg': c_rec(c)})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS\n Cfg <- MyCfg\n N = %d\n PA = %d\n'
            ' EmitCases = TRUE\n'
            'INVARIANT Kept OuterIntact SurfaceIntact DamTolKept Emit\n'
            'PROPERTY Moved\n' % (n, pa),
            label='stage 2 %s %d plies' % (kw, n))
        cases = core.gen_lines(res)
        cases.sort(key=str)
        if len(cases) > tier(60, 800):
            cases = chk.rng.sample(cases, tier(60, 800))
        out.append((c, n, pa, cases))
    return out


COEFS = [(1, 0, 0, 0), (0, 0, 0, 2), (1, 1, 1, 1), (1, 1, 0, 0), (1, 2, 0, 0), (3, 0, 0, 0), (0, 0, 2, 1),
         (0, 1, 0, 0), (1, 3, 1, 2)]


def rnd_handover(rng, c, n):
    """what stage 1 hands over: rules met on counts"""
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    ss = anchored(rng, c, rnd_laminate(rng, c, n))
    k, v, _ = core.call(repair_10_bal, arr(ss), calc_mini_10(c, n), c)
    if k != 'ok':
        return None
    ss, queue = [int(a) for a in v[0]], [int(a) for a in v[1]]
    if c.sym and n % 2 and ss[n//2] not in (0, 90):
        return None
    w = 2 if c.sym else 1
    if len(ss) != n or ss.count(666) != w*len(queue):
        return None
    return ss, queue


def refine_trace(rng, i):
    slow = i % 4 == 0
    c = rnd_rules(rng, ten=True if slow else None, abdalla=slow,
                  **({'bal': True} if slow and rng.random() < 0.6 else {}),
                  set_of_angles=rng.choice([A4, A4, A8] if slow else
                                           [A4, A8, A12]))
    steps = []
    for _ in range(2 if slow else 3):
        n = rng.choice([rng.randint(4, 16), rng.randint(8, 40)])
        if slow:
            n = min(n, 18 if rng.random() < 0.2 else 12)
        if not exact_percents(c, n):
            continue
        h = rnd_handover(rng, c, n)
        if h is None:
            continue
        pa = rng.choice([100, 100, 100, 50, 75, 25, 0])
        coef = rng.choice(COEFS)
        mode = rng.choice([False, False, False, 'mp', 'ss'])
        on = mode is False or rng.random() < 0.6
        if mode and rng.random() < 0.2:
            coef = (0, 0, 0, 0)
        target = rnd_target(rng, c, n)
        if slow and rng.random() < 0.6:   # towards the edges of the region
            target = rng.choice([[5000, 5000, 0, 0], [-5000, 5000, 0, 0],
                                 [0, -5000, 0, 0], [0, 5000, 0, 0]])
        steps.append(refine_step(c, h[0], h[1], pa, coef, target,
                                 top=mode, on=on))
    return {'id': 'rnd%d' % i, 'c': c_rec(c), 'steps': steps}


def check_C19(chk):
    rng = chk.rng
    traces = []
    for i, (c, n, pa, cases) in enumerate(refine_cases(chk)):
        steps = [refine_step(c, e['ss'], e['queue'], pa, rng.choice(COEFS),
                             rnd_target(rng, c, n)) for e in cases]
        for j in range(0, len(steps), 20):
            traces.append({'id': 'gen%d_%d' % (i, j), 'c': c_rec(c),
                           'steps': steps[j:j + 20]})
    traces += chk.record(refine_trace, tier(300, 6000))
    chk.conform('TraceRelay', traces)


# --------------------------------------------------------------------------
# C20 stage 4
# --------------------------------------------------------------------------
def enc_flex(v):
    return {'ss': as_ints(v[0]), 'calls': core.as_int(v[1])}


def flex_step(c, ss, kind, coef, target, nd2=3, nd3=1, top='mp', on=True):
    from src.RELAY.repair_flexural import repair_flexural
    from src.RELAY.repair_flexural_1 import repair_flexural_1
    from src.RELAY.repair_flexural_2 import repair_flexural_2
    from src.RELAY.repair_flexural_3 import repair_flexural_3
    lampam_target = np.zeros(12)
    lampam_target[8:] = np.array(target)/5000
    coeffs = np.array(coef, float)

    class P:
        repair_flexural_switch = on
        n_D2 = nd2
        n_D3 = nd3

    def fn():
        a = arr(ss)
        if kind == 'swap':
            out = repair_flexural_1(a, coeffs, lampam_target, c,
                                    count_obj=True)
        elif kind == 'shift':
            out = repair_flexural_2(a, coeffs, lampam_target, c, P,
                                    count_obj=True)
        elif kind == 'free':
            out = repair_flexural_3(a, coeffs, lampam_target, c, P,
                                    count_obj=True)
        else:
            out = repair_flexural(
                a, c, coeffs, P, lampam_target=lampam_target, count_obj=True,
                **({'multipanel': object()} if top == 'mp' else {}))
        if list(a) != list(ss):
            raise Odd('the input was changed in place')
        return out
    return observe('flex', {
        'ss': list(ss), 'kind': kind, 'coef': list(coef),
        'target': list(target), 'nd2': nd2, 'nd3': nd3, 'on': on},
        enc_flex, fn, timeout=60)


FLEX_MODELS = [
    (dict(sym=True, dam_tol=True, dam_tol_rule=1, contig=True, n_contig=2,
          diso=True, delta_angle=45), 13),
    (dict(sym=True, dam_tol=False, contig=True, n_contig=3,
          diso=True, delta_angle=45), 11),
    (dict(sym=True, dam_tol=True, dam_tol_rule=2, contig=True, n_contig=4,
          diso=False), 12),
    (dict(sym=False, dam_tol=False, contig=True, n_contig=2,
          diso=True, delta_angle=45), 6),
    (dict(sym=False, dam_tol=True, dam_tol_rule=2, contig=True, n_contig=2,
          diso=True, delta_angle=45), 9),
]


def flex_cases(chk):
    out = []
    for i, (kw, n) in enumerate(FLEX_MODELS):
        c = constraints(set_of_angles=A4, bal=False, rule_10_percent=False,
                        **kw)
        mod = mc_module(chk, 'MCFlex%d' % i, 'FlexGen', {'MyCfg': c_rec(c)})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS\n Cfg <- MyCfg\n N = %d\n EmitCases = TRUE\n'
            'INVARIANT Kept StillStrict StillDamTol Weights Bounded Emit\n' % n,
            label='stage 4 %s %d plies' % (kw, n))
        cases = core.gen_lines(res)
        cases.sort(key=str)
        if len(cases) > tier(150, 2000):
            cases = chk.rng.sample(cases, tier(150, 2000))
        out.append((c, n, cases))
    return out


def rnd_flex_target(rng, c, n, ss=None):
    """out-of-plane lamination parameters of some laminate, or any"""
    import math
    if rng.random() < 0.2:
        return [rng.randint(-5000, 5000) for _ in range(4)]
    angles = [int(a) for a in c.set_of_angles]
    plies = bella.rnd_stack(rng, n, angles, rng.choice([0.3, 0.7, 0.9]))
    if ss is not None and rng.random() < 0.6:   # a laminate close to this one
        plies = list(ss)
        for _ in range(rng.randint(1, 4)):
            i, j = rng.randrange(n), rng.randrange(n)
            plies[i], plies[j] = plies[j], plies[i]
            if c.sym:
                i, j = n - 1 - i, n - 1 - j
                plies[i], plies[j] = plies[j], plies[i]
    w = [((2*i + 2 - n)**3 - (2*i - n)**3)/(2*n**3) for i in range(n)]
    out = []
    for f, k in ((math.cos, 2), (math.cos, 4), (math.sin, 2), (math.sin, 4)):
        out.append(int(round(5000*sum(
            w[i]*f(math.radians(k*plies[i])) for i in range(n)))))
    return out


def ordered_stack(rng, c, n):
    """a random laminate that meets disorientation and contiguity"""
    angles = [int(a) for a in c.set_of_angles]
    if rng.random() < 0.3:
        angles = rng.sample(angles, rng.randint(2, len(angles)))
    h = n//2 if c.sym else n
    nc = c.n_contig if c.contig else n
    sticky = rng.choice([0.2, 0.5, 0.7])
    fixed = (0 if not c.dam_tol else 2 if c.dam_tol_rule in (2, 3) else 1)

    def fits(s, a):
        if s and c.diso and turn(s[-1], a) > c.delta_angle:
            if len(s) != fixed or rng.random() < 0.7:
                return False
        return not (len(s) >= nc and all(x == a for x in s[len(s) - nc:]))
    for _ in range(60):
        s = []
        if c.dam_tol:
            s = [rng.choice([45, -45])]
            if c.dam_tol_rule in (2, 3):
                s.append(-s[0] if c.dam_tol_rule == 2 or rng.random() < 0.5
                         else s[0])
        while len(s) < h:
            ok = [a for a in angles if fits(s, a)]
            if not ok:
                break
            a = rng.choice(ok)
            if s and s[-1] in ok and rng.random() < sticky:
                a = s[-1]
            s.append(a)
        if len(s) != h:
            continue
        if c.sym:
            mid = [rng.choice([0, 90])] if n % 2 else []
            s = s + mid + s[::-1]
        elif c.dam_tol:
            s[-1] = rng.choice([45, -45])
            if c.dam_tol_rule in (2, 3):
                s[-2] = -s[-1]
        if compliant(c, s):
            return s
    return None


def compliant(c, s):
    core_ = s[1:-1] if c.dam_tol and c.dam_tol_rule in (2, 3) else s
    if c.diso and any(turn(a, b) > c.delta_angle
                      for a, b in zip(core_, core_[1:])):
        return False
    k = c.n_contig
    return not c.contig or all(len(set(s[i:i + k + 1])) > 1
                               for i in range(len(s) - k))


def flex_trace(rng, i):
    c = rnd_rules(rng, ten=False, bal=False,
                  **({'diso': False, 'contig': False}
                     if rng.random() < 0.2 else {}))
    steps = []
    for _ in range(4):
        n = rng.choice([rng.randint(3, 14), rng.randint(8, 30),
                        rng.randint(20, 60)])
        ss = ordered_stack(rng, c, n)
        if ss is None:
            continue
        coef = rng.choice(COEFS)
        target = rnd_flex_target(rng, c, n, ss)
        nd2 = rng.choice([1, 2, 3, 5, 10])
        kind = rng.choice(['swap', 'shift', 'free', 'stage', 'stage'])
        on = rng.random() < 0.85
        if kind == 'stage' and rng.random() < 0.1:
            coef = (0, 0, 0, 0)
        steps.append(flex_step(c, ss, kind, coef, target, nd2,
                               rng.choice([1, 1, 2, 3]),
                               rng.choice(['mp', 'ss']), on))
    return {'id': 'rnd%d' % i, 'c': c_rec(c), 'steps': steps}


def check_C20(chk):
    rng = chk.rng
    traces = []
    for i, (c, n, cases) in enumerate(flex_cases(chk)):
        steps = []
        for e in cases:
            kind = rng.choice(['swap', 'shift', 'stage'])
            steps.append(flex_step(c, e['ss'], kind, rng.choice(COEFS),
                                   rnd_flex_target(rng, c, n, e['ss']),
                                   rng.choice([1, 2, 4, 10])))
        for j in range(0, len(steps), 20):
            traces.append({'id': 'gen%d_%d' % (i, j), 'c': c_rec(c),
                           'steps': steps[j:j + 20]})
    traces += chk.record(flex_trace, tier(400, 8000))
    chk.conform('TraceRelay', traces)


# --------------------------------------------------------------------------
# C21 the whole relay
# --------------------------------------------------------------------------
def relay_step(c, ss, pa, nd, coefA, coefD, targetA, targetD, onA, onD,
               counted):
    from src.RELAY.repair_ss import repair_ss
    lampam_target = np.zeros(12)
    lampam_target[:4] = np.array(targetA)/5000
    lampam_target[8:] = np.array(targetD)/5000

    class P:
        repair_membrane_switch = onA
        repair_flexural_switch = onD
        p_A = pa
        n_D1, n_D2, n_D3 = nd
        weighting_finalA = np.array(coefA, float)
        weighting_finalD = np.array(coefD, float)

    def fn():
        a = arr(ss)
        out = repair_ss(a, c, P, lampam_target, count_obj=counted)
        if list(a) != list(ss):
            raise Odd('the input was changed in place')
        return out

    def enc(v):
        if len(v) != 2 + counted:
            raise Odd('%d results' % len(v))
        return {'ss': as_ints(v[0]), 'ok': core.as_bool(v[1])}
    step = observe('relay', {
        'ss': list(ss), 'refines': (onA and any(coefA)) or (
            onD and any(coefD)), 'd0': 0, 'd1': 0}, enc, fn, timeout=90)
    step['d0'] = distance(c, ss, [])
    if step['k'] == 'ok':
        step['d1'] = distance(c, step['r']['ss'], []) \
            if 666 not in step['r']['ss'] else 999999
    return step


def relay_trace(rng, i):
    slow = i % 5 == 0
    c = rnd_rules(rng, ten=True if slow else None, abdalla=slow,
                  layla=i % 5 == 3,
                  **({'set_of_angles': rng.choice([A4, A4, A8])}
                     if slow else {}))
    steps = []
    for _ in range(2 if slow else 4):
        n = rng.choice([rng.randint(5, 14), rng.randint(8, 24),
                        rng.randint(20, 50)])
        if slow:
            n = min(n, 18 if rng.random() < 0.2 else 12)
        if not exact_percents(c, n):
            continue
        ss = anchored(rng, c, rnd_laminate(rng, c, n))
        if rng.random() < 0.3:
            ss = ordered_stack(rng, c, n) or ss
        if rng.random() < 0.4:    # repaired laminates are compliant inputs
            k, v, _ = core.call(quick_repair, c, ss)
            if k == 'ok' and v is not None:
                ss = v
        if c.sym and n % 2 and ss[n//2] not in (0, 90):
            ss[n//2] = rng.choice([0, 90])
        quiet = rng.random() < 0.3
        nd = (rng.choice([0, 1, 2, 3, 4, 4]), rng.choice([1, 3, 10]),
              rng.choice([1, 2]))
        steps.append(relay_step(
            c, ss, rng.choice([100, 100, 50]), nd, rng.choice(COEFS),
            rng.choice(COEFS), rnd_target(rng, c, n),
            rnd_flex_target(rng, c, n), not quiet and rng.random() < 0.8,
            not quiet and rng.random() < 0.8, rng.random() < 0.5))
    # laminates required to be orthotropic in plane are kept balanced
    return {'id': 'rnd%d' % i, 'c': dict(c_rec(c), bal=bool(c.ipo)),
            'steps': steps}


def quick_repair(c, ss):
    from src.RELAY.repair_ss import repair_ss

    class P:
        repair_membrane_switch = repair_flexural_switch = False
        p_A, n_D1, n_D2, n_D3 = 100, 4, 1, 1
        weighting_finalA = weighting_finalD = np.zeros(4)
    ss, ok = repair_ss(arr(ss), c, P, np.zeros(12))
    return [int(a) for a in ss] if ok and 666 not in ss else None


def check_C21(chk):
    traces = chk.record(relay_trace, tier(500, 8000))
    chk.conform('TraceRelay', traces)
