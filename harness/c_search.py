"""C16..: the searches of BELLA and LAYLA."""
import json
import os

import numpy as np

import core
from core import observe, as_ints, tier
import bella
from bella import A4, A8, A12, arr, constraints, c_rec


def tla(v):
    """a Python value as a TLA+ expression"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x))
                               for k, x in v.items()) + ']'
    raise ValueError(v)


def mc_module(chk, name, extends, defs):
    """an instance module in the scratch directory"""
    with open(os.path.join(chk.scratch, name + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (
            name, extends,
            '\n'.join('%s == %s' % (k, tla(v)) for k, v in defs.items())))
    return os.path.join(chk.scratch, name)


# --------------------------------------------------------------------------
# C16 pruning
# --------------------------------------------------------------------------
def search_constraints(rng, sym=None, layla=False, angles=None):
    kw = {'sym': rng.random() < 0.5 if sym is None else sym}
    kw['contig'] = rng.random() < 0.8
    kw['n_contig'] = rng.choice([2, 2, 3, 3, 4, 5, 6])
    kw['diso'] = rng.random() < 0.7
    kw['delta_angle'] = rng.choice([45, 45, 30, 60, 90])
    rule = rng.choice([0, 1, 2, 3])
    kw['dam_tol'] = rule > 0
    if rule:
        kw['dam_tol_rule'] = rule
    kw['set_of_angles'] = angles or rng.choice([A4, A4, A8, A12])
    return constraints(layla=layla, **kw)


def prune_state(c, cl, n, bot, top, group):
    """both prunings on one partial lay-up; group: plies laid since the
    current ply group of LAYLA began"""
    from src.BELLA.pruning import pruning_diso_contig_damtol as pb
    from src.LAYLA_V02.pruning import pruning_diso_contig_damtol as pl

    class T:
        n_plies = n
    enc = lambda v: [] if v is None else as_ints(v)
    sym = c.sym
    half = n//2 + n % 2
    if sym:
        level = len(bot)
    else:
        level = len(bot) if len(bot) == len(top) else n - 1 - len(top)
    args = {'bot': bot, 'top': top, 'level': level}
    steps = []
    if sym:
        kw = {'n_plies_to_optimise': half, 'has_middle_ply': n % 2 == 1}
    else:
        kw = {'n_plies_to_optimise': n, 'mother_ss_top': arr(top)}
    steps.append(observe(
        'prune_bella', args, enc, pb, child_ss=np.copy(c.set_of_angles),
        mother_ss_bot=arr(bot), level=level, constraints=c, **kw))
    # LAYLA: plies before the group (cut to the contiguity limit), and since
    nb = min(len(bot), (group + 1)//2 if not sym else group)
    nt = min(len(top), group//2)
    b0, b1 = bot[:len(bot) - nb], bot[len(bot) - nb:]
    t1, t0 = top[:nt], top[nt:]
    k = cl.n_contig
    if cl.contig or cl.diso:
        b0, t0 = b0[-k:], t0[:k]
    kw = {} if sym else {'mother_ss_top': arr(t1), 'ss_top_simp': arr(t0)}
    steps.append(observe(
        'prune_layla', dict(args, group=group), enc, pl,
        child_ss=np.copy(cl.set_of_angles), mother_ss_bot=arr(b1),
        ss_bot_simp=arr(b0), level=level, constraints=cl, targets=T, **kw))
    return steps


def both(c_kw):
    kw = dict(c_kw)
    return constraints(**dict(kw)), constraints(layla=True, **dict(kw))


def kw_of(c):
    d = {'sym': c.sym, 'contig': c.contig, 'n_contig': c.n_contig,
         'diso': c.diso, 'delta_angle': c.delta_angle,
         'dam_tol': c.dam_tol,
         'set_of_angles': [int(a) for a in c.set_of_angles]}
    if c.dam_tol:
        d['dam_tol_rule'] = c.dam_tol_rule
    return d


def rnd_partial(rng, c, n):
    """a partial lay-up that mostly respects the guidelines, by a walk of
    our own; any partial lay-up is a legal input"""
    angles = [int(a) for a in c.set_of_angles]
    half = n//2 + n % 2
    slots = half if c.sym else n
    bot, top = [], []
    depth = slots - 1 if rng.random() < 0.35 else rng.randrange(slots)
    for _ in range(depth):
        side = bot if c.sym or len(bot) == len(top) else top
        near = (side[-1] if side is bot else side[0]) if side else None
        if not side and c.dam_tol:
            a = rng.choice([45, -45])
        elif len(side) == 1 and c.dam_tol and c.dam_tol_rule in (2, 3):
            a = -side[0]
        else:
            pool = angles
            if c.diso and near is not None and rng.random() < 0.95:
                pool = [b for b in angles if turn(b, near) <= c.delta_angle]
            a = rng.choice(pool or angles)
            if near is not None and rng.random() < 0.5:
                a = near
        side.insert(len(side) if side is bot else 0, a)
        if c.contig and rng.random() < 0.9:
            k = c.n_contig
            run = side[-k-1:] if side is bot else side[:k+1]
            if len(run) == k + 1 and len(set(run)) == 1:
                side[-1 if side is bot else 0] = rng.choice(
                    [b for b in angles
                     if turn(b, a) <= 45 and b != a] or angles)
    return bot, top


def turn(a, b):
    d = (a - b) % 180
    return min(d, 180 - d)


def check_C16(chk):
    rng = chk.rng
    traces = []
    # every partial lay-up that the specified search reaches
    cases = [
        (dict(sym=True, contig=True, n_contig=2, diso=True, delta_angle=45,
              dam_tol=True, dam_tol_rule=1), A4, 9),
        (dict(sym=True, contig=True, n_contig=3, diso=True, delta_angle=45,
              dam_tol=True, dam_tol_rule=2), A4, 10),
        (dict(sym=True, contig=True, n_contig=3, diso=False,
              dam_tol=False), A4, 8),
        (dict(sym=False, contig=True, n_contig=2, diso=True, delta_angle=45,
              dam_tol=True, dam_tol_rule=2), A4, 8),
        (dict(sym=False, contig=True, n_contig=2, diso=True, delta_angle=45,
              dam_tol=False), A4, 5),
        (dict(sym=False, contig=True, n_contig=2, diso=True, delta_angle=45,
              dam_tol=True, dam_tol_rule=3), A4, 7),
    ]
    if core.TIER == 'thorough':
        cases += [
            (dict(sym=True, contig=True, n_contig=2, diso=True,
                  delta_angle=30, dam_tol=True, dam_tol_rule=1), A8, 11),
            (dict(sym=True, contig=True, n_contig=4, diso=True,
                  delta_angle=45, dam_tol=True, dam_tol_rule=3), A4, 12),
            (dict(sym=False, contig=True, n_contig=3, diso=True,
                  delta_angle=45, dam_tol=True, dam_tol_rule=1), A4, 9),
            (dict(sym=False, contig=True, n_contig=2, diso=False,
                  dam_tol=True, dam_tol_rule=1), A4, 7),
        ]
    for i, (kw, angles, n) in enumerate(cases):
        kw = dict(kw, set_of_angles=angles)
        c, cl = both(kw)
        mod = mc_module(chk, 'MCSearch%d' % i, 'SearchGen',
                        {'MyCfg': c_rec(c)})
        res = chk.model(
            mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS\n Cfg <- MyCfg\n N = %d\n'
            'INVARIANT Sound NoLoss MustMay Emit\n' % n,
            label='search %s, %d plies' % (kw, n))
        states = core.gen_lines(res)
        cap = tier(600, 6000)
        states.sort(key=str)
        if len(states) > cap:
            states = rng.sample(states, cap)
        steps = []
        for s in states:
            steps += prune_state(c, cl, n, s['bot'], s['top'],
                                 rng.randrange(0, n + 1))
        for j in range(0, len(steps), 100):
            traces.append({'id': 'gen%d_%d' % (i, j), 'c': c_rec(c), 'n': n,
                           'steps': steps[j:j + 100]})
    # long and arbitrary partial lay-ups
    for i in range(tier(150, 2000)):
        sym = rng.random() < 0.5
        c, cl = both(kw_of(search_constraints(rng, sym=sym)))
        n = rng.randint(5, 14) if rng.random() < 0.6 else rng.randint(5, 60)
        if not sym and n < 6:
            n = 6
        steps = []
        for _ in range(6):
            bot, top = rnd_partial(rng, c, n)
            steps += prune_state(c, cl, n, bot, top, rng.randrange(n + 1))
        traces.append({'id': 'rnd%d' % i, 'c': c_rec(c), 'n': n,
                       'steps': steps})
    chk.conform('TraceSearch', traces)
