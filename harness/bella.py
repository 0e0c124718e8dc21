"""Access to the code under test: constraint sets, stacks, panels."""
import sys

import numpy as np

import core
import cla

if core.REPO not in sys.path:
    sys.path.insert(0, core.REPO)
CLA_SOURCE = cla.install()

A4 = [0, 45, 90, -45]
A8 = [0, 45, 90, -45, 30, -30, 60, -60]
A12 = [0, 45, 90, -45, 30, -30, 60, -60, 15, -15, 75, -75]
# sets of orientations without +-45
ODD = [[0, 90], [0, 30, -30, 90], [0, 90, 30, -30, 60, -60], [0, 90, 60, -60]]


def constraints(layla=False, **kw):
    if layla:
        from src.LAYLA_V02.constraints import Constraints
    else:
        from src.BELLA.constraints import Constraints
    angles = kw.pop('set_of_angles', A4)
    return Constraints(set_of_angles=np.array(angles), **kw)


def c_rec(c):
    """the constraint record of the trace specifications"""
    return {
        'sym': bool(c.sym), 'bal': bool(getattr(c, 'bal', False)),
        'oopo': bool(getattr(c, 'oopo', False)),
        'dam_tol': bool(c.dam_tol),
        'dam_tol_rule': int(getattr(c, 'dam_tol_rule', 0)),
        'contig': bool(c.contig), 'n_contig': int(c.n_contig),
        'diso': bool(c.diso), 'delta': int(c.delta_angle),
        'covering': bool(getattr(c, 'covering', False)),
        'n_covering': int(getattr(c, 'n_covering', 0)),
        'angles': [int(a) for a in c.set_of_angles],
        'ten': bool(c.rule_10_percent),
        'abdalla': bool(c.rule_10_Abdalla),
        'q': int(round(1000*(1 - 4*c.percent_Abdalla))),
        'p': p_rec(c)}


def p_rec(c):
    f = lambda x: int(round(100*x))
    return {'p0': f(c.percent_0), 'p45': f(c.percent_45),
            'p90': f(c.percent_90), 'p135': f(c.percent_135),
            'p45_135': f(c.percent_45_135)}


def arr(s):
    return np.array(s, int)


def rnd_stack(rng, n, angles, sticky=0.35):
    """random stack; `sticky` repeats the previous ply so that contiguity
    limits are approached"""
    s = []
    for _ in range(n):
        if s and rng.random() < sticky:
            s.append(s[-1])
        else:
            s.append(rng.choice(angles))
    return s


def to_sym(half, odd):
    """symmetric stack from a half; odd: the last ply is the middle ply"""
    return half + (half[:-1] if odd else half)[::-1]
