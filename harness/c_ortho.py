"""C34: the twelve in-plane orthotropy parameters."""
import math
from types import SimpleNamespace

import numpy as np

from core import observe, as_scaled, tier, gen_lines, Odd
from c_search import mc_module
import c_optimise  # noqa: F401  (stand-in for the laminate theory)

from src.guidelines import ipo_oopo


def val(x):
    """millionths, -1 for what is too large to tell"""
    x = float(x)
    if x != x:
        raise Odd('not a number')
    if abs(x) > 999.9:
        return -1
    return as_scaled(x)


def vals(v, n):
    v = np.asarray(v)
    if v.shape != (n,):
        raise Odd('shape %s' % (v.shape,))
    return [val(x) for x in v]


def matrix(u, l, z):
    a, b, c, d = l
    xx, yy = 4*u[0]*z + 2*u[1]*a + 2*u[2]*b, 4*u[0]*z - 2*u[1]*a + 2*u[2]*b
    xy, ss = 4*u[3]*z - 2*u[2]*b, 4*u[4]*z - 2*u[2]*b
    xs, ys = u[1]*c + 2*u[2]*d, u[1]*c - 2*u[2]*d
    return [[xx, xy, xs], [xy, yy, ys], [xs, ys, ss]]


def adj(m):
    def c(i, j):
        i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
        return m[i1][j1]*m[i2][j2] - m[i1][j2]*m[i2][j1]
    return [[c(j, i) for j in range(3)] for i in range(3)]


def mul(a, b):
    return [[sum(a[i][k]*b[k][j] for k in range(3)) for j in range(3)]
            for i in range(3)]


def det(m):
    a = adj(m)
    return sum(m[0][k]*a[k][0] for k in range(3))


def reduced(m):
    g = math.gcd(*[x for r in m for x in r])
    return ([[x // g for x in r] for r in m], g) if g else (m, 1)


def plain(m, part=10**4):
    """far from singular: the ratios are well determined in floating point,
    and no cofactor is small beside another without being nought"""
    top = max(abs(x) for r in m for x in r)
    a = adj(m)
    atop = max(abs(x) for r in a for x in r)
    return (top > 0 and abs(det(m))*1000 >= top*atop
            and all(x == 0 or abs(x)*part >= atop for r in a for x in r))


def usable(u, l, sym):
    a = matrix(u, l[:4], 1)
    if sym:
        return plain(a)
    b, (d, g) = matrix(u, l[4:8], 0), reduced(matrix(u, l[8:], 1))
    if not plain(d, 10**9):
        return False
    s = mul(mul(b, adj(d)), b)
    k = 4*g*det(d)
    big = max(abs(x) for r in s for x in r)
    if 3*big > 10**9 or abs(k)*max(abs(x) for r in a for x in r) > 10**9:
        return False
    m, _ = reduced([[k*a[i][j] - 3*s[i][j] for j in range(3)]
                    for i in range(3)])
    return max(abs(x) for r in m for x in r) <= 10000 and plain(m)


def material(u, k=1.0):
    return SimpleNamespace(U1=u[0]*k, U2=u[1]*k, U3=u[2]*k, U4=u[3]*k,
                           U5=u[4]*k)


def quiet(fn, *a):
    with np.errstate(all='ignore'):
        return fn(*a)


def exact_step(u, l, sym, k=1.0):
    lp = np.array(l)/2
    m = material(u, k)

    def fn():
        before = lp.copy()
        out = [quiet(f, lp, m, sym) for f in (
            ipo_oopo.ipo_param_1_12, ipo_oopo.ipo_param_1_6,
            ipo_oopo.ipo_param_7_12)]
        return out + [np.array_equal(before, lp)]

    def enc(v):
        def seen(x):
            # a ratio over nought is not judged
            return [(-1 if not np.isfinite(y) else val(y)) for y in x]
        return {'all': seen(v[0]), 'first': seen(v[1]), 'last': seen(v[2]),
                'kept': int(v[3])}
    return observe('exact', {'u': u, 'l': l, 'sym': sym}, enc, fn)


def rnd_case(rng):
    while True:
        u = [rng.randint(2, 8), rng.randint(0, 4), rng.randint(0, 3),
             rng.randint(0, 3), rng.randint(1, 4)]
        l = [rng.choice([-2, -1, 0, 1, 2]) for _ in range(12)]
        how = rng.random()
        if how < .15:
            l[4:8] = [0]*4
        elif how < .5:
            l[4:8] = [x if rng.random() < .5 else 0 for x in l[4:8]]
        sym = rng.random() < .35
        if usable(u, l, sym):
            return u, l, sym


SIGNS = {'mirror': [1, 1, -1, -1]*3, 'turn': [-1, 1, -1, 1]*3,
         'over': [1]*4 + [-1]*4 + [1]*4}
# typical invariants, in GPa
INVARIANTS = [[57.2, 62.1, 14.9, 17.4, 19.9], [76.4, 85.7, 19.7, 22.6, 26.9],
              [20.4, 13.9, 3.4, 6.2, 7.1]]


def laminate(rng, sym):
    """the lamination parameters of a stack, in thousandths"""
    n = rng.randint(2, 14)
    ss = [rng.choice([0, 90, 45, -45, 30, -60, 15, 75]) for _ in range(n)]
    if sym:
        ss += ss[::-1]
    n = len(ss)
    z = [i - n/2 for i in range(n + 1)]
    out = []
    for k, w in ((1, 1/n), (2, 2/n**2), (3, 4/n**3)):
        for f, c in ((math.cos, 2), (math.cos, 4), (math.sin, 2),
                     (math.sin, 4)):
            out.append(w*sum((z[i + 1]**k - z[i]**k)*f(math.radians(c*a))
                             for i, a in enumerate(ss)))
    return [int(round(1000*x)) for x in out]


def related_step(rng):
    how = rng.choice(['mirror', 'turn', 'over', 'symmetric', 'stiffer'])
    sym = rng.random() < .3 or how == 'symmetric'
    l1 = laminate(rng, sym)
    if sym:
        l1[4:8] = [0]*4
    l2 = [a*b for a, b in zip(l1, SIGNS.get(how, [1]*12))]
    u = rng.choice(INVARIANTS)
    ma, mb = material(u), material(u, 1e9 if how == 'stiffer' else 1.0)

    def fn():
        a, b = np.array(l1)/1000, np.array(l2)/1000
        sa = sym
        sb = False if how == 'symmetric' else sym
        return (quiet(ipo_oopo.ipo_param_1_12, a, ma, sa),
                quiet(ipo_oopo.ipo_param_1_12, b, mb, sb))

    def enc(v):
        def seen(x):
            return [(-1 if not np.isfinite(y) or y > 400 else val(y))
                    for y in x]
        return {'a': seen(v[0]), 'b': seen(v[1])}
    return observe('related', {'l1': l1, 'l2': l2, 'how': how}, enc, fn)


def penalty_step(rng):
    p = [rng.randint(-1500, 1500)*rng.choice([1, 1, 0])
         for _ in range(rng.choice([6, 12, 12, 3]))]
    t = rng.choice([0, .05, .1, .5])
    return observe('penalty', {'p': p}, as_scaled,
                   ipo_oopo.calc_penalty_ipo_param, np.array(p)/1000, t)


def check_C34(chk):
    rng = chk.rng
    big = tier(0, 1)
    mats = [[4, 2, 1, 1, 1], [5, 3, 1, 1, 2]] + big*[[3, 1, 0, 1, 1],
                                                    [6, 2, 2, 2, 2]]
    part = lambda c: {tuple(rng.choice([-2, -1, 0, 1, 2]) for _ in range(4))
                      for _ in range(c)}
    zero = (0, 0, 0, 0)
    mod = mc_module(chk, 'MCOrtho', 'OrthoGen', {
        'Mats': set(map(tuple, mats)),
        'As': part(tier(9, 25)) | {zero, (1, -1, 0, 0), (2, 2, 0, 0)},
        'Bs': part(tier(7, 14)) | {zero}, 'Ds': part(tier(5, 10)) | {zero}})
    res = chk.model(
        mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
        ' Materials <- Mats\n APart <- As\n BPart <- Bs\n DPart <- Ds\n'
        ' EmitCases = TRUE\n'
        'INVARIANT FollowsTurns SymmetricAlike BalancedNone Inverse Emit\n',
        label='turned laminates')
    cases = [c for c in gen_lines(res) if usable(c['u'], c['l'], False)]
    cases.sort(key=str)
    chk.note('laminates_generated', len(cases))
    if len(cases) > tier(1500, 12000):
        cases = rng.sample(cases, tier(1500, 12000))
    chk.conform('TraceOrtho', [{'id': 'turned%d' % k, 'c': {}, 'steps': [
        exact_step(c['u'], c['l'], False) for c in cases[k:k + 40]]}
        for k in range(0, len(cases), 40)])

    def mixed(rng, i):
        return {'id': 'ortho%d' % i, 'c': {}, 'steps':
                [exact_step(*rnd_case(rng), rng.choice([1.0, 1.0, 1e9]))
                 for _ in range(12)]
                + [related_step(rng) for _ in range(8)]
                + [penalty_step(rng) for _ in range(3)]}
    chk.conform('TraceOrtho', chk.record(mixed, tier(120, 1500)))
