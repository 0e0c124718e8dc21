"""C33: the small tools: subset sums, sorting, maxima, displays."""
import contextlib
import io
import re

import numpy as np

import core
from core import observe, as_int, as_bool, as_ints, tier, gen_lines, Odd
from c_search import mc_module

from src.divers import subset_sum as ss
from src.divers import sorting, pretty_print
from src.divers.arrays import max_arrays
from src.RELAY import repair_tools as relay


def cycle_step(rng, n):
    calls = 2**n + rng.randint(1, 3)

    def fn():
        out, t, rank = [], np.zeros(n, dtype=bool), -1
        for _ in range(calls):
            t, rank = ss.subset_next(n, t, rank)
            out.append(([bool(x) for x in t], rank))
        return out
    return observe('cycle', {'n': n, 'calls': calls}, lambda v: [
        {'t': [int(x) for x in t], 'rank': as_int(r)} for t, r in v], fn)


def sums_step(probs, turn):
    """calls of several searches in turns; each gets back what it gave"""
    def fn():
        state = [(False, np.zeros(len(p['v']), dtype=np.int32), 0)
                 for p in probs]
        out = []
        for k in turn:
            p = probs[k - 1]
            more, u, t = state[k - 1]
            more, u, t = ss.subset_sum_next(p['s'], len(p['v']),
                                            np.array(p['v']), more, u, t)
            state[k - 1] = (more, u, t)
            out.append((k, bool(more), [int(x) for x in u], t))
        return out
    return observe('sums', {'probs': probs}, lambda v: [
        {'who': k, 'more': int(m), 'u': u, 'top': as_int(t)}
        for k, m, u, t in v], fn, timeout=10)


def sum_step(rng):
    n = rng.randint(1, 7)
    v = sorted(rng.randint(1, rng.choice([4, 9, 20])) for _ in range(n))
    rng.shuffle(v)
    s = rng.choice([sum(v), rng.randint(0, sum(v)), rng.randint(0, 12),
                    sum(rng.sample(v, rng.randint(0, n)))])

    def fn():
        w = np.array(v)
        table = ss.subset_sum_table(s, n, w)
        lists = []
        for i in range(1, s + 1):
            m, index = ss.subset_sum_table_to_list(i, table)
            lists.append({'m': as_int(m), 'values': as_ints(index)})
        return {'count': as_int(ss.subset_sum_count(n, w, s)),
                'find': [int(x) for x in ss.subset_sum_find(n, w, s)],
                'table': as_ints(table), 'lists': lists}
    return observe('sum', {'v': v, 's': s}, lambda v: v, fn, timeout=10)


def backup_step(rng):
    n = rng.randint(1, 8)
    u = [int(rng.random() < rng.choice([0.2, 0.5])) for _ in range(n)]
    told = rng.randint(0, n)
    return observe('backup', {'u': u, 'told': told}, as_int,
                   ss.backup_one, n, np.array(u), told)


def sort_step(rng):
    top = rng.choice([3, 9, 90])
    s = [rng.randint(-2, top) for _ in range(rng.randint(1, 12))]
    order = [rng.randint(-2, top) for _ in range(rng.randint(0, 6))]

    def fn():
        mine = list(s)
        sorting.sortAccording(mine, list(order))
        return mine
    return observe('sort', {'s': s, 'order': order}, as_ints, fn)


def first_step(rng):
    top = rng.choice([3, 9])
    s = sorted(rng.randint(0, top) for _ in range(rng.randint(1, 10)))
    v = rng.randint(-1, top + 1)
    return observe('first', {'s': s, 'v': v}, as_int,
                   sorting.first, list(s), 0, len(s) - 1, v, len(s))


def gap_step(rng):
    a, b = (rng.choice([0, 90, rng.randint(-89, 90)]) for _ in range(2))
    return observe('gap', {'a': a, 'b': b}, as_ints, lambda: [
        relay.calc_delta_angle(a, b), relay.calc_delta_angle_2(a, b)])


def distance_step(rng):
    n = rng.randint(1, 40)
    i, j = rng.randrange(n), rng.choice([-1, rng.randrange(n)])
    q = [rng.randint(-2, 2), rng.randint(0, 180), rng.randint(0, 100),
         rng.randint(0, 100), rng.randint(0, 100)]

    def fn():
        v = [relay.calc_distanciation(i, n, None if j < 0 else j)]
        if j >= 0:
            v.append(relay.objective_repair(
                q[1], i, j, n, q[0], coeff_bal_status=q[2]/100,
                coeff_delta_angle=q[3]/100, coeff_position=q[4]/100))
        return v
    return observe('distance', {'n': n, 'i': i, 'j': j, 'q': q},
                   lambda v: [core.as_scaled(x) for x in v], fn)


def max_step(rng):
    n = rng.randint(1, 5)
    sizes = rng.choice([(n, n), (n, n), (1, n), (n, 1), (1, 1), (n, n + 1),
                        (n + 2, n)])
    a, b = ([rng.randint(-400, 400) for _ in range(k)] for k in sizes)
    kind = lambda v: (v[0]/100 if len(v) == 1 and rng.random() < 0.5
                      else np.array(v)/100)

    def enc(r):
        if not isinstance(r, np.ndarray) or r.ndim != 1:
            raise Odd('not an array')
        return [int(round(x*100)) for x in r]
    return observe('max', {'a': a, 'b': b}, enc, max_arrays, kind(a), kind(b))


def shown(fn, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(*a)
    return out.getvalue()


def lines_step(rng):
    n = rng.choice([1, 2, 3, 5, 8, 200])
    how = rng.choice(['ss', 'list', 'ss_list'])
    row = lambda k: [rng.choice([0, 45, -45, 90, -1, 5, 120])
                     for _ in range(k)]
    m = rng.randint(1, 3)
    k = rng.choice([n, 2*n, n + 1, max(n - 1, 1), rng.randint(1, 12)])
    k = min(k, 30)
    if how == 'ss_list':
        same = rng.random() < 0.5
        lists = [row(k if same else rng.randint(1, 12)) for _ in range(m)]
        arg = (np.array(lists) if same and rng.random() < 0.5
               else [np.array(x) for x in lists])
        f = pretty_print.print_list_ss
    else:
        lists = [row(k)]
        arg = np.array(lists[0])
        f = pretty_print.print_ss
        if how == 'list':
            f = pretty_print.print_list
            arg = rng.choice([[x/8 for x in lists[0]],
                              np.array(lists[0])/8])
            lists = [[125*x for x in lists[0]]]     # thousandths
    copy = repr(arg)

    def fn():
        text = shown(f, arg, n)
        out = []
        for line in text.split('\n'):
            if line.strip():
                w = [x for x in line.replace(',', ' ').split()]
                out.append([int(round(float(x)*1000)) if how == 'list'
                            else int(x) for x in w])
        return {'lines': out, 'kept': int(repr(arg) == copy)}
    return observe('lines', {'lists': lists, 'n': n}, lambda v: v, fn)


def lampam_step(rng):
    a, b = ([rng.choice([0, rng.randint(-10**5, 10**5), rng.randint(-9, 9)])
             for _ in range(12)] for _ in 'ab')
    two, diff = rng.random() < 0.7, rng.random() < 0.5
    arr = lambda v: (np.array(v)/1e5).reshape(
        rng.choice([(12,), (12, 1), (3, 4)]))

    def fn():
        text = shown(pretty_print.print_lampam, arr(a),
                     *([arr(b), diff] if two else []))
        text = re.sub('\x1b\\[[0-9]*m', '', text)
        names, rows = [], []
        for line in text.split('\n'):
            if not line.strip():
                continue
            name, *vals = line.split(':')
            m = re.fullmatch(r'\s*lampam\s*(\d+)\s*', name)
            if not m:
                raise Odd('a line shows %r' % line)
            names.append(int(m.group(1)))
            rows.append([int(round(float(x)*1e5)) for x in vals])
        return {'names': names, 'rows': rows}
    return observe('lampam', {'a': a, 'b': b if two else [],
                              'diff': int(diff)}, lambda v: v, fn)


def check_C33(chk):
    rng = chk.rng
    mod = mc_module(chk, 'MCTools', 'ToolsGen', {})
    res = chk.model(
        mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
        ' MaxN = 3\n MaxV = %d\n MaxS = %d\n EmitCases = TRUE\n'
        'INVARIANT Once Sound AllFound Emit\n' % (
            tier(2, 3), tier(3, 5)), label='searches')
    cases = gen_lines(res)
    cases.sort(key=str)
    chk.note('searches_generated', len(cases))
    if len(cases) > tier(900, 6000):
        cases = rng.sample(cases, tier(900, 6000))
    chk.conform('TraceTools', [{'id': 'searches%d' % k, 'c': {}, 'steps': [
        sums_step(c['probs'], c['turn']) for c in cases[k:k + 30]]}
        for k in range(0, len(cases), 30)])
    # larger searches: until the end, one after the other or in turns
    def larger(rng, i):
        probs = []
        for _ in range(rng.randint(1, 3)):
            v = sorted(rng.randint(0, 9) for _ in range(rng.randint(1, 7)))
            s = rng.randint(0, rng.choice([4, sum(v) + 1]))
            probs.append({'v': v, 's': s})
        def sols(p):
            n = len(p['v'])
            return sum(sum(x for j, x in enumerate(p['v']) if m >> j & 1)
                       == p['s'] for m in range(2**n))
        turn = [k + 1 for k, p in enumerate(probs)
                for _ in range(sols(p) + 1)]
        rng.shuffle(turn)
        return {'id': 'larger%d' % i, 'c': {},
                'steps': [sums_step(probs, turn)]}
    chk.conform('TraceTools', chk.record(larger, tier(150, 2500)))
    kinds = [gap_step, distance_step, sum_step, backup_step, sort_step, first_step, max_step,
             lines_step, lampam_step]

    def mixed(rng, i):
        return {'id': 'tools%d' % i, 'c': {},
                'steps': [k(rng) for k in kinds for _ in range(3)]}
    steps = [cycle_step(rng, n) for n in range(1, 7)]
    chk.conform('TraceTools', [{'id': 'cycles', 'c': {}, 'steps': steps}]
                + chk.record(mixed, tier(150, 2500)))
