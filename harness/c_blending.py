"""Recorders and generators for the blending structure: ply-drop spacing,
gates, blending strip, group division, ply-drop layouts, conversions."""
import itertools
import json
import os
import time

import numpy as np
import numpy.matlib     # the code under test uses np.matlib

import core
from core import (observe, tier, as_int, as_ints, as_rows, as_bool,
                  as_scaled, Odd)
from bella import (constraints, c_rec, arr, rnd_stack, to_sym, A4, A8, A12)
from c_guidelines import bunch

from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.BELLA.parameters import Parameters
from src.BELLA.obj_function import ObjFunction

SC = 100000
sc = core.scaled(SC)


# --------------------------------------------------------------------------
# structures
# --------------------------------------------------------------------------
def make_panels(c, plies, ids, nbrs, pw=None, areas=None, targets=None):
    ps = []
    for i, n in enumerate(plies):
        kw = {}
        if targets is not None:
            kw['lampam_target'] = targets[i]
        ps.append(Panel(ID=ids[i], constraints=c, n_plies=n,
                        neighbour_panels=list(nbrs[i]),
                        weighting=(pw[i] if pw else 1),
                        area=(areas[i] if areas else 1), **kw))
    return ps


def chain_nbrs(ids):
    return [[ids[i + 1]] if i + 1 < len(ids) else []
            for i in range(len(ids))]


def rnd_structure(rng, nmax=6, sym=None, lo=6, hi=24, broken=0.0,
                  mixed=0.15, equal=0.3):
    """random structure description"""
    n = rng.randint(1, nmax)
    sym = rng.random() < .6 if sym is None else sym
    if sym and rng.random() > mixed:
        par = rng.choice([0, 0, 1])
        pool = [x for x in range(lo, hi + 1) if x % 2 == par]
    else:
        pool = list(range(lo, hi + 1))
    if rng.random() < .4:
        pool = sorted(rng.sample(pool, min(len(pool), rng.randint(1, 4))))
    plies = []
    for i in range(n):
        if plies and rng.random() < equal:
            plies.append(rng.choice(plies))
        else:
            plies.append(rng.choice(pool))
    ids = rng.sample(range(1, 40), n)
    nbrs = [[] for _ in range(n)]
    def link(a, b):
        way = rng.random()
        if way < .4:
            nbrs[a].append(ids[b])
        elif way < .8:
            nbrs[b].append(ids[a])
        else:
            nbrs[a].append(ids[b])
            nbrs[b].append(ids[a])
    for i in range(1, n):
        link(i, rng.randrange(i))
    for _ in range(rng.randint(0, 3) if n > 2 else 0):
        a, b = rng.sample(range(n), 2)
        link(a, b)
    if broken and rng.random() < broken and n > 1:
        if rng.random() < .4:
            ids[rng.randrange(n)] = ids[rng.randrange(n)]
        else:
            k = rng.randrange(n)
            for i in range(n):
                nbrs[i] = [] if i == k else [x for x in nbrs[i]
                                             if x != ids[k]]
    return {'plies': plies, 'ids': ids, 'nbrs': nbrs, 'sym': sym,
            'pweights': [rng.randint(1, 9) for _ in range(n)],
            'areas': [rng.randint(1, 9) for _ in range(n)]}


def edges_of(s):
    idx = {}
    for i, x in enumerate(s['ids']):
        idx[x] = i
    out = set()
    for i, l in enumerate(s['nbrs']):
        for x in l:
            out.add((min(i, idx[x]), max(i, idx[x])))
    return sorted(out)


def build(s, c, weights=None, **kw):
    ps = make_panels(c, s['plies'], s['ids'], s['nbrs'],
                     [float(w) for w in s['pweights']], s['areas'], **kw)
    return MultiPanel(ps, boundary_weights=weights)


def w100(d):
    return [[as_int(a) + 1, as_int(b) + 1, as_scaled(w, 100)]
            for (a, b), w in sorted(d.items())]


def bounds0(v):
    v = np.asarray(v)
    return [[as_int(x) + 1 for x in row] for row in v] if v.size else []


def strip_bounds(mp):
    """the boundaries and weights of the strip as the penalty uses them"""
    return [[int(a) + 1, int(b) + 1, int(round(w))]
            for (a, b), w in sorted(mp.reduced.boundary_weights.items())]


def structure_steps(s, weights=None, ref=1):
    """(structure step, strip step, reduce step, extend step)"""
    c = constraints(sym=s['sym'])
    args = dict(s)
    args['wgiven'] = weights is not None
    args['weights'] = [[a, b, int(round(100*w))]
                       for (a, b), w in (weights or {}).items()]
    box = {}

    def enc(mp):
        box['mp'] = mp
        return {
            'bounds': bounds0(mp.boundaries),
            'bids': as_rows(mp.boundaries_in_IDs),
            'w': w100(mp.boundary_weights),
            'n_max': as_int(mp.n_plies_max), 'n_min': as_int(mp.n_plies_min),
            'thick': [as_bool(x) for x in mp.is_thick_panels],
            'ind_thick': as_int(mp.ind_thick) + 1,
            'mid': as_ints(mp.middle_ply_indices),
            'hasmid': as_bool(mp.has_middle_ply),
            'thickmid': as_bool(mp.thick_panel_has_middle_ply),
            'nb': [[as_int(x) + 1 for x in l]
                   for l in mp.identify_neighbour_panels()],
            'thickest': [as_int(x) + 1
                         for x in mp.identify_thickest_panels()],
            'area': as_int(mp.area), 'patches': as_int(mp.area_patches),
            'weight': as_int(mp.calc_weight(1.0))}
    steps = [observe('structure', args, enc, build, s, c, weights)]
    mp = box.get('mp')
    if mp is None:
        return steps, None

    def tab(r, name):
        if as_int(getattr(r, 'n_steps_' + name)) == 0:
            return []
        f = lambda x: as_ints(getattr(r, x % name))
        cols = [[x + 1 for x in f('ind_panel_%s_tab')],
                f('n_plies_before_%s_tab'), f('n_plies_after_%s_tab'),
                f('new_boundary_%s_tab'), f('n_panels_designed_%s_tab')]
        if len({len(x) for x in cols}) != 1 \
                or len(cols[0]) != as_int(getattr(r, 'n_steps_' + name)):
            raise Odd('step tables of different lengths')
        return [list(x) for x in zip(*cols)]

    def encs(_):
        r = mp.reduced
        pw0 = as_ints(r.actual_panel_weightings)
        return {
            'counts': as_ints(r.n_plies_in_panels),
            'guide': [as_int(x) + 1 for x in r.ind_panels_guide],
            'rep': [as_int(x) + 1 for x in r.ind_for_reduc],
            'pcounts': [as_int(p.n_plies) for p in r.panels],
            'bounds': bounds0(r.boundaries), 'w': w100(r.boundary_weights),
            'pw': [as_int(x) for x in r.actual_panel_weightings],
            'pwl': [[as_scaled(x, 10000) for x in row]
                    for row in r.panel_weightings] if min(pw0) > 0 else [],
            'ref': as_int(r.ind_ref) + 1, 'nref': as_int(r.n_plies_ref_panel),
            'thick': as_int(r.ind_thick) + 1,
            'nthin': as_int(r.n_panels_thin),
            'nthick': as_int(r.n_panels_thick),
            'mid': as_ints(r.middle_ply_indices),
            'thin': tab(r, 'thin'), 'thicktab': tab(r, 'thick')}
    a2 = dict(args, ref=int(np.ceil(ref)))
    steps.append(observe('strip', a2, encs, mp.from_mp_to_blending_strip,
                         c, ref))
    return steps, (mp if steps[-1]['k'] == 'ok' else None)


def conv_steps(rng, s, mp):
    from src.BELLA.format_pdl import (reduce_for_guide_based_blending,
                                      extend_after_guide_based_blending)
    P = mp.reduced.n_panels
    out = []
    tab = lambda n: [[rng.randint(-1, 9) for _ in range(4)] for _ in range(n)]
    for form in ('array', 'list'):
        d = tab(len(s['plies']))
        x = np.array(d) if form == 'array' else [arr(r) for r in d]
        out.append(observe('reduce', {'plies': s['plies'], 'data': d,
                                      'form': form}, as_rows,
                           reduce_for_guide_based_blending, mp, x))
        d = tab(P)
        x = np.array(d) if form == 'array' else [arr(r) for r in d]
        out.append(observe('extend', {'plies': s['plies'], 'data': d,
                                      'form': form}, as_rows,
                           extend_after_guide_based_blending, mp, x))
    return out


def rnd_weights(rng, s, lose=0.0):
    w = {}
    for a, b in edges_of(s):
        i, j = s['ids'][a], s['ids'][b]
        if rng.random() < .5:
            i, j = j, i
        if rng.random() < lose:
            continue
        w[(i, j)] = rng.choice([0, 1, 1, 2, 3, 0.5, 2.25])
    items = list(w.items())
    rng.shuffle(items)
    return dict(items)


def check_C10(chk):
    rng = chk.rng
    cases = []
    for sym, counts in ((True, (8, 10, 14)), (False, (7, 8, 10))):
        cfg = ('SPECIFICATION Spec\nCONSTANTS PlyCounts = {%s}\n'
               'MaxPanels = %d\nSym = %s\nEmitCases = TRUE\n'
               'CHECK_DEADLOCK FALSE\nINVARIANTS AllConnected '
               'StripConnected Conserved GuideCounts RefRange WalkThin '
               'WalkThick Emit\n' % (
                   ','.join(map(str, counts)), tier(4, 4),
                   'TRUE' if sym else 'FALSE'))
        res = chk.model('StripGen', cfg, 'strip of structures with plies %s'
                        % (counts,))
        g = core.gen_lines(res)
        rng.shuffle(g)
        for x in g[:tier(250, 2200)]:
            n = len(x['plies'])
            ids = rng.sample(range(1, 40), n)
            nb = [[] for _ in range(n)]
            for e in x['edges']:
                a, b = e // 10 - 1, e % 10 - 1
                if rng.random() < .5:
                    a, b = b, a
                nb[a].append(ids[b])
            cases.append({'plies': x['plies'], 'ids': ids, 'nbrs': nb,
                          'sym': sym,
                          'pweights': [rng.randint(1, 9) for _ in range(n)],
                          'areas': [rng.randint(1, 9) for _ in range(n)]})
    for _ in range(tier(900, 8000)):
        cases.append(rnd_structure(rng, nmax=7, broken=.1))
    traces = []
    for i, s in enumerate(cases):
        try:
            w = rnd_weights(rng, s, .08 if rng.random() < .2 else 0) \
                if rng.random() < .6 else None
        except KeyError:
            w = None
        ref = rng.choice([1, 1000, rng.randint(5, 26), rng.randint(5, 26),
                          rng.randint(50, 250) / 10])
        steps, mp = structure_steps(s, w, ref)
        if mp is not None:
            steps += conv_steps(rng, s, mp)
        traces.append({'id': i, 'steps': steps})
    chk.conform('TraceBlending', traces)


# --------------------------------------------------------------------------
# C08 spacing
# --------------------------------------------------------------------------
def nested_table(rng, counts, n, sym=False, nc=0, numbered=True):
    """random guide-based layout: rows in increasing ply count"""
    rows = []
    cur = set()
    for k in reversed(counts):
        need = n - k
        free = [c for c in range(n) if c not in cur
                and nc <= c < n - nc]
        add = need - len(cur)
        if add > len(free):
            return None
        cur = cur | set(rng.sample(free, add))
        rows.append([-1 if c in cur else 0 for c in range(n)])
    rows = rows[::-1]
    if numbered:
        for r in rows:
            k = 0
            for i, x in enumerate(r):
                if x != -1:
                    r[i] = k
                    k += 1
    return rows


def any_table(rng, p, n):
    """rows that need not be nested"""
    return [[-1 if rng.random() < .3 else i for i in range(n)]
            for _ in range(p)]


def check_C08(chk):
    from src.guidelines.ply_drop_spacing import (
        calc_penalty_spacing, calc_penalty_spacing_1ss, is_same_pdl)
    from src.BELLA.pdl_tools import ply_drops_rules
    rng = chk.rng
    cfg = ('SPECIFICATION Spec\nCONSTANTS Width = %d\nMaxPanels = %d\n'
           'EmitCases = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS Nested '
           'Renumbered Counts MirrorSame MoreSpacing MetIsZero SingleDrop '
           'GuideStacks Emit\n' % (tier(6, 7), 3))
    tables = core.gen_lines(chk.model('PdlGen', cfg,
                                      'guide-based ply-drop layouts'))
    rng.shuffle(tables)
    small = []
    for w in (2, 3, 4):
        small += core.gen_lines(chk.model(
            'PdlGen', cfg.replace('Width = %d' % tier(6, 7), 'Width = %d' % w),
            'guide-based ply-drop layouts of %d plies' % w))
    tables = small + tables
    steps = []
    # every row of small length
    for n in range(1, tier(7, 10)):
        for bits in itertools.product([-1, 1], repeat=n):
            for md in (1, 2, 3):
                steps.append(observe('spacing_row',
                                     {'row': list(bits), 'md': md}, sc,
                                     calc_penalty_spacing_1ss,
                                     np.array(bits), md))
    for _ in range(tier(300, 3000)):
        n = rng.randint(5, 40)
        row = [-1 if rng.random() < rng.random() else rng.randint(0, 60)
               for _ in range(n)]
        md = rng.randint(1, 8)
        steps.append(observe('spacing_row', {'row': row, 'md': md}, sc,
                             calc_penalty_spacing_1ss, np.array(row), md))

    def strip_for(P, w=True, sym=True, pdlsp=True, md=2):
        c = constraints(sym=sym, pdl_spacing=pdlsp, min_drop=md)
        s = {'plies': [20 + 2*k for k in range(P)],
             'ids': list(range(1, P + 1)), 'sym': sym,
             'nbrs': chain_nbrs(list(range(1, P + 1))),
             'pweights': [1]*P, 'areas': [1]*P}
        for _ in range(rng.randint(0, 2) if P > 2 else 0):
            a, b = rng.sample(range(P), 2)
            s['nbrs'][a].append(b + 1)
        ws = None
        if w:
            ws = {(s['ids'][a], s['ids'][b]): rng.randint(1, 4)
                  for a, b in edges_of(s)}
        mp = build(s, c, ws)
        mp.from_mp_to_blending_strip(c, 1)
        return c, mp

    def spacing(pdl, before, after, mp, c, as_list=False):
        P = len(pdl)
        P_ = [None if not r else arr(r) for r in pdl]
        if not as_list and None not in [r if r else None for r in pdl]:
            P_ = np.array(pdl)
        kw = {}
        if before is not None:
            kw['pdl_before'] = np.array(before)
        if after is not None:
            kw['pdl_after'] = np.array(after)
        return observe(
            'spacing', {'pdl': pdl, 'before': before or [],
                        'after': after or [], 'bounds': strip_bounds(mp),
                        'md': c.min_drop, 'active': bool(c.pdl_spacing)},
            sc, calc_penalty_spacing, pdl=P_, multipanel=mp,
            constraints=c, on_blending_strip=True, **kw)

    cache = {}
    def get(P, md, act):
        key = (P, md, act, rng.randint(0, 3))
        if key not in cache:
            cache[key] = strip_for(P, rng.random() < .7, True, act, md)
        return cache[key]

    for t in tables[:tier(900, 4500)]:
        md = rng.randint(1, 4)
        c, mp = get(len(t), md, rng.random() < .95)
        steps.append(spacing(t, None, None, mp, c))
        if rng.random() < .3:
            b = rng.choice(tables)
            a = rng.choice(tables)
            b = b if len(b) == len(t) else None
            a = a if len(a) == len(t) else None
            steps.append(spacing(t, b, a, mp, c))
        if len(t) > 2 and rng.random() < .2:
            t = [list(r) for r in t]
            t[rng.randrange(len(t))] = []
            steps.append(spacing(t, None, None, mp, c))
    for _ in range(tier(500, 5000)):
        P = rng.randint(2, 6)
        n = rng.choice([2, 3, 4, 5, rng.randint(6, 24), rng.randint(6, 24),
                        rng.randint(6, 24)])
        md = rng.randint(1, 6)
        c, mp = get(P, md, True)
        if rng.random() < .75:
            counts = sorted(rng.randint(n // 2, n) for _ in range(P))
            t = nested_table(rng, counts, n)
        else:
            t = any_table(rng, P, n)
        b = a = None
        if rng.random() < .4:
            b = any_table(rng, P, rng.randint(1, 4))
        if rng.random() < .4:
            a = [r[::-1] for r in t] if rng.random() < .5 \
                else any_table(rng, P, rng.randint(1, 4))
        steps.append(spacing(t, b, a, mp, c))
        # the filter with the same rule
        pdls = [t] + [any_table(rng, P, n) for _ in range(2)]
        bounds = [[x[0], x[1]] for x in strip_bounds(mp)]
        bb = b or [[1]]*P
        aa = a or [[1]]*P
        if rng.random() < .3:
            steps.append(observe(
                'spacing_filter', {'pdls': pdls, 'md': md, 'bounds': bounds,
                                   'before': bb, 'after': aa},
                lambda v: [as_rows(x) for x in v], ply_drops_rules,
                np.array(pdls), md, [[i - 1, j - 1] for i, j in bounds],
                np.array(bb), np.array(aa), True))
        # comparison of partly designed layouts
        ref = rng.randint(1, P)
        other = [list(r) for r in t]
        if rng.random() < .6:
            r = rng.randrange(P)
            q = rng.randrange(n)
            other[r][q] = 77 if other[r][q] == -1 else -1
        mine = [list(r) for r in t]
        thin = rng.random() < .6
        top = rng.randint(0, P)
        blank = range(top) if thin else range(P - top, P)
        for r in blank:
            mine[r], other[r] = [], []
        A = [arr(r) if r else None for r in mine]
        B = [arr(r) if r else None for r in other]
        steps.append(observe('same_pdl', {'a': mine, 'b': other, 'ref': ref,
                                          'thin': thin}, as_bool,
                             is_same_pdl, A, B, ref, thin))
    # whole structures
    for _ in range(tier(250, 2500)):
        s = rnd_structure(rng, nmax=6, mixed=0)
        md = rng.randint(1, 5)
        c = constraints(sym=s['sym'], pdl_spacing=True, min_drop=md)
        w = {(s['ids'][a], s['ids'][b]): rng.randint(1, 4)
             for a, b in edges_of(s)}
        mp = build(s, c, w)
        counts = sorted(set(s['plies']))
        n = counts[-1]
        t = nested_table(rng, counts, n)
        full = [t[counts.index(k)] for k in s['plies']]
        if rng.random() < .5:
            mp.from_mp_to_blending_strip(c, 1)
            b = strip_bounds(mp)
        else:
            m2 = build(s, c, w)
            m2.from_mp_to_blending_strip(c, 1)
            b = strip_bounds(m2)
        steps.append(observe('spacing_mp', {
            'plies': s['plies'], 'pdl': full, 'bounds': b, 'md': md}, sc,
            calc_penalty_spacing, pdl=np.array(full), multipanel=mp,
            constraints=c, on_blending_strip=False))
    chk.conform('TraceBlending', bunch(steps, 60))


# --------------------------------------------------------------------------
# C09 gates
# --------------------------------------------------------------------------
def good_stack(rng, c, n, tries=60):
    """a stack built ply by ply that tends to satisfy the constraints"""
    angles = [int(a) for a in c.set_of_angles]
    for _ in range(tries):
        half = n if not c.sym else (n + 1) // 2
        s = []
        if c.dam_tol:
            s = [45, -45] if c.dam_tol_rule != 1 else [45]
            if rng.random() < .5:
                s = [-x for x in s]
        while len(s) < half:
            pool = list(angles)
            rng.shuffle(pool)
            for a in pool:
                if c.diso and s and min(abs(a - s[-1]) % 180, 180 - abs(
                        a - s[-1]) % 180) > c.delta_angle:
                    continue
                if c.contig and len(s) >= c.n_contig \
                        and all(x == a for x in s[-c.n_contig:]):
                    continue
                s.append(a)
                break
            else:
                break
        if len(s) < half:
            continue
        if not c.sym:
            if c.dam_tol:
                e = [-45, 45] if c.dam_tol_rule != 1 else [45]
                s[-len(e):] = e
            if rng.random() < .5:
                k = n // 2
                s = s[:k] + ([0] if n % 2 else []) + \
                    [(-x if x != 90 else 90) for x in s[:k]][::-1]
            return s
        return to_sym(s, n % 2)
    return rnd_stack(rng, n, angles)


def repeat_balance(rng, s, sym):
    """append the opposite plies so that the stack is balanced"""
    t = [(-x if x not in (0, 90) else x) for x in s]
    return s + t[::-1] if rng.random() < .5 else s + t


def check_C09(chk):
    from src.guidelines.one_stack import (check_lay_up_rules,
                                          check_ply_drop_rules)
    rng = chk.rng
    steps = []
    for _ in range(tier(2500, 20000)):
        sym = rng.random() < .5
        angles = rng.choice([A4, A4, A8, A12])
        kw = {'sym': sym, 'set_of_angles': angles}
        if rng.random() < .35:
            kw.update(dam_tol=True, dam_tol_rule=rng.choice([1, 2, 3]))
        if rng.random() < .5:
            kw.update(bal=True)
        if rng.random() < .5:
            kw.update(diso=True, delta_angle=rng.choice([45, 45, 60]))
        if rng.random() < .5:
            kw.update(contig=True, n_contig=rng.randint(2, 6))
        if rng.random() < .4:
            kw.update(rule_10_percent=True, percent_0=rng.choice([5, 10]),
                      percent_90=10, percent_45=rng.choice([0, 5, 10]),
                      percent_135=rng.choice([0, 5, 10]))
        c = constraints(**kw)
        n = rng.randint(4, 26)
        s = good_stack(rng, c, n)
        if c.bal and rng.random() < .7:
            k = rng.randint(3, 10)
            base = good_stack(rng, constraints(**dict(kw, sym=False)), k)
            s = repeat_balance(rng, base, sym)
            if sym:
                s = to_sym(s, rng.random() < .3)
        if rng.random() < .35:
            i = rng.randrange(len(s))
            s = list(s)
            s[i] = rng.choice(angles)
        args = {'ss': [int(x) for x in s], 'c': c_rec(c),
                'ipo': bool(c.ipo), 'nobal': rng.random() < .2,
                'noipo': rng.random() < .2, 'eq45': rng.random() < .2,
                'eq090': rng.random() < .2, 'want': 0}
        kk = dict(no_ipo_check=args['noipo'], no_bal_check=args['nobal'],
                  equality_45_135=args['eq45'], equality_0_90=args['eq090'])
        if rng.random() < .2:
            args['want'] = len(s) + rng.choice([0, 0, 1, -1])
            kk['n_plies'] = args['want']
        steps.append(observe('gate_layup', args, as_int, check_lay_up_rules,
                             arr(s), c, **kk))
    for _ in range(tier(900, 8000)):
        s = rnd_structure(rng, nmax=4, mixed=0, hi=14)
        kw = {'sym': s['sym']}
        if rng.random() < .6:
            kw.update(covering=True, n_covering=rng.choice([1, 2]))
        if rng.random() < .3:
            kw.update(dam_tol=True, dam_tol_rule=rng.choice([1, 2, 3]))
        if rng.random() < .6:
            kw.update(pdl_spacing=True, min_drop=rng.randint(1, 3))
        c = constraints(**kw)
        mp = build(s, c)
        mp.from_mp_to_blending_strip(c, 1)
        counts = sorted(set(s['plies']))
        n = counts[-1]
        t = nested_table(rng, counts, n, nc=rng.choice([0, 0, 1, 2]))
        if t is None:
            continue
        red = rng.random() < .5
        tab = t if red else [t[counts.index(k)] for k in s['plies']]
        steps.append(observe(
            'gate_drops', {'pdl': t, 'nc': int(c.n_covering)
                           if c.covering else 0,
                           'spacing': bool(c.pdl_spacing),
                           'md': int(c.min_drop) if c.pdl_spacing else 0,
                           'bounds': strip_bounds(mp), 'reduced': red},
            as_int, check_ply_drop_rules, np.array(tab), mp, c, red))
    chk.conform('TraceBlending', bunch(steps, 60))


# --------------------------------------------------------------------------
# C11 groups
# --------------------------------------------------------------------------
def divide_step(counts, sym, nc, gmin, gmax):
    from src.BELLA.divide_panels import divide_panels
    kw = {'sym': sym}
    if nc:
        kw.update(covering=True, n_covering=nc)
    c = constraints(**kw)
    P = len(counts)
    ids = list(range(1, P + 1))
    s = {'plies': counts, 'ids': ids, 'nbrs': chain_nbrs(ids), 'sym': sym,
         'pweights': [1]*P, 'areas': [1]*P}
    mp = build(s, c)
    mp.from_mp_to_blending_strip(c, 1)
    par = Parameters(constraints=c, group_size_min=gmin, group_size_max=gmax)

    def enc(_):
        r = mp.reduced
        return {'sizes': as_ints(r.n_plies_per_group),
                'first': as_ints(r.n_first_plies),
                'n_groups': as_int(r.n_groups),
                'drops': [as_ints(p.n_ply_drops) for p in r.panels],
                'psizes': [as_ints(p.n_plies_per_group) for p in r.panels],
                'calc': [as_ints(mp.calc_ply_drops(k))
                         for k in range(as_int(r.n_groups))]}
    return observe('divide', {'counts': counts, 'sym': sym, 'nc': nc,
                              'gmin': gmin, 'gmax': gmax}, enc,
                   divide_panels, mp, par, c), mp, c, par


def check_C11(chk):
    rng = chk.rng
    steps = []
    # all single divisions in a range
    for n in range(1, tier(30, 60)):
        for gmin in range(1, tier(6, 9)):
            for gmax in range(gmin, gmin + tier(5, 8)):
                for sym in (True, False):
                    if rng.random() < tier(.25, .5):
                        steps.append(divide_step([n], sym, 0, gmin, gmax)[0])
    for _ in range(tier(1200, 12000)):
        sym = rng.random() < .6
        nc = rng.choice([0, 0, 1, 2])
        lo = max(2 * nc + 2, 4)
        P = rng.randint(1, 5)
        pool = list(range(lo, lo + rng.choice([8, 20, 60])))
        if sym and rng.random() < .6:
            par = rng.choice([0, 1])
            pool = [x for x in pool if x % 2 == par]
        counts = sorted(rng.sample(pool, min(P, len(pool))))
        if sym:
            odd = [x for x in counts if x % 2]
            if odd:
                counts = [x for x in counts if x % 2 or x < odd[0]]
        gmin = rng.randint(1, 8)
        gmax = gmin + rng.randint(0, 8)
        if rng.random() < .15:
            gmax = 10000
        steps.append(divide_step(counts, sym, nc, gmin, gmax)[0])
    chk.conform('TraceBlending', bunch(steps, 60))
    # LAYLA
    from src.LAYLA_V02.divide_laminate_sym import divide_laminate_sym
    from src.LAYLA_V02.divide_laminate_asym import divide_laminate_asym

    class Box:
        pass
    steps = []
    for _ in range(tier(900, 8000)):
        sym = rng.random() < .5
        n = rng.randint(1, rng.choice([20, 80, 250]))
        gmin = rng.randint(1, 8)
        gmax = gmin + rng.randint(0, 8)
        k = rng.randint(1, 3)
        step = rng.randrange(k)
        par, tar = Box(), Box()
        par.group_size_min = gmin
        par.group_size_max = np.array(
            [gmax if i == step else gmax + 1 + i for i in range(k)])
        tar.n_plies = n

        def enc(v):
            a, b, g = v
            return {'sizes': as_ints(a), 'first': as_ints(b),
                    'n_groups': as_int(g)}
        steps.append(observe(
            'layla_divide', {'plies': n, 'sym': sym, 'gmin': gmin,
                             'gmax': gmax}, enc,
            divide_laminate_sym if sym else divide_laminate_asym,
            par, tar, step))
    chk.conform('TraceBlending', bunch(steps, 60))


# --------------------------------------------------------------------------
# C12, C13 layouts
# --------------------------------------------------------------------------
class Clock:
    """every look at the clock takes one millisecond, so that the time
    limits of the code under test become limits on its iterations"""
    names = ('time', 'perf_counter', 'monotonic', 'process_time')

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in self.names}
        self.t = 1000.0
        for n in self.names:
            setattr(time, n, self.tick)
        return self

    def tick(self):
        self.t += .001
        return self.t

    def __exit__(self, *exc):
        for n, f in self.old.items():
            setattr(time, n, f)


def clocked(fn):
    def run(*a, **kw):
        with Clock():
            return fn(*a, **kw)
    return run


def pdls_step(rng, counts, sym, nc, gmin, gmax, spacing, md, n_ini,
              tg=.05, ta=.6, dam=0):
    from src.BELLA.divide_panels import divide_panels
    from src.BELLA.pdl_ini import create_initial_pdls
    kw = {'sym': sym, 'pdl_spacing': spacing}
    if spacing:
        kw['min_drop'] = md
    if nc:
        kw.update(covering=True, n_covering=nc)
    if dam:
        kw.update(dam_tol=True, dam_tol_rule=dam)
    c = constraints(**kw)
    nc = int(c.n_covering)
    P = len(counts)
    ids = list(range(1, P + 1))
    s = {'plies': counts, 'ids': ids, 'nbrs': chain_nbrs(ids), 'sym': sym,
         'pweights': [1]*P, 'areas': [1]*P}
    if P > 2 and rng.random() < .4:
        a, b = rng.sample(range(P), 2)
        s['nbrs'][a].append(ids[b])
    mp = build(s, c)
    mp.from_mp_to_blending_strip(c, 1)
    par = Parameters(constraints=c, group_size_min=gmin, group_size_max=gmax,
                     n_ini_ply_drops=n_ini, time_limit_group_pdl=tg,
                     time_limit_all_pdls=ta)
    try:
        divide_panels(mp, par, c)
    except Exception:
        return None
    r = mp.reduced
    sizes = [int(x) for x in r.n_plies_per_group]
    drops = [[int(x) for x in p.n_ply_drops] for p in r.panels]
    obj = ObjFunction(c)
    import random
    random.seed(rng.getrandbits(30))
    return observe(
        'pdls', {'counts': counts, 'sym': sym, 'nc': nc, 'sizes': sizes,
                 'drops': drops, 'spacing': spacing, 'md': md,
                 'n_ini': n_ini, 'bounds': strip_bounds(mp)},
        lambda v: [as_rows(x) for x in v], clocked(create_initial_pdls),
        mp, c, par, obj)


def check_C12(chk):
    from src.BELLA.pdl_ini import check_pdls_ini
    rng = chk.rng
    cfg = ('SPECIFICATION Spec\nCONSTANTS Width = %d\nMaxPanels = %d\n'
           'EmitCases = FALSE\nCHECK_DEADLOCK FALSE\nINVARIANTS Nested '
           'Renumbered Counts MirrorSame MoreSpacing MetIsZero SingleDrop '
           'GuideStacks\n' % (tier(6, 8), 3))
    chk.model('PdlGen', cfg, 'guide-based ply-drop layouts')
    steps, skipped = [], 0
    for _ in range(tier(260, 2200)):
        sym = rng.random() < .6
        nc = rng.choice([0, 0, 1, 2])
        dam = rng.choice([0, 0, 0, 1, 2, 3])
        P = rng.randint(1, 5)
        lo = rng.choice([8, 10, 12, 16])
        if sym:
            mode = rng.choice(['even', 'even', 'odd', 'mixed'])
            if mode == 'mixed':
                k = rng.randint(1, P)
                ev = sorted(rng.sample(range(lo, lo + 10, 2), min(k, 5)))
                od = sorted(rng.sample(range(ev[-1] + 1, ev[-1] + 11, 2),
                                       min(P - k, 5))) if P > k else []
                counts = ev + od
            else:
                o = int(mode == 'odd')
                counts = sorted(rng.sample(range(lo + o, lo + 14, 2), P))
        else:
            counts = sorted(rng.sample(range(lo, lo + 10), P))
        gmin = rng.randint(2, 5)
        gmax = gmin + rng.randint(1, 8)
        st = pdls_step(rng, counts, sym, nc, gmin, gmax, rng.random() < .8,
                       rng.randint(1, 4), rng.randint(1, 4), dam=dam)
        if st is None:
            skipped += 1
            continue
        steps.append(st)
    chk.note('infeasible_divisions_skipped', skipped)
    # size check of given layouts
    for _ in range(tier(300, 2500)):
        s = rnd_structure(rng, nmax=4, mixed=0, hi=14)
        c = constraints(sym=s['sym'])
        mp = build(s, c)
        mp.from_mp_to_blending_strip(c, 1)
        counts = sorted(set(s['plies']))
        pdls = []
        for _ in range(rng.randint(1, 3)):
            t = nested_table(rng, counts, counts[-1])
            if rng.random() < .15:
                r = rng.choice(t)
                q = rng.randrange(len(r))
                r[q] = 50 if r[q] == -1 else -1
            if rng.random() < .1:
                t = t[1:] if len(t) > 1 and rng.random() < .5 else t + [t[0]]
            pdls.append(t)
        steps.append(observe('check_pdls', {'counts': counts, 'pdls': pdls},
                             lambda v: 0, check_pdls_ini, mp,
                             [np.array(t) for t in pdls]))
    chk.conform('TraceBlending', bunch(steps, 12))


def check_C13(chk):
    from src.BELLA.pdl_group import randomly_pdl_guide
    from src.BELLA.pdl_ini import create_initial_pdls
    from src.BELLA.divide_panels import divide_panels
    import random
    rng = chk.rng
    for K in (1, 2, 3):
        chk.model('PdlStore', 'SPECIFICATION Spec\nCONSTANTS N = 4\nK = %d\n'
                  'MaxPen = 2\nMaxTime = %d\nCHECK_DEADLOCK FALSE\n'
                  'INVARIANTS ReserveBest NoDuplicate ResultDistinct '
                  'ResultSorted ResultBest ResultFull\nPROPERTY Ends\n' % (
                      K, tier(5, 7)), 'store of %d layouts' % K)
    steps = []
    nrep = tier(40, 300)
    for _ in range(nrep):
        # one group
        P = rng.randint(1, 3)
        n = rng.randint(3, 6 if P < 3 else 5)
        md = rng.randint(1, 6)
        spacing = rng.random() < .95
        c = constraints(sym=rng.random() < .5, pdl_spacing=True, min_drop=md)
        c.pdl_spacing = spacing
        counts = list(range(20, 20 + 2*P, 2))
        ids = list(range(1, P + 1))
        s = {'plies': counts, 'ids': ids, 'nbrs': chain_nbrs(ids),
             'sym': c.sym, 'pweights': [1]*P, 'areas': [1]*P}
        mp = build(s, c)
        mp.from_mp_to_blending_strip(c, 1)
        d = sorted([rng.randint(0, min(3, n - 1)) for _ in range(P - 1)]
                   + [0], reverse=True)
        if rng.random() < .15:
            d = [x + (1 if max(d) < n else 0) for x in d]
        k = rng.randint(1, 6)
        last = rng.random() < .5
        before = any_table(rng, P, rng.randint(1, 3)) \
            if rng.random() < .5 else None
        after = any_table(rng, P, rng.randint(1, 3)) \
            if rng.random() < .3 else None
        par = Parameters(constraints=c, group_size_min=1, group_size_max=50,
                         time_limit_group_pdl=1.2)
        random.seed(rng.getrandbits(30))
        kw = {}
        if before is not None:
            kw['pdl_before'] = np.array(before)
        if after is not None:
            kw['pdl_after'] = np.array(after)
        steps.append(observe(
            'pdl_group', {'n': n, 'drops': d, 'keep': k, 'md': md,
                          'spacing': spacing, 'before': before or [],
                          'after': after or [],
                          'mirror': bool(last and c.sym),
                          'bounds': strip_bounds(mp)},
            lambda v: [as_rows(x) for x in v], clocked(randomly_pdl_guide),
            boundaries=mp.reduced.boundaries, n_ply_drops=np.array(d),
            n_max=n, parameters=par, obj_func_param=ObjFunction(c),
            constraints=c, multipanel=mp, n_pdl_max=k, last_group=last,
            timeout=60, **kw))
    for _ in range(tier(25, 200)):
        # whole structure, one group, one sample per group search
        P = rng.randint(1, 3)
        sym = rng.random() < .5
        half = rng.randint(4, 6 if P < 3 else 5)
        u = 2 if sym else 1
        d = sorted(rng.sample(range(1, 4 if P < 3 else 3), P - 1),
                   reverse=True) + [0]
        counts = [u*(half - x) for x in d]
        md = rng.randint(1, 6)
        c = constraints(sym=sym, pdl_spacing=True, min_drop=md)
        ids = list(range(1, P + 1))
        s = {'plies': counts, 'ids': ids, 'nbrs': chain_nbrs(ids),
             'sym': sym, 'pweights': [1]*P, 'areas': [1]*P}
        mp = build(s, c)
        mp.from_mp_to_blending_strip(c, 1)
        k = rng.randint(1, 6)
        par = Parameters(constraints=c, group_size_min=1, group_size_max=50,
                         n_ini_ply_drops=k, time_limit_group_pdl=.0001,
                         time_limit_all_pdls=3.)
        divide_panels(mp, par, c)
        random.seed(rng.getrandbits(30))
        steps.append(observe(
            'pdl_whole', {'n': half, 'drops': d, 'keep': k, 'md': md,
                          'sym': sym, 'spacing': True,
                          'bounds': strip_bounds(mp)},
            lambda v: [as_rows(x) for x in v], clocked(create_initial_pdls),
            mp, c, par, ObjFunction(c), timeout=60))
    chk.conform('TraceBlending', bunch(steps, 3))


# --------------------------------------------------------------------------
# C14 conversions, C15 Excel
# --------------------------------------------------------------------------
def group_split(rng, w):
    cut = sorted(rng.sample(range(1, w), min(w - 1, rng.randint(0, 2)))) \
        if w > 1 else []
    return list(zip([0] + cut, cut + [w]))


def check_C14(chk):
    from src.BELLA import format_pdl as fp
    from src.BELLA import pdl_tools as pt
    rng = chk.rng
    steps = []
    cfg = ('SPECIFICATION Spec\nCONSTANTS Width = %d\nMaxPanels = %d\n'
           'EmitCases = TRUE\nCHECK_DEADLOCK FALSE\nINVARIANTS Nested '
           'Renumbered Counts GuideStacks Emit\n' % (tier(6, 7), 3))
    tables = core.gen_lines(chk.model('PdlGen', cfg,
                                      'guide-based ply-drop layouts'))
    rng.shuffle(tables)
    tables = tables[:tier(400, 3000)]
    for _ in range(tier(400, 3000)):
        n = rng.randint(3, 20)
        P = rng.randint(1, 5)
        counts = sorted(rng.randint(max(1, n // 2), n)
                        for _ in range(P - 1)) + [n]
        tables.append(nested_table(rng, counts, n, numbered=True))
    rowsenc = as_rows
    for t in tables:
        P, n = len(t), len(t[0])
        pdl = np.array(t)
        guide = rnd_stack(rng, n, A8)
        steps.append(observe('guide_to_sst', {'guide': guide, 'pdl': t},
                             rowsenc, fp.convert_ss_guide_to_sst,
                             arr(guide), pdl))
        sst = [[g if x != -1 else -1 for g, x in zip(guide, r)] for r in t]
        ss = [[x for x in r if x != -1] for r in sst]
        src = np.array(sst) if rng.random() < .5 else [arr(r) for r in sst]
        steps.append(observe('sst_to_ss', {'sst': sst}, rowsenc,
                             fp.convert_sst_to_ss, src))
        if all(x != -1 for x in t[-1]):
            steps.append(observe('ss_to_sst', {'guide': guide, 'pdl': t},
                                 rowsenc, fp.convert_ss_to_sst,
                                 [arr(s) for s in ss], pdl))
            ref = rng.randrange(P)
            new = rnd_stack(rng, len(ss[ref]), A8)
            steps.append(observe(
                'ref_to_sst', {'guide': guide, 'pdl': t, 'ref': ref + 1,
                               'ss': new}, rowsenc,
                fp.convert_ss_ref_to_reduced_sst, arr(new), ref, pdl,
                [arr(s) for s in ss]))
        row = rng.choice(t)
        k = len([x for x in row if x != -1])
        pos = rng.sample(range(1, k + 1), rng.randint(0, k))
        steps.append(observe('pos_ref_to_sst', {'row': row, 'pos': pos},
                             as_ints, fp.pos_in_ss_ref_to_pos_in_sst,
                             arr(pos) if rng.random() < .5 else pos,
                             arr(row)))
        pos = rng.sample(range(1, n + 1), rng.randint(0, n))
        steps.append(observe('pos_sst_to_panel', {'row': row,
                                                  'pos': sorted(pos)},
                             as_ints, fp.pos_in_sst_to_pos_in_panel,
                             sorted(pos), arr(row)))
        def enc2(v):
            return [0 if x > 1e9 else as_int(x) for x in v]
        steps.append(observe('pos_sst_to_panel2', {'row': row, 'pos': pos},
                             enc2, fp.pos_in_sst_to_pos_in_panel_2, pos,
                             arr(row)))
        lists = [[i for i, x in enumerate(r) if x == -1] for r in t]
        for l in lists:
            rng.shuffle(l)
        steps.append(observe('format_drops', {'lists': lists, 'n': n},
                             rowsenc, pt.format_ply_drops, lists, n))
        marks = [[-1 if x == -1 else rng.randint(0, 30) for x in r]
                 for r in t]
        steps.append(observe('format_drops2', {'pdl': marks}, rowsenc,
                             pt.format_ply_drops2, np.array(marks)))
        # groups put together
        sym = rng.random() < .5
        mid = sym and rng.random() < .4
        counts = [len([x for x in r if x != -1]) for r in t]
        if len(set(counts)) < P or counts[-1] < n:
            continue
        groups = [[[(-1 if x == -1 else i) for i, x in enumerate(r[a:b])]
                   for r in t] for a, b in group_split(rng, n)]
        if sym:
            if mid:
                if not all(x != -1 for x in [r[-1] for r in t]):
                    # the middle ply may only leave the thinner panels
                    pass
                full = [2*len([x for x in r[:-1] if x != -1])
                        + (r[-1] != -1) for r in t]
            else:
                full = [2*k for k in counts]
            odd = [x for x in full if x % 2]
            if odd and any(x % 2 == 0 and x > odd[0] for x in full):
                continue
            if len(set(full)) < P or full != sorted(full):
                continue
            c = constraints(sym=True)
            top, bot = list(groups), []
        else:
            full = counts
            c = constraints(sym=False)
            top, bot = [], []
            for q, g in enumerate(groups):
                top.append(g if q % 2 == 0 else [])
                bot.append([] if q % 2 == 0 else g)
        ids = list(range(1, P + 1))
        s = {'plies': full, 'ids': ids, 'nbrs': chain_nbrs(ids), 'sym': sym,
             'pweights': [1]*P, 'areas': [1]*P}
        mp = build(s, c)
        mp.from_mp_to_blending_strip(c, 1)
        conv = lambda l: [np.array(g) if g else None for g in l]
        args = {'counts': full, 'sym': sym, 'mid': bool(mid), 'top': top,
                'bottom': bot}
        steps.append(observe('pdl_of_groups', args, rowsenc,
                             pt.global_pdl_from_local_pdl, mp, sym,
                             conv(top), None if sym else conv(bot)))
        # the layout read back from a stacking sequence table
        nc = rng.choice((0, 1, 2))
        mids = sym and mid
        tab = [[g if x != -1 else -1 for g, x in zip(guide, r)] for r in t]
        if nc and any(r[i] == -1 for r in tab for i in range(min(nc, n))):
            nc = 0
        if nc and not sym and (n < 2*nc or any(
                r[n - 1 - i] == -1 for r in tab for i in range(nc))):
            nc = 0
        if nc and n <= nc:
            nc = 0
        if sym:
            tab = [r + r[::-1][1 if mids else 0:] for r in tab]
        c = (constraints(sym=sym, covering=True, n_covering=nc) if nc
             else constraints(sym=sym))
        wide = [rng.randint(1, 40) for _ in tab]
        for panel, a in zip(mp.panels, wide):
            panel.area = a/10
        dens = rng.choice([1, 250, 300])
        steps.append(observe(
            'table_weight', {'sst': tab, 'areas': wide, 'dens': dens},
            lambda v: as_scaled(v, 10), mp.calc_weight_from_sst,
            np.array(tab), dens))
        steps.append(observe(
            'pdl_of_table', {'sst': tab, 'sym': sym}, rowsenc,
            lambda a, b, d: pt.input_pdl_from_sst(a, b, d)[0],
            np.array(tab), mp, c))
    chk.conform('TraceBlending', bunch(steps, 60))


def check_C15(chk):
    import pandas as pd
    from src.BELLA.pdl_ini import read_pdls_excel
    from src.divers.excel import append_df_to_excel
    rng = chk.rng
    steps = []

    def roundtrip(path, pdls, native):
        if os.path.exists(path):
            os.remove(path)
        if native:
            for i, pdl in enumerate(pdls):
                append_df_to_excel(path, pd.DataFrame(pdl),
                                   'pdl' + str(i + 1), index=False,
                                   header=False)
        else:
            with pd.ExcelWriter(path) as w:
                pd.DataFrame([[1]]).to_excel(w, sheet_name='Parameters')
                for i, pdl in enumerate(pdls):
                    pd.DataFrame(pdl).to_excel(
                        w, sheet_name='pdl' + str(i + 1), index=False,
                        header=False)
        return read_pdls_excel(path)
    for i in range(tier(60, 500)):
        n = rng.randint(3, 16)
        P = rng.randint(1, 5)
        pdls = []
        # files of more layouts than one digit can number, too
        for _ in range(rng.randint(8, 30) if i % 10 == 5 else
                       rng.randint(0 if i % 9 == 0 else 1, 4)):
            counts = sorted(rng.randint(max(1, n // 2), n)
                            for _ in range(P - 1)) + [n]
            pdls.append(nested_table(rng, counts, n))
        path = os.path.join(chk.scratch, 'p%d.xlsx' % i)
        native = bool(pdls) and rng.random() < .5
        steps.append(observe('excel_pdls', {'pdls': pdls, 'native': native},
                             lambda v: [as_rows(x) for x in v], roundtrip,
                             path, pdls, native))
        if os.path.exists(path):
            os.remove(path)
    chk.conform('TraceBlending', bunch(steps, 20))
