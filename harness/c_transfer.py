"""C31: input files carry set-ups to the optimiser."""
import builtins
import contextlib
import io
import os
import sys
import tempfile

import numpy as np

import core
from core import observe, as_int, as_ints, as_scaled, tier, gen_lines, Odd
from bella import A4, constraints
from c_search import mc_module
from c_setup import enc_rules, rnd_draft, py, FIELDS

from src.BELLA.constraints import Constraints
from src.BELLA.materials import Material
from src.BELLA.multipanels import MultiPanel
from src.BELLA.panels import Panel
from src.BELLA.obj_function import ObjFunction

SCRIPTS = {'plain': 'run_BELLA_from_input_file_SST_1.py',
           'loaded': 'run_BELLA_from_input_file_horseshoe.py'}


class Stage:
    """runs a script of the repository in a scratch directory: the files it
    reads are looked up in `files` (by name) or in the repository, nothing is
    deleted, and the optimiser is replaced by `optimiser` if given"""

    def __init__(self, where, files=None, optimiser=None, answer=None):
        self.where, self.files, self.opt = where, files or {}, optimiser
        self.answer, self.asked = answer, 0

    def say(self, *_):
        self.asked += 1
        return self.answer

    def remove(self, path):
        """deletes files of the scratch directory only"""
        if os.path.dirname(os.path.realpath(path)) != \
                os.path.realpath(self.where):
            raise Odd('%s is deleted' % path)
        os.unlink(path)

    def path(self, f):
        f = str(f)
        base = os.path.basename(f.replace('\\', '/'))
        for k, v in self.files.items():
            if base.startswith(k):
                return v(base) if callable(v) else v
        if f.startswith('/BELLA/'):
            return os.path.join(core.REPO, f[len('/BELLA/'):])
        return f

    def run(self, script):
        import pandas as pd
        import src.BELLA.optimiser as optimiser
        import src.divers.excel as excel
        olds = [(pd, 'read_excel', pd.read_excel),
                (optimiser, 'BELLA_optimiser', optimiser.BELLA_optimiser),
                (excel, 'delete_file', excel.delete_file)]
        here = os.getcwd()
        old_read = pd.read_excel
        with open(os.path.join(core.REPO, script), newline='') as f:
            code = compile(f.read().replace('\r', ''), script, 'exec')
        sys_path = list(sys.path)
        names = {'__name__': '__main__', '__file__': script}
        try:
            pd.read_excel = lambda f, *a, **k: old_read(self.path(f), *a, **k)
            if self.opt:
                optimiser.BELLA_optimiser = self.opt
            if self.answer is None:
                excel.delete_file = lambda f: 0
            else:
                olds += [(os, 'remove', os.remove),
                         (builtins, 'input', builtins.input)]
                os.remove, builtins.input = self.remove, self.say
            os.chdir(self.where)
            with contextlib.redirect_stdout(io.StringIO()):
                exec(code, names)
        finally:
            os.chdir(here)
            sys.path[:] = sys_path
            for m, k, v in olds:
                setattr(m, k, v)
        return names


class Stop(Exception):
    "the optimiser has been started"


def start(script, book, where):
    """what the script gives the optimiser"""
    got = []

    def optimiser(*a, **kw):
        names = ('multipanel', 'parameters', 'obj_func_param', 'constraints',
                 'filename', 'mat', 'filename_initial_pdls')
        got.append(dict(zip(names, a), **kw))

    Stage(where, {'input_file_': book}, optimiser).run(script)
    if len(got) != 1:
        raise Odd('the optimiser was started %d times' % len(got))
    g = got[0]
    mp = g['multipanel']
    mp.filter_target_lampams(g['constraints'], g['obj_func_param'])
    mp.filter_lampam_weightings(g['constraints'], g['obj_func_param'])
    return (mp, g['obj_func_param'], g['constraints'],
            g.get('mat', g.get('materials')))


ALL = ('run_BELLA_2_panels.py',) + tuple(SCRIPTS.values())


def overwrite_step(script, answer):
    """a run whose results file is there already"""
    import openpyxl
    book = os.path.join(core.REPO, 'input-files', 'input_file_%s.xlsx' % (
        'horseshoe' if script == SCRIPTS['loaded'] else 'SST-40-60'))

    def fn():
        with tempfile.TemporaryDirectory(prefix='bella_ow_') as d:
            seen = []

            def optimiser(*a, **kw):
                f = kw['filename'] if 'filename' in kw else a[4]
                seen.append(os.path.basename(str(f)))
                old = False
                if os.path.exists(f):
                    old = 'former' in openpyxl.load_workbook(f).sheetnames
                seen.append(old)
                raise Stop
            def once(answer):
                st = Stage(d, {'input_file_': book}, optimiser, answer)
                try:
                    st.run(script)
                except (Stop, SystemExit):
                    pass
                return st.asked
            asked = [once('y')]
            name, before = seen[0], seen[1]
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            wb = openpyxl.Workbook()
            wb.active.title = 'former'
            wb.save(os.path.join(d, name))
            del seen[:]
            asked.append(once(answer))
            left = os.path.exists(os.path.join(d, name)) and openpyxl. \
                load_workbook(os.path.join(d, name)).sheetnames == ['former']
            return {'asked': asked, 'started': int(bool(seen)),
                    'old': int(seen[1]) if seen else int(left)}
    return observe('overwrite', {'script': script, 'yes': int(answer == 'y')},
                   lambda v: v, fn, timeout=100)


def enc_setup(x, script):
    mp, o, c, m = x
    ps = []
    for p in mp.panels:
        d = {'id': as_int(p.ID), 'nbrs': as_ints(p.neighbour_panels),
             'n': as_int(p.n_plies), 'w': as_scaled(p.weighting, 1000),
             'tg': [as_scaled(v, 10**6) for v in p.lampam_target],
             'wt': [as_scaled(v, 10**6) for v in p.lampam_weightings]}
        if script == 'loaded':
            d.update(lx=as_scaled(p.length_x, 1000),
                     ly=as_scaled(p.length_y, 1000),
                     nx=as_scaled(p.N_x, 1000), ny=as_scaled(p.N_y, 1000))
        ps.append(d)
    return {'rules': enc_rules('bella_rules')(c)['v'],
            'coefs': {k: as_scaled(getattr(o, 'coeff_' + k), 1000)
                      for k in ('10', 'contig', 'diso', 'oopo', 'spacing')},
            'mat': {'E11': as_scaled(m.E11/1e6, 1),
                    'E22': as_scaled(m.E22/1e6, 1),
                    'G12': as_scaled(m.G12/1e6, 1),
                    'nu12': as_scaled(m.nu12, 1000),
                    'area': as_scaled(m.density_area, 100),
                    'ply': as_scaled(m.ply_t, 1e8)}, 'panels': ps}


def rnd_rules(rng):
    while True:
        d, _ = rnd_draft(rng, 'bella_rules')
        kw = {f: py(d[f]) for f in d if f != 'angles'}
        try:
            return Constraints(set_of_angles=np.array(d['angles']), **kw)
        except Exception as e:      # an inadmissible draft
            if type(e).__module__ == 'builtins' and type(e) is not Exception:
                raise


def write(book, x, order):
    from src.BELLA import save_set_up as s
    mp, o, c, m = x
    for sh in order:
        if sh == 'Panels':
            s.save_multipanel(book, mp, o)
        elif sh == 'Constraints':
            s.save_constraints_BELLA(book, c)
        elif sh == 'Materials':
            s.save_materials(book, m)
        else:
            s.save_objective_function_BELLA(book, o)


def draw(rng, shape, c):
    """a set-up with the structure of a generated history"""
    o = ObjFunction(c, **{'coeff_' + k: rng.choice(
        [0, 1, 2, 10, 0.5, 1.25]) for k in
        ('10', 'contig', 'diso', 'oopo', 'spacing')})
    m = Material(E11=rng.randint(100, 150)*1e9, E22=rng.randint(5, 12)*1e9,
                 nu12=rng.choice([0.2, 0.3, 0.32]), G12=4.25e9,
                 density_area=rng.choice([300, 250.5]),
                 ply_t=rng.choice([0.0002, 0.000125]))
    ps = []
    for p in shape:
        wt = [rng.choice([0, 1, 1, 2, 0.5]) for _ in range(12)]
        wt[8] = 1
        ps.append(Panel(
            p['id'], c, rng.randint(6, 40), neighbour_panels=p['nbrs'],
            lampam_target=np.array([rng.randint(-100, 100)/100
                                    for _ in range(12)]),
            lampam_weightings=np.array(wt, float),
            weighting=rng.choice([1, 2, 0.5]),
            length_x=rng.randint(1, 30)/10, length_y=rng.randint(1, 30)/10,
            N_x=rng.choice([0, 100, -250.5]), N_y=rng.choice([1, -3, 0.25])))
    mp = MultiPanel(ps)
    mp.filter_target_lampams(c, o)
    mp.filter_lampam_weightings(c, o)
    return mp, o, c, m


def handed_step(rng, h):
    c = rnd_rules(rng)
    x = draw(rng, h['panels'], c)
    script = h['script']

    def fn():
        out, y = [], x
        with tempfile.TemporaryDirectory(prefix='bella_in_') as d:
            for k in range(h['runs']):
                book = os.path.join(d, 'book%d.xlsx' % k)
                write(book, y, h['order'])
                y = start(SCRIPTS[script], book, d)
                out.append(enc_setup(y, script))
                if script == 'plain':   # the sizes are left open
                    for p, q in zip(y[0].panels, x[0].panels):
                        p.length_x, p.length_y = q.length_x, q.length_y
                        p.area = q.area
        return out
    return observe('handed', {'given': enc_setup(x, 'loaded'),
                              'script': script, 'runs': h['runs']},
                   lambda v: v, fn, timeout=60)


def histories(chk):
    mod = mc_module(chk, 'MCTransfer', 'TransferGen', {'MyIds': [3, 1, 7]})
    res = chk.model(
        mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
        ' MaxPanels = 3\n Ids <- MyIds\n MaxRuns = 2\n EmitCases = TRUE\n'
        'INVARIANT Arrived Complete Linked Emit\n', label='histories')
    found = gen_lines(res)
    found.sort(key=str)
    return found


SHIPPED = {'SST-40-60': 'plain', 'SST-80-120': 'plain',
           'SST-120-180': 'plain', 'horseshoe': 'loaded',
           'horseshoe2': 'loaded'}
MAKERS = {'SST-120-180': 'create_input_file_SST.py',
          'horseshoe': 'create_input_file_horseshoe.py',
          'horseshoe2': 'create_input_file_horseshoe2.py'}


def cells(book, script):
    import openpyxl
    rows = list(openpyxl.load_workbook(book)['Panels'].values)
    out = []
    for row in rows[1:]:
        x = dict(zip(rows[0], row))
        if x['Panel ID'] is None:       # an empty row
            continue
        d = {'id': as_int(x['Panel ID']), 'n': as_int(x['Number of plies']),
             'nbrs': [int(v) for v in str(
                 x['Neighbour panel IDs'] or '').split()],
             'tg': [as_scaled(x['lampam_target[%d]' % k], 10**6)
                    for k in range(1, 13)]}
        if script == 'loaded':
            d.update(lx=as_scaled(x['Length_x'], 1000),
                     ly=as_scaled(x['Length_y'], 1000),
                     nx=as_scaled(x['N_x'], 1000),
                     ny=as_scaled(x['N_y'], 1000))
        out.append(d)
    return out


def shipped_step(name):
    book = os.path.join(core.REPO, 'input-files', 'input_file_%s.xlsx' % name)
    script = SHIPPED[name]

    def fn():
        with tempfile.TemporaryDirectory(prefix='bella_in_') as d:
            old = made = enc_setup(start(SCRIPTS[script], book, d), script)
            if name in MAKERS:
                Stage(d).run('input-files/' + MAKERS[name])
                mine = os.path.join(d, 'input_file_%s.xlsx' % name)
                made = enc_setup(start(SCRIPTS[script], mine, d), script)
        return {'shipped': old, 'made': made}
    return observe('shipped', {'name': name, 'cells': cells(book, script)},
                   lambda v: v, fn, timeout=100)


def formatted_step(name):
    import openpyxl
    fxi = os.path.join(core.REPO, 'FXI-results', 'result_FXI_%s.xlsx' % name)
    rows = list(openpyxl.load_workbook(fxi)['Best result FXI'].values)
    stacks = [[int(v) for v in col if v is not None]
              for col in zip(*rows[1:])]
    script = 'FXI-results/format_restults_FXI_%s.py' % (
        'SST_1' if SHIPPED[name] == 'plain' else 'horseshoe')

    def fn():
        import pandas as pd
        with tempfile.TemporaryDirectory(prefix='bella_fxi_') as d:
            Stage(d, {
                'input_file_': os.path.join(
                    core.REPO, 'input-files', 'input_file_%s.xlsx' % name),
                'result_FXI_': fxi}).run(script)
            f, = [f for f in os.listdir(d) if f.endswith('.xlsx')]
            return pd.read_excel(os.path.join(d, f),
                                 sheet_name='Best Result')

    def enc(t):
        ply = lambda s: [as_int(float(x)) for x in str(s).split()]
        return [{'n': as_int(n), 'sst': ply(a), 'ss': ply(b)} for n, a, b in
                zip(t['n_plies'],
                    t['stacking sequences with ply drops included'],
                    t['stacking sequences'])]
    return observe('formatted', {'name': name, 'cells': stacks}, enc, fn,
                   timeout=100)


def example_step():
    def fn():
        with tempfile.TemporaryDirectory(prefix='bella_ex_') as d:
            names = Stage(d).run('run_BELLA_2_panels.py')
        return names['result'], names['multipanel']

    def enc(v):
        r, mp = v
        return {'n': [as_int(p.n_plies) for p in mp.panels],
                'ss': [as_ints(s) for s in r.ss],
                'sst': [as_ints(s) for s in r.sst]}
    return observe('example', {}, enc, fn, timeout=100)


def check_C31(chk):
    rng = chk.rng
    hs = histories(chk)
    chk.note('histories_generated', len(hs))
    if len(hs) > tier(150, 2000):
        hs = rng.sample(hs, tier(150, 2000))
    steps = [handed_step(rng, h) for h in hs]
    steps += [shipped_step(n) for n in SHIPPED]
    steps += [formatted_step(n) for n in SHIPPED]
    steps.append(example_step())
    steps += [overwrite_step(s, a) for s in ALL for a in "yn"]
    chk.conform('TraceTransfer', [
        {'id': 'run%d' % k, 'c': {}, 'steps': steps[k:k + 10]}
        for k in range(0, len(steps), 10)])
