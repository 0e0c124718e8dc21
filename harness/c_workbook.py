"""C32: workbooks keep what is written to them."""
import builtins
import contextlib
import io
import os
import tempfile

import numpy as np

import core
from core import observe, tier, gen_lines, Odd
from c_search import mc_module

from src.divers import excel

SIZES = [[2, 2], [1, 3], [4, 1]]
NAMES = ['Best design', 'B']
YES = ['y', 'Y', 'yes', 'Yes', 'YES']
NO = ['n', 'N', 'no', '', ' ', 'yep', 'ye', 'oui', 'yy', '1', 'nYes', 'yES']


def token(v):
    if v is None:
        return ''
    if isinstance(v, (bool, np.bool_)):
        return 'b%d' % v
    if isinstance(v, (int, float, np.integer, np.floating)):
        return '' if v != v else '%.12g' % v
    if isinstance(v, str):
        return 's' + v if v else ''
    raise Odd('a cell holds %r' % (v,))


def table(rng, rows, cols):
    """a table of the given size with columns of all kinds"""
    import pandas as pd
    kinds = {
        'int': lambda: rng.randint(-99, 999),
        'float': lambda: rng.choice([rng.uniform(-2, 2), 1e-7, 1.5e11, -0.25,
                                     float('nan')]),
        'str': lambda: rng.choice(['x', '0', ' 45  -45', 'stack', '12.5', None,
                                   'long text ' * 3, 'y']),
        'bool': lambda: rng.random() < 0.5,
        'any': lambda: rng.choice([1, 0, True, False, 'a', 0.5, None])}
    heads = rng.sample(['a', 'n_plies', 'ss', 'lampam[1]', 'Weight', 'zero'],
                       cols)
    d = pd.DataFrame(index=rng.sample(range(20), rows))
    for h in heads:
        k = rng.choice(sorted(kinds))
        vals = [kinds[k]() for _ in range(rows)]
        d[h] = pd.Series(vals, index=d.index,
                         dtype=object if k in ('any', 'str') else None)
    if rng.random() < 0.3:
        d.index = ['row %d' % i for i in d.index]
    return d


def enc_table(d):
    return {'head': [token(h) for h in d.columns],
            'lab': [token(i) for i in d.index],
            'body': [[token(d.iat[r, c]) for c in range(d.shape[1])]
                     for r in range(d.shape[0])]}


def read(name):
    """the book, cell by cell; [] if there is none"""
    import openpyxl
    if not os.path.exists(name):
        return []
    out = []
    for s in openpyxl.load_workbook(name):
        cells = [[c.row, c.column, token(c.value)]
                 for row in s.iter_rows() for c in row]
        # an empty sheet has a row without anything
        if all(c[2] == '' for c in cells) and s.max_row == 1:
            cells = []
        out.append({'name': s.title, 'cells': cells})
    return out


def append_step(rng, book, h):
    d = table(rng, *SIZES[h['table'] - 1])
    before, copy = read(book), d.copy(deep=True)
    header, index = rng.random() < 0.6, rng.random() < 0.6
    kw = {'header': header, 'index': index}
    if h['at'] >= 0:
        kw['startrow'] = h['at']
    if h['fresh']:
        kw['truncate_sheet'] = True
    if rng.random() < 0.2:
        kw['engine'] = 'openpyxl'

    def fn():
        excel.append_df_to_excel(book, d, NAMES[h['sheet'] - 1], **kw)
        return {'book': read(book), 'there': int(os.path.exists(book)),
                'kept': int(d.equals(copy) and list(d.columns)
                            == list(copy.columns)
                            and list(d.index) == list(copy.index))}
    return observe('append', {
        'before': before, 'sheet': NAMES[h['sheet'] - 1],
        'table': enc_table(d), 'header': int(header), 'index': int(index),
        'at': h['at'], 'fresh': int(h['fresh'])}, lambda v: v, fn)


def widths(book):
    import openpyxl
    out = []
    for s in openpyxl.load_workbook(book):
        cells = [c for row in s.iter_rows() for c in row
                 if c.value is not None]
        from openpyxl.utils import get_column_letter
        out.append({
            'width': [int(s.column_dimensions[get_column_letter(c)].width)
                      for c in range(1, s.max_column + 1)],
            'col': [c.column for c in cells],
            'len': [len(str(c.value)) for c in cells],
            'centred': int(all(c.alignment.horizontal == 'center'
                               for c in cells))})
    return out


def fit_step(rng, book, h):
    before = read(book)

    def fn():
        excel.autofit_column_widths(book)
        return {'book': read(book), 'widths': widths(book)}
    return observe('fit', {'before': before}, lambda v: v, fn)


def delete_step(rng, book, h):
    answer = rng.choice(YES if h['answer'] == 'y' else NO)
    before = read(book)
    where = os.path.dirname(book)
    there = int(os.path.exists(book))

    def files():
        return sorted(f for f in os.listdir(where)
                      if f != os.path.basename(book))

    def fn():
        asked, ended, others = [], 0, files()
        old, remove = builtins.input, os.remove

        def contained(f, *a, **k):
            if os.path.dirname(os.path.realpath(f)) != os.path.realpath(where):
                raise Odd('deletes %r' % (f,))
            remove(f, *a, **k)
        builtins.input = lambda m='': (asked.append(m), answer)[1]
        os.remove = contained
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                excel.delete_file(book)
        except SystemExit:
            ended = 1
        finally:
            builtins.input, os.remove = old, remove
        return {'book': read(book), 'there': int(os.path.exists(book)),
                'asked': len(asked), 'ended': ended,
                'others': int(files() == others)}
    return observe('delete', {'before': before, 'there': there,
                              'answer': answer}, lambda v: v, fn)


STEPS = {'append': append_step, 'fit': fit_step, 'delete': delete_step}


def replay(rng, hist):
    steps = []
    with tempfile.TemporaryDirectory(prefix='bella_book_') as d:
        book = os.path.join(d, rng.choice(['out.xlsx', 'results of x.xlsx']))
        for other in ('other.xlsx', 'outx.xlsx'):
            open(os.path.join(d, other), 'w').close()
        for h in hist:
            steps.append(STEPS[h['op']](rng, book, h))
            if steps[-1]['k'] != 'ok':
                break
    return steps


def check_C32(chk):
    rng = chk.rng
    n = tier(3, 4)
    mod = mc_module(chk, 'MCWorkbook', 'WorkbookGen', {
        'MyTables': SIZES, 'MySheets': {1, 2}, 'MyStarts': {0, 3}})
    res = chk.model(
        mod, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
        ' Tables <- MyTables\n SheetNames <- MySheets\n Starts <- MyStarts\n'
        ' Steps = %d\n EmitCases = %s\nINVARIANT Frame Below Read Gone Empty '
        'Emit\n' % (3, 'TRUE'), label='histories')
    hs = gen_lines(res)
    hs.sort(key=str)
    chk.note('histories_generated', len(hs))
    # histories that delete first are alike: prefer those that build up a book
    rich = [h for h in hs if sum(x['op'] == 'append' for x in h['hist']) > 1]
    poor = [h for h in hs if sum(x['op'] == 'append' for x in h['hist']) < 2]
    pick = rng.sample(rich, tier(180, 3000)) + rng.sample(
        poor, min(len(poor), tier(60, 400)))
    traces = []
    for i, h in enumerate(pick):
        hist = h['hist']
        if rng.random() < 0.5:      # one history after the other
            hist = hist + rng.choice(pick)['hist']
        traces.append({'id': 'use%d' % i, 'c': {}, 'steps': replay(rng, hist)})
    chk.conform('TraceWorkbook', traces)
