"""Common machinery: calling the code under test, recording traces, running
TLC on specifications and traces, reporting verdicts and evidence."""
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import contextlib
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BELLA_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')


def tier(quick, thorough):
    return thorough if THOROUGH else quick


# --------------------------------------------------------------------------
# calling the code under test
# --------------------------------------------------------------------------
class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


_overdue = [0]


def call(fn, *args, timeout=40.0, **kwargs):
    """Runs one call of the code under test: ('ok', value) or
    ('exc', exception class name, message). Output is swallowed. The limit
    is in seconds of processor time, so that a busy machine does not matter;
    it is shorter once a call has exceeded it."""
    if _overdue[0]:
        timeout = min(timeout, 15.0)
    old = [signal.signal(s, _alarm) for s in (signal.SIGALRM,
                                              signal.SIGPROF)]
    signal.setitimer(signal.ITIMER_PROF, timeout)
    signal.setitimer(signal.ITIMER_REAL, max(200.0, 4*timeout))
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            try:
                val = fn(*args, **kwargs)
                return ('ok', val, '')
            except CallTimeout:
                _overdue[0] += 1
                return ('exc', 'Timeout', 'no answer in %gs' % timeout)
            except KeyboardInterrupt:
                raise
            except BaseException as exc:   # every outcome is an observation
                return ('exc', type(exc).__name__, str(exc)[:300])
    except CallTimeout:
        _overdue[0] += 1
        return ('exc', 'Timeout', 'no answer in %gs' % timeout)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])


class Odd(Exception):
    """result of an unexpected shape or type"""


def as_int(v):
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise Odd('not a scalar: %r' % (v,))
        v = v.reshape(-1)[0]
    if isinstance(v, (int, np.integer)):
        v = int(v)
    elif isinstance(v, (float, np.floating)):
        if v != v or v in (float('inf'), float('-inf')):
            raise Odd('not finite: %r' % (v,))
        if abs(v - round(v)) > 1e-9:
            raise Odd('not an integer: %r' % (v,))
        v = int(round(v))
    else:
        raise Odd('not a number: %r' % (v,))
    if abs(v) > 2**31 - 2:
        raise Odd('too large: %r' % (v,))
    return v


def as_bool(v):
    import numpy as np
    if isinstance(v, np.ndarray) and v.size == 1:
        v = v.reshape(-1)[0]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)) and v in (0, 1):
        return bool(v)
    raise Odd('not a boolean: %r' % (v,))


def as_ints(v):
    if v is None:
        raise Odd('None')
    try:
        return [as_int(x) for x in v]
    except TypeError:
        raise Odd('not a sequence: %r' % (v,))


def as_rows(v):
    if v is None:
        raise Odd('None')
    try:
        return [as_ints(x) for x in v]
    except TypeError:
        raise Odd('not a table: %r' % (v,))


def as_scaled(v, scale=1000000):
    """float -> nearest integer of v*scale (32-bit); nan/inf are odd"""
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise Odd('not a scalar: %r' % (v,))
        v = v.reshape(-1)[0]
    try:
        v = float(v)
    except (TypeError, ValueError):
        raise Odd('not a number: %r' % (v,))
    if v != v or v in (float('inf'), float('-inf')):
        raise Odd('not finite: %r' % (v,))
    r = int(round(v * scale))
    if abs(r) > 2**31 - 2:
        raise Odd('too large: %r' % (v,))
    return r


def scaled(scale=1000000):
    return lambda v: as_scaled(v, scale)


def scaled_seq(scale=1000000):
    def enc(v):
        if v is None:
            raise Odd('None')
        try:
            return [as_scaled(x, scale) for x in v]
        except TypeError:
            raise Odd('not a sequence: %r' % (v,))
    return enc


def observe(op, args, enc, fn, *a, timeout=40.0, **kw):
    """One observed call as a trace step: k is "ok", "exc" or "odd";
    x names the exception; r is the encoded result."""
    out = call(fn, *a, timeout=timeout, **kw)
    step = {'op': op}
    step.update(args)
    if out[0] == 'ok':
        try:
            step['r'] = enc(out[1])
            step['k'] = 'ok'
            step['x'] = ''
        except Odd as exc:
            step.update(k='odd', x=str(exc)[:200], r=0)
        except CallTimeout:
            raise
        except Exception as exc:
            step.update(k='odd', x=('%s: %s' % (
                type(exc).__name__, exc))[:200], r=0)
    else:
        step.update(k='exc', x=out[1] + (': ' + out[2] if out[2] else ''),
                    r=0)
    return step


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class MachineryError(Exception):
    pass


class Scratch:
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix='bella_verif_')

    def __enter__(self):
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def run_tlc(module, cfg, workdir, env=None, workers=8, timeout=850,
            extra=(), heap='6g', dot=None):
    """Runs TLC on spec/<module>.tla with the text of a configuration."""
    tag = '%s_%d' % (module, int(time.time() * 1e6) % 10**9)
    cfgfile = os.path.join(workdir, tag + '.cfg')
    with open(cfgfile, 'w') as f:
        f.write(cfg)
    meta = os.path.join(workdir, tag + '_meta')
    cmd = ['timeout', str(timeout), 'java', '-XX:+UseParallelGC',
           '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC,
           '-cp', JARS, 'tlc2.TLC', '-config', cfgfile, '-metadir', meta,
           '-workers', str(workers), '-noGenerateSpecTE',
           '-lncheck', 'final'] + list(extra) + [
               os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    out = p.stdout
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ms = re.findall(r'The number of states generated: (\d+)', out)
    if ms and not m:
        gen = dist = int(ms[-1])
    return {'rc': p.returncode, 'out': out, 'generated': gen,
            'distinct': dist, 'wall': time.time() - t0, 'module': module}


def tlc_error(res, n=60):
    lines = [l for l in res['out'].splitlines()
             if not l.startswith(('FAIL|', '"FAIL|', '"GEN|'))]
    return 'TLC on %s ended with %s\n%s' % (
        res['module'], res['rc'], '\n'.join(lines[-n:]))


def gen_lines(res):
    """the behaviours/states a specification printed with PrintT("GEN|..")"""
    rows = []
    for line in res['out'].splitlines():
        if line.startswith('"GEN|'):
            body = line[5:-1].replace('\\"', '"').replace('\\\\', '\\')
            rows.append(json.loads(body))
    return rows


_record_fn = None


def _record_one(i):
    import traceback
    fn, tag = _record_fn
    try:
        return fn(random.Random('%s-%d' % (tag, i)), i)
    except Exception:
        return ('error', traceback.format_exc())


class Check:
    """One property's check: design checking, generation, conformance."""

    def __init__(self, prop):
        self.prop = prop
        self.rng = random.Random('%s-%d' % (prop, SEED))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.failures = []      # (trace, step index, clause)
        self.notes = {}
        self.scratch = tempfile.mkdtemp(prefix='bella_verif_')
        self.assumptions = []
        self.op_counts = {}
        self.ok_counts = {}

    def record(self, fn, count, tag='rnd', procs=8):
        """fn(rng, i) -> trace or None, run in parallel; each history has its
        own random generator, so that the outcome does not depend on the
        number of processes"""
        import multiprocessing as mp
        global _record_fn
        _record_fn = (fn, '%s-%d-%s' % (self.prop, SEED, tag))
        with mp.get_context('fork').Pool(procs) as pool:
            out = pool.map(_record_one, range(count),
                           chunksize=max(1, count//(procs*8)))
        err = [o for o in out if isinstance(o, tuple)]
        src = os.path.join(REPO, 'src') + os.sep
        for _, text in err:
            if src not in text:
                raise MachineryError('recording failed\n' + text)
            self.failures.append((
                {'id': 'setup', 'steps': [{
                    'op': 'setup', 'k': 'exc',
                    'where': text.splitlines()[-12:]}]},
                1, 'the scenario can be set up'))
        out = [o for o in out if not isinstance(o, tuple)]
        return [o for o in out if o is not None]

    # -- design level ------------------------------------------------------
    def model(self, module, cfg, label=None, workers=8, timeout=850,
              extra=(), env=None, heap='6g'):
        res = run_tlc(module, cfg, self.scratch, workers=workers,
                      timeout=timeout, extra=extra, env=env, heap=heap)
        if res['rc'] != 0:
            raise MachineryError(
                'design model rejected (%s)\n' % (label or module)
                + tlc_error(res))
        self.states += res['distinct']
        self.transitions += res['generated']
        self.notes.setdefault('design_models', []).append(
            {'module': module, 'label': label or module,
             'distinct': res['distinct'], 'generated': res['generated'],
             'seconds': round(res['wall'], 1)})
        return res

    # -- conformance -------------------------------------------------------
    def conform(self, module, traces, consts='', workers=8, timeout=850,
                heap='8g', label=None):
        """Validates recorded traces: [{'id':.., 'steps':[..], ..}, ..].
        The trace specification has one initial state per trace and consumes
        one step per transition; every failing clause is printed."""
        traces = [t for t in traces if t['steps']]
        if not traces:
            raise MachineryError('no trace recorded for ' + module)
        path = os.path.join(self.scratch, '%s_%d.ndjson' % (
            module, len(os.listdir(self.scratch))))
        with open(path, 'w') as f:
            for t in traces:
                f.write(json.dumps(t, separators=(',', ':')) + '\n')
        cfg = ('SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n' + consts)
        res = run_tlc(module, cfg, self.scratch, workers=workers,
                      timeout=timeout, env={'TRACE_FILE': path}, heap=heap)
        expected = sum(len(t['steps']) + 1 for t in traces)
        if res['rc'] != 0 or res['distinct'] != expected:
            raise MachineryError(
                'trace validation did not finish: %d of %d states\n' % (
                    res['distinct'], expected) + tlc_error(res))
        fails = []
        for line in res['out'].splitlines():
            if line.startswith('"FAIL|'):
                _, tid, j, clause = line.strip('"').split('|', 3)
                fails.append((traces[int(tid) - 1], int(j), clause))
        self.failures += fails
        self.traces += len(traces)
        nsteps = sum(len(t['steps']) for t in traces)
        self.steps += nsteps
        self.states += res['distinct']
        self.transitions += res['generated']
        for t in traces:
            for s in t['steps']:
                key = s['op']
                self.op_counts[key] = self.op_counts.get(key, 0) + 1
                if s.get('k', 'ok') == 'ok':
                    self.ok_counts[key] = self.ok_counts.get(key, 0) + 1
        self.notes.setdefault('trace_models', []).append(
            {'module': module, 'label': label or module,
             'traces': len(traces), 'steps': nsteps,
             'states': res['distinct'], 'seconds': round(res['wall'], 1)})
        if len(self.samples) < 6:
            t = traces[min(len(traces) - 1, len(traces) // 2)]
            txt = json.dumps(t)
            self.samples.append(txt if len(txt) < 1500 else txt[:1500] + '…')
        return fails

    def note(self, key, value):
        self.notes[key] = value

    # -- reporting ---------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        new, hit = [], {}
        for t, j, clause in self.failures:
            step = t['steps'][j - 1] if j else {}
            rec = {'property': self.prop, 'clause': clause, 'step': step,
                   'trace': {k: v for k, v in t.items() if k != 'steps'},
                   'prefix_len': j}
            k = match_known(known, rec)
            if k is not None:
                hit.setdefault(k['id'], []).append(rec)
            else:
                rec['history'] = t['steps'][:j]
                new.append(rec)
        evidence = {
            'property': self.prop, 'tier': TIER, 'seed': SEED,
            'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'samples': self.samples or ['(none)'],
                'steps_validated': self.steps,
                'steps_per_operation': self.op_counts,
                'steps_that_returned_normally': self.ok_counts,
                'known_finding_hits': {k: len(v) for k, v in hit.items()},
            },
            'assumptions': self.assumptions or [
                'TLC 1.8 and the recorder in /verif/harness are trusted'],
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        evidence['coverage'].update(self.notes)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(evidence, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in known:
            if k['id'] in hit:
                print('KNOWN-FINDING: property=%s %s' % (
                    self.prop, k['what']))
        if new:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            seen = {}
            for rec in new:
                seen.setdefault((rec['step'].get('op'), rec['clause']),
                                []).append(rec)
            path = os.path.join(rdir, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump([r for v in seen.values() for r in v[:5]], f,
                          indent=1)
            for (op, clause), v in sorted(seen.items(), key=str)[:20]:
                print('  %s: clause %s failed on %d step(s), e.g. %s' % (
                    op, clause, len(v), json.dumps(v[0]['step'])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s traces=%d steps=%d states=%d wall=%.1fs' % (
            self.prop, self.traces, self.steps, self.states,
            time.time() - self.t0))
        return 0


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == prop]


def match_known(known, rec):
    """An entry matches by clause and by the exact fields of the step (and
    of the trace) that it names."""
    for k in known:
        if k['clause'] != rec['clause']:
            continue
        for key, val in k.get('step', {}).items():
            if rec['step'].get(key, '<absent>') != val:
                break
        else:
            for key, val in k.get('trace', {}).items():
                if rec['trace'].get(key, '<absent>') != val:
                    break
            else:
                return k
    return None
