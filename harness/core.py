"""Runner core: monitors, case scheduling, evidence, replay files."""
import collections
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class HarnessError(Exception):
    """Something is wrong with the check itself (not with the property)."""


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    pass


def jsonable(o, depth=0):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, np.ndarray):
        if o.size > 200:
            return {'shape': list(o.shape), 'head': [jsonable(v) for v in o.reshape(-1)[:20].tolist()]}
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        v = float(o)
        return v if np.isfinite(v) else repr(v)
    if isinstance(o, (np.bool_, bool)):
        return bool(o)
    if isinstance(o, (int, str)) or o is None:
        return o
    return repr(o)[:200]


class Mon:
    """Collects what the monitors observed during one case."""

    def __init__(self, case):
        self.case = case
        self.events = collections.Counter()
        self.violations = []
        self.findings = []
        self.keys = set()
        self.sample = None

    # observation -----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def key(self, *parts):
        """Marks the case as non-trivial, under a key of distinct behaviour."""
        if not self.keys:      # one key per case: distinct_nontrivial <= evaluations
            self.keys.add('|'.join(str(p) for p in parts))

    def note(self, **kw):
        if self.sample is None:
            self.sample = {}
        self.sample.update(kw)

    # verdicts ----------------------------------------------------------
    def fail(self, what, /, **ctx):
        if len(self.violations) < 5:
            self.violations.append({'what': what, 'ctx': jsonable(ctx)})

    def check(self, cond, what, /, **ctx):
        self.events['assertions'] += 1
        if not cond:
            self.fail(what, **ctx)
            return False
        return True

    def finding(self, ident, /, **ctx):
        """A violation which is one of the documented known findings."""
        self.findings.append({'id': ident, 'ctx': jsonable(ctx)})

    def close(self, a, b, what, /, rtol=1e-8, atol=1e-10, **ctx):
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.events['assertions'] += 1
        if a.shape != b.shape:
            self.fail(what + ' (shape)', got=list(a.shape), want=list(b.shape), **ctx)
            return False
        if a.size == 0:
            return True
        with np.errstate(invalid='ignore'):
            bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        bad &= ~same
        if bad.any():
            i = int(np.argmax(bad.reshape(-1)))
            self.fail(what, got=a.reshape(-1)[i], want=b.reshape(-1)[i], index=i,
                      num_bad=int(bad.sum()), size=int(a.size), **ctx)
            return False
        return True


def lib_frame(tb):
    """Deepest frame of the library in a traceback, or None."""
    res = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + '/') or '/bayeso/' in f.filename:
            res = f
    return res


_CUR = {}


def _init_worker(scratch):
    sys.dont_write_bytecode = True
    try:        # no orphans when the check is killed
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:  # noqa
        pass
    d = tempfile.mkdtemp(prefix='w', dir=scratch)
    os.chdir(d)
    os.environ['VERIF_SCRATCH'] = d
    # stdout / stderr of the code under test are noise (cma, tqdm, loggers)
    log = os.open(os.devnull, os.O_WRONLY)
    os.dup2(log, 1)
    os.dup2(log, 2)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.raiseExceptions = False


def _alarm(*_):
    raise CaseTimeout()


def _run_case(args):
    prop, case, limit = args
    mod = importlib.import_module('props.' + prop.lower())
    import numpy as np
    mon = Mon(case)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    err = None
    timeout = False
    try:
        np.random.seed(case['seed'] % (2 ** 32))
        with np.errstate(all='ignore'):
            mod.run(case, mon)
    except CaseTimeout:
        timeout = True
    except Violation as e:
        mon.fail(str(e))
    except HarnessError as e:
        err = 'harness: ' + str(e)
    except Exception as e:  # noqa
        fr = lib_frame(e.__traceback__)
        if fr is not None and not isinstance(e, (ImportError, MemoryError)):
            mon.fail('unexpected exception on a valid request: %s: %s' % (type(e).__name__, str(e)[:300]),
                     where='%s:%d %s' % (fr.filename, fr.lineno, fr.name))
        elif isinstance(e, (ImportError, MemoryError)) or os.environ.get('VERIF_DEV'):
            err = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]
        else:
            # the monitors could not make sense of what the library returned (wrong type, shape, missing entry)
            mon.fail('a result is not of the documented form: %s: %s' % (type(e).__name__, str(e)[:300]),
                     where=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1200:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {'case': case, 'events': dict(mon.events), 'violations': mon.violations,
            'findings': mon.findings, 'keys': sorted(mon.keys), 'sample': mon.sample, 'err': err,
            'timeout': timeout, 't': time.time() - t0}


def case_seed(seed, prop, kind, i):
    h = hashlib.sha256(('%d/%s/%s/%d' % (seed, prop, kind, i)).encode()).digest()
    return int.from_bytes(h[:4], 'big') & 0x7fffffff


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        return json.load(f)


def selftest():
    import glob
    import bayeso
    if not os.path.abspath(bayeso.__file__).startswith(REPO + '/'):
        print('ERROR: bayeso is imported from', bayeso.__file__)
        return 2
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', 'props', 'c*.py'))):
        importlib.import_module('props.' + os.path.basename(f)[:-3])
    load_known()
    print('ok')
    return 0


def main(argv):
    if argv[0] == "--selftest":
        return selftest()
    prop = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    replay = None
    only = None
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 2
        elif argv[i] == '--seed':
            seed = int(argv[i + 1])
            i += 2
        elif argv[i] == '--replay':
            replay = argv[i + 1]
            i += 2
        elif argv[i] == '--only':
            only = argv[i + 1]
            i += 2
        else:
            print('unknown argument', argv[i])
            return 2
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop.lower())
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    try:
        return _main(prop, tier, seed, replay, only, jobs, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, replay, only, jobs, scratch, t0):
    mod = importlib.import_module('props.' + prop.lower())
    if replay:
        with open(replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = []
        for kind, n in mod.plan(tier):
            if only and kind != only:
                continue
            for i in range(n):
                cases.append({'kind': kind, 'i': i, 'seed': case_seed(seed, prop, kind, i)})
    # interleave kinds so that an early stop still covers every kind
    tot = collections.Counter(c['kind'] for c in cases)
    cases.sort(key=lambda c: (c.get('i', 0) + 0.5) / tot[c['kind']])
    import bayeso
    if not os.path.abspath(bayeso.__file__).startswith(REPO + '/'):
        print('ERROR: bayeso is imported from', bayeso.__file__)
        return 2
    limit = getattr(mod, 'CASE_LIMIT', 150)
    deadline = {'quick': getattr(mod, 'SOFT_QUICK', 200), 'thorough': getattr(mod, 'SOFT_THOROUGH', 3000)}[tier]
    events = collections.Counter()
    keys = set()
    samples = []
    viol = []
    finds = collections.OrderedDict()
    errors = []
    timeouts = []
    done = 0
    kinds = collections.Counter()
    skipped = 0
    broken = False
    ctx = multiprocessing.get_context('fork')
    ex = cf.ProcessPoolExecutor(max_workers=jobs, mp_context=ctx, initializer=_init_worker, initargs=(scratch,))
    try:
        it = iter(cases)
        pend = set()
        stop = False
        while True:
            while not stop and len(pend) < jobs * 3:
                try:
                    c = next(it)
                except StopIteration:
                    stop = True
                    break
                if time.time() - t0 > deadline or len(viol) >= 20 or len(errors) > 20 or len(timeouts) >= 3:
                    skipped += 1 + sum(1 for _ in it)
                    stop = True
                    break
                pend.add(ex.submit(_run_case, (prop, c, limit)))
            if not pend:
                break
            fin, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in fin:
                try:
                    r = f.result()
                except cf.process.BrokenProcessPool:
                    broken = True
                    raise
                done += 1
                kinds[r['case']['kind']] += 1
                events.update(r['events'])
                keys.update(r['keys'])
                if r['err']:
                    errors.append((r['case'], r['err']))
                if r['timeout']:
                    timeouts.append(r['case'])
                    if getattr(mod, 'TIMEOUT_IS_VIOLATION', False):
                        r['violations'].append({'what': 'case did not finish within %d s' % limit, 'ctx': {}})
                for v in r['violations']:
                    viol.append({'case': r['case'], **v})
                for v in r['findings']:
                    finds.setdefault(v['id'], {'case': r['case'], **v})
                if r['sample'] is not None and len(samples) < 12 and \
                        sum(s['kind'] == r['case']['kind'] for s in samples) < 2:
                    samples.append({'kind': r['case']['kind'], 'seed': r['case']['seed'],
                                    'observed': jsonable(r['sample'])})
    except cf.process.BrokenProcessPool:
        broken = True
    finally:
        ex.shutdown(wait=False, cancel_futures=True)

    if not replay and not viol and hasattr(mod, 'final'):
        # statistical verdicts over all the cases
        fm = Mon({'kind': 'final', 'seed': seed, 'i': 0})
        mod.final(events, fm, tier)
        events.update(fm.events)
        for v in fm.violations:
            viol.append({'case': fm.case, **v})

    known = load_known()
    known_ids = {k['id'] for k in known['findings'] if k['property'] == prop}
    for fid, v in list(finds.items()):
        if fid not in known_ids:
            viol.append({'case': v['case'], 'what': 'unlisted finding ' + fid, 'ctx': v['ctx']})

    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': done, 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
                       'samples': samples or [{'kind': c['kind'], 'seed': c['seed']} for c in cases[:2]],
                       'cases_by_kind': dict(kinds), 'observed_events': dict(events),
                       'cases_skipped_by_time': skipped, 'timeouts': len(timeouts),
                       'known_findings_seen': sorted(set(finds) & known_ids)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    if not replay:
        tmp = os.path.join(edir, '.%s.%d.tmp' % (prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(edir, prop + '.json'))

    for k in known['findings']:
        if k['property'] == prop and k['id'] in finds:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s tier=%s seed=%d cases=%d distinct=%d assertions=%d wall=%.1fs %s' % (
        prop, tier, seed, done, len(keys), events.get('assertions', 0), time.time() - t0,
        'skipped=%d' % skipped if skipped else ''))
    if viol:
        rdir = os.path.join(edir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for n, v in enumerate(viol):
            w = v['what'][:120]
            if w in seen:
                continue
            seen.add(w)
            path = os.path.join(rdir, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump({'property': prop, **v}, f, indent=1)
            print('  %s | case %s | %s' % (v['what'], json.dumps(v['case']), json.dumps(v['ctx'])[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if len(seen) >= 5:
                break
        return 1
    if broken:
        print('ERROR: a worker process died')
        return 2
    if errors:
        print('ERROR: %d case(s) failed inside the harness; first: %s\n%s' % (len(errors), errors[0][0], errors[0][1]))
        return 2
    if timeouts:
        print('ERROR: %d case(s) did not finish; first: %s' % (len(timeouts), timeouts[0]))
        return 2
    if done == 0 or events.get('assertions', 0) == 0 or not keys:
        print('ERROR: nothing was observed')
        return 2
    return 0
