import ast
import logging
import os
import re
import tempfile
import numpy as np
import gen
import runs

RULE = ('A case captures the error stream (file descriptor 2) while models, loggers, runs and steps are created and used, '
        'records every log record created, and compares both; repeats a run with and without debug mode; or renders arrays '
        'and hyperparameters and parses the text. Non-trivial when at least one record was emitted or one value rendered; '
        'distinct by kind, surrogate, options, shape.')


def plan(tier):
    k = 3 if tier == 'quick' else 14
    return [('once', 120 * k), ('debug', 90 * k), ('mixed', 40 * k), ('array', 500 * k), ('hyps', 300 * k)]


class Capture:
    """File descriptor 2 into a file, plus all log records of library loggers."""

    def __enter__(self):
        self.f = tempfile.TemporaryFile()
        self.save = os.dup(2)
        os.dup2(self.f.fileno(), 2)
        self.records = []
        self.old = logging.getLogRecordFactory()
        self.exc = logging.raiseExceptions
        logging.raiseExceptions = True

        def factory(*a, **k):
            r = self.old(*a, **k)
            self.records.append(r)
            return r
        logging.setLogRecordFactory(factory)
        return self

    def __exit__(self, *a):
        logging.setLogRecordFactory(self.old)
        logging.raiseExceptions = self.exc
        import sys
        sys.stderr.flush()
        os.dup2(self.save, 2)
        os.close(self.save)
        self.f.seek(0)
        self.text = self.f.read().decode('utf-8', 'replace')
        self.f.close()


def ours(r):
    p = r.pathname.replace('\\', '/')
    return '/bayeso/' in p or '/harness/props/' in p


def audit(mon, cap, ctx):
    """Every record is written exactly once, with level and logger name."""
    mon.check('Logging error' not in cap.text, 'no malformed record', text=cap.text[-600:], **ctx)
    recs = [r for r in cap.records if ours(r)]
    want = {}
    for r in recs:
        try:
            msg = r.getMessage()
        except Exception as e:      # noqa
            mon.fail('a record cannot be formatted', error=repr(e), template=str(r.msg)[:200], **ctx)
            continue
        want.setdefault((r.levelname, r.name, msg), 0)
        want[(r.levelname, r.name, msg)] += 1
    for (lv, nm, msg), n in want.items():
        pat = re.compile(r'\[' + re.escape(lv) + '-' + re.escape(nm) + r'-[^\]\n]*\] ' + re.escape(msg) + '$', re.M)
        got = len(pat.findall(cap.text))
        if '\n' in msg:
            ok = got == n
        else:
            ok = got == n
        mon.check(ok, 'each message is written exactly once, with level and logger name', level=lv, logger=nm, message=msg[:200], written=got, logged=n, **ctx)
    total = len(re.findall(r'\[(?:DEBUG|INFO|WARNING|ERROR|CRITICAL)-', cap.text, re.M))
    mon.check(total == len(recs), 'nothing else is written in the form of a message', written=total, logged=len(recs), **ctx)
    mon.event('records', len(recs))
    return len(recs)


def values(mon, cap, names, ctx):
    """Messages of the form `name: value` show the value that name has."""
    for r in cap.records:
        if '/bayeso/' not in r.pathname.replace('\\', '/'):
            continue
        q = re.match(r'([\w ]+?):\s+(.*)$', r.getMessage(), re.S)
        if not q or q.group(1) not in names:
            continue
        want, got = names[q.group(1)], q.group(2)
        mon.event('values_in_messages')
        if isinstance(want, np.ndarray):
            try:
                a = np.array(parse(got), float)
                ok = a.shape == want.shape and bool(np.all(np.abs(a - want) <= 0.00050001 + 1e-9 * np.abs(want)))
            except (ValueError, SyntaxError):
                ok = False
        elif isinstance(want, dict):
            try:
                p = parse(got)
                ok = set(p) == set(want) and all(np.all(np.abs(np.asarray(p[z], float) - np.asarray(want[z], float)) <= 0.00050001) for z in want)
            except (ValueError, SyntaxError):
                ok = False
        else:
            ok = got == str(want)
        mon.check(ok, 'a message shows the value it names', message=r.getMessage()[:200], want=want, **ctx)


def mixed(case, mon, rng, d, R, f):
    """A model in debug mode keeps writing, and one without keeps silent, whatever other models are made."""
    from bayeso import bo, wrappers
    from bayeso.utils import utils_logger as ul
    s = gen.pick(rng, ['gp', 'tp', 'rf'])
    C = {'gp': bo.BOwGP, 'tp': bo.BOwTP, 'rf': bo.BOwTrees}
    exp = gen.pick(rng, [None, 'e', 'a.b'])
    X = gen.inside(rng, R, 4)
    Y = np.array([[f(x)] for x in X])
    loud, quiet = C[s](R, debug=True, str_exp=exp), C[s](R, debug=False, str_exp=gen.pick(rng, [exp, 'other']))
    lg = ul.get_logger('mine')

    def counts():
        out = []
        for m in (loud, quiet):
            with Capture() as cap:
                np.random.seed(3)
                m.optimize(X, Y, num_samples=2 if s != 'rf' else 10, seed=1)
                m.logger.debug('one more')
                lg.debug('own message')
            audit(mon, cap, dict(surrogate=s, exp=exp))
            out.append(sorted((r.levelname, r.name, re.sub(r'[-+\d.e]+', '#', r.getMessage())) for r in cap.records if ours(r)))
        return out
    first = counts()
    acts = []
    for _ in range(rng.randint(1, 5)):
        a = gen.pick(rng, sorted(C) + ['run', 'logger'])
        acts.append(a)
        with Capture():
            if a == 'run':
                wrappers.BayesianOptimization(R, f, 1, num_samples_ao=1, debug=gen.chance(rng, 0.5), str_exp=gen.pick(rng, [exp, None])).optimize(2, seed=1)
            elif a == 'logger':
                ul.get_logger(gen.pick(rng, ['mine', 'x', 'bo_w_gp', 'bo_w_gp_e']))
            else:
                C[a](R, debug=gen.chance(rng, 0.5), str_exp=gen.pick(rng, [exp, None, 'other'])).get_samples('uniform', num_samples=2, seed=1)
    again = counts()
    ctx = dict(surrogate=s, exp=exp, acts=acts)
    mon.check(len(first[0]) > len(first[1]), 'debug mode writes more messages', loud=len(first[0]), quiet=len(first[1]), **ctx)
    for nm, a, b in zip(('debug', 'plain'), first, again):
        mon.check(a == b, 'a model writes the same messages whatever other models were made', model=nm, before=len(a), after=len(b), **ctx)
    mon.key('mixed', s, exp, '-'.join(acts))


def number(rng, kind):
    if kind == 'float':
        return float(gen.pick(rng, [rng.randn(), rng.randn() * 1e5, rng.randn() * 1e-5, 0.0, -1.0, 1e12, 0.0005, 2.9996]))
    return int(rng.randint(-1000, 1000))


def parse(text):
    return ast.literal_eval(re.sub(r'\s+', ' ', text).replace('nan', "'nan'").replace('inf', "'inf'"))


def depth(text):
    m = c = 0
    for ch in text:
        c += ch == '['
        c -= ch == ']'
        m = max(m, c)
    return m


def flat(o):
    if isinstance(o, list):
        return [y for x in o for y in flat(x)]
    return [o]


def shape_of(o):
    if not isinstance(o, list):
        return ()
    return (len(o),) + (shape_of(o[0]) if o else ())


def check_text(mon, text, arr, ctx):
    mon.check(isinstance(text, str), 'a string', **ctx)
    mon.check(depth(text) == arr.ndim and text.count('[') == text.count(']'), 'one bracket level per dimension', text=text[:200], **ctx)
    p = parse(text)
    if not mon.check(shape_of(p) == arr.shape, 'every element is rendered', text=text[:300], got=shape_of(p), want=arr.shape, **ctx):
        return
    v = flat(p)
    a = arr.reshape(-1)
    if arr.dtype.kind == 'f':
        ok = all(abs(float(x) - float(y)) <= 0.00050001 + 1e-9 * abs(float(y)) for x, y in zip(v, a))
        mon.check(ok, 'elements in index order, to three decimals', text=text[:300], **ctx)
        toks = re.findall(r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?', text)
        mon.check(len(toks) == a.size and all(re.fullmatch(r'-?\d+\.\d{3}', t) for t in toks), 'floats have three decimals', text=text[:300], **ctx)
    else:
        mon.check(v == a.tolist(), 'elements in index order', text=text[:300], **ctx)


def run(case, mon):
    from bayeso.utils import utils_logger as ul
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'array':
        nd = gen.pick(rng, [1, 2, 3])
        shp = tuple(int(gen.pick(rng, [1, 2, 3, 5, 9])) for _ in range(nd))
        if nd == 1 and gen.chance(rng, 0.05):
            shp = (0,)
        if gen.chance(rng, 0.04):
            shp = {1: (gen.logint(rng, 100, 5000),), 2: (gen.logint(rng, 100, 3000), 2), 3: (gen.logint(rng, 30, 1200), 2, 1)}[nd]
        dt = gen.pick(rng, ['float', 'float', 'int', 'float32', 'bool'])
        if dt == 'bool':
            arr = rng.rand(*shp) < 0.5
        else:
            arr = np.array([number(rng, 'int' if dt == 'int' else 'float') for _ in range(int(np.prod(shp)))]).reshape(shp)
            arr = arr.astype({'float': float, 'int': int, 'float32': np.float32}[dt])
        if gen.chance(rng, 0.3) and arr.ndim > 1:
            arr = np.asfortranarray(arr)
        ctx = dict(shape=shp, dtype=dt)
        if dt == 'float32':
            arr = np.clip(arr, -1e4, 1e4)
        t = ul.get_str_array(arr)
        check_text(mon, t, arr, ctx)
        f = {1: ul.get_str_array_1d, 2: ul.get_str_array_2d, 3: ul.get_str_array_3d}[nd]
        mon.check(f(arr) == t, 'the renderer of the given number of dimensions agrees', **ctx)
        mon.key(k, shp, dt)
        mon.note(text=t[:120])
        return
    if k == 'hyps':
        d = gen.pick(rng, [1, 2, 5])
        h = gen.hyps(rng, d, use_gp=gen.chance(rng, 0.5))
        t = ul.get_str_hyps(dict(h))
        ctx = dict(text=t[:300])
        mon.check(t.startswith('{') and t.endswith('}'), 'a dictionary', **ctx)
        p = parse(t)
        mon.check(list(p) == list(h), 'every hyperparameter, in order', got=list(p), want=list(h), **ctx)
        for q in h:
            a = np.atleast_1d(np.asarray(h[q], float))
            b = np.atleast_1d(np.asarray(p.get(q, []), float))
            mon.check(a.shape == b.shape and bool(np.all(np.abs(a - b) <= 0.00050001)), 'hyperparameters to three decimals', which=q, **ctx)
        toks = re.findall(r'-?\d+(?:\.\d+)?', t)
        mon.check(all(re.fullmatch(r'-?\d+\.\d{3}', x) for x in toks), 'floats have three decimals', **ctx)
        mon.key(k, d, len(h), isinstance(h['lengthscales'], float))
        return
    from bayeso import bo
    d = gen.pick(rng, [1, 2])
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'ints']))
    f = gen.objective(rng, R, gen.pick(rng, ['quad', 'sin', 'const']))
    if k == 'once':
        nm = gen.pick(rng, ['abc', 'bo_w_gp', 'gp', 'my.logger', 'bo_w_gp_x', 'exp 1', 'abc.def', 'my', 'gp.a.b'])
        exps = gen.pick(rng, [['e1', 'e2'], ['a', 'a.b', 'a.b.c'], ['run_1', 'run_1.5', 'run_1.50'], ['\u03b1', '50%', 'x y']])
        ctx = dict(name=nm)
        root = logging.StreamHandler() if gen.chance(rng, 0.3) else None     # the caller's own logging set-up
        ctx['root'] = root is not None
        with Capture() as cap:
            acts = []
            toks = []
            if root is not None:
                root.setFormatter(logging.Formatter('[%(levelname)s-%(name)s-%(asctime)s] %(message)s'))
                logging.getLogger().addHandler(root)

            def tok():
                toks.append('tok%012d' % int(rng.randint(10 ** 9)))
                return toks[-1]
            for _ in range(rng.randint(1, 8)):
                a = gen.pick(rng, ['logger', 'loggers', 'model', 'model_exp', 'wrapper', 'step', 'tp'])
                acts.append(a)
                if a == 'logger':
                    lg = ul.get_logger(nm)
                    getattr(lg, gen.pick(rng, ['debug', 'info', 'warning', 'error', 'critical']))('token %s %s', tok(), gen.pick(rng, ['x', 'y z', '100%']))
                elif a == 'loggers':
                    for q in exps + [nm]:
                        getattr(ul.get_logger(q), gen.pick(rng, ['debug', 'info', 'error']))('token %s', tok())
                elif a == 'model':
                    m = bo.BOwGP(R, debug=True)
                    m.logger.info('model token %s', tok())
                elif a == 'model_exp':
                    m = bo.BOwTrees(R, str_exp=gen.pick(rng, exps))
                    m.logger.warning('exp token %s', tok())
                elif a == 'tp':
                    m = bo.BOwTP(R, debug=True)
                    m.logger.debug('tp token %s', tok())
                    m.get_samples('uniform', num_samples=2, seed=1)
                elif a == 'wrapper':
                    from bayeso import wrappers
                    b = wrappers.BayesianOptimization(R, f, 1, num_samples_ao=1, debug=gen.chance(rng, 0.5), str_exp=gen.pick(rng, [None] + exps))
                    b.optimize(2, seed=1)
                else:
                    m = bo.BOwGP(R, debug=True)
                    x = gen.inside(rng, R, 3)
                    m.optimize(x, np.array([[f(z)] for z in x]), num_samples=1, seed=1)
            lg = ul.get_logger(nm)
            lg.info('last token of %s', nm)
            mon.check(lg is ul.get_logger(nm), 'a logger name denotes one logger', **ctx)
            if root is not None:
                logging.getLogger().removeHandler(root)
        n = audit(mon, cap, dict(ctx, acts=acts))
        for t in toks:
            mon.check(cap.text.count(t) == 1, 'a logged message is written exactly once', token=t, written=cap.text.count(t), acts=acts, **ctx)
        mon.check(cap.text.count('last token of') == 1, 'a logged message is written exactly once', acts=acts, **ctx)
        mon.check(n > 0, 'messages were observed')
        mon.key(k, nm, '-'.join(acts))
        mon.note(acts=acts, records=n, text=cap.text[:300])
        return
    if k == 'mixed':
        return mixed(case, mon, rng, d, R, f)
    # debug: the same seeded run, with and without debug mode, twice each
    s = gen.pick(rng, ['gp', 'tp', 'rf'], [.4, .35, .25])
    c = runs.config(rng, s, d=d, entry=gen.pick(rng, ['class.optimize', 'class.all', 'step'] + ([] if s == 'rf' else ['fn.round', 'ts'])))
    c['n_iter'] = gen.pick(rng, [1, 2])
    c['seed'] = 5
    n = c['n_init']
    X0 = gen.inside(rng, R, n)
    Y0 = np.array([[f(x)] for x in X0])
    if s == 'rf' or (d == 1 and gen.chance(rng, 0.1)):
        c['n_samp'] = gen.pick(rng, [c['n_samp'], 130])
    out = []
    sizes = []
    after = []
    ctx = dict(config={q: c[q] for q in ('entry', 'surrogate', 'acq', 'cov', 'mlm', 'sel', 'opt_bo', 'samp') if q in c}, d=d)
    for debug in (False, True, True):
        cc = dict(c, debug=debug)
        rec = runs.Recorder(f)
        np.random.seed(19)
        with Capture() as cap:
            if c['entry'] == 'ts':
                from bayeso import thompson_sampling as ts
                np.random.seed(11)
                r = ts.thompson_sampling_gp_iteration(R, X0, Y0, str_sampling_method='grid', num_samples=4, debug=debug)
                res = np.array(r)
            elif c['entry'] == 'step':
                b, m = runs.build(dict(cc, entry='class.all'), R, rec)
                kw = {'str_mlm_method': c['mlm']} if c['surrogate'] == 'gp' else {}
                np.random.seed(13)
                r = m.optimize(X0, Y0, str_sampling_method=c['samp'], num_samples=c['n_samp'], seed=7, **kw)
                res = np.vstack([r[0]] + [r[1]['next_points']])
                mon.check(np.array_equal(np.asarray(r[1]['next_points']).shape[1:], (d,)), 'candidates', **ctx)
            else:
                b, m = runs.build(cc, R, rec)
                # steps of a run draw fresh candidates: give every step the same seed
                orig = m.optimize
                def optimize(*a, **kw):
                    np.random.seed(17)
                    return orig(*a, **dict(kw, seed=9))
                m.optimize = optimize
                r = runs.execute(cc, b, m, rec, X0, Y0)
                res = np.array(r[0])
            after.append(np.random.rand(3))
        cnt = audit(mon, cap, dict(ctx, debug=debug))
        names = {}
        if c['entry'] in ('class.optimize', 'fn.round'):
            names = dict(num_init=c['n_init'], num_iter=c['n_iter'], str_acq=c['acq'], str_initial_method_bo=c['init'], num_samples_ao=c['n_samp'],
                         str_sampling_method_ao=c['samp'], seed=c['seed'], X_init=res[:c['n_init']], range_X=R)
            if c['entry'] == 'class.optimize':
                names.update(str_surrogate=s, normalize_Y=c['normalize'], debug=debug)
            if 'cov' in c:
                names.update(str_cov=c['cov'], use_ard=c['ard'])
            if s == 'gp':
                names.update(str_mlm_method=c['mlm'], str_modelselection_method=c['sel'], str_optimizer_method_gp=c['opt_gp'])
            if s == 'tp':
                names.update(str_optimizer_method_tp=c['opt_tp'])
        elif c['entry'] == 'step' and c.get('mlm') != 'combined' and s != 'rf':
            names = {'hyps optimized': r[1]['hyps'], 'use_ard': c['ard']}
        values(mon, cap, names, dict(ctx, debug=debug))
        out.append(res)
        sizes.append(cnt)
    mon.check(np.array_equal(out[0], out[1]), 'debug mode makes the same choices', plain=out[0], debug=out[1], **ctx)
    mon.check(np.array_equal(after[0], after[1]), 'debug mode leaves the same random numbers to later choices', plain=after[0], debug=after[1], **ctx)
    mon.check(np.array_equal(out[1], out[2]), 'a repeated run makes the same choices', first=out[1], second=out[2], **ctx)
    mon.check(sizes[2] == sizes[1], 'a repeated run writes as many messages', first=sizes[1], second=sizes[2], **ctx)
    mon.check(sizes[1] > sizes[0], 'debug mode writes more messages', plain=sizes[0], debug=sizes[1], **ctx)
    if sizes[1] > 0:
        mon.key(k, *runs.key(c), n)
    mon.note(config=ctx['config'], plain=sizes[0], debug=sizes[1])
