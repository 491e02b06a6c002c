import json
import os
import subprocess
import sys
import numpy as np
import core
import gen
import runs

RULE = ('A case repeats seeded calls under disturbance: the global generator reseeded and consumed, other models created '
        'and used in between, earlier calls on the same object, a fresh process with another hash seed and directory. '
        'Non-trivial when at least two results of one request were compared; distinct by kind, method, surrogate, '
        'optimizer, mode and seed class.')
ASSUMPTIONS = ['one BLAS thread, so that arithmetic itself is deterministic']
CASE_LIMIT = 200


def plan(tier):
    k = 1 if tier == 'quick' else 14
    return [('samples', 200 * k), ('step', 240 * k), ('rf', 20 * k), ('cma', 24 * k), ('converged', 40 * k),
            ('wrapper', 40 * k), ('process', 16 * k), ('requests', 60 * k)]


EXPS = [None, None, 'exp', 'run 2', '']
SEEDS = [0, 1, 42, 2 ** 31 - 1, 2 ** 32 - 1]


def the_seed(rng):
    return gen.pick(rng, SEEDS) if gen.chance(rng, 0.4) else int(rng.randint(10 ** 6))


def disturb(rng, R):
    """Unrelated activity."""
    from bayeso import bo
    np.random.seed(int(rng.randint(2 ** 31 - 1)))
    np.random.rand(int(rng.randint(1, 50)))
    import random
    random.seed(int(rng.randint(10 ** 6)))
    a = rng.randint(3)
    if a == 0:
        o = bo.BOwGP(R, str_acq=gen.pick(rng, gen.ACQ))
        o.get_samples(gen.pick(rng, gen.SAMP), num_samples=int(rng.randint(1, 9)), seed=gen.pick(rng, [None, 3, 42]))
        X = gen.inside(rng, R, 3)
        o.optimize(X, rng.randn(3, 1), num_samples=1, seed=gen.pick(rng, [None, 5]))
    elif a == 1:
        o = bo.BOwTP(R)
        o.get_samples(gen.pick(rng, gen.SAMP), num_samples=4)
    else:
        R2 = np.vstack([R, [[0.0, 1.0]]])
        bo.BOwTrees(R2).get_samples('sobol', num_samples=5, seed=gen.pick(rng, [None, 0]))


def model(c, R, prior=None):
    from bayeso import bo
    kw = dict(str_acq=c['acq'], normalize_Y=c['norm'], debug=c.get('debug', False), str_exp=c.get('exp'))
    if c['s'] == 'rf':
        return bo.BOwTrees(R, **kw)
    kw.update(str_cov=c['cov'], use_ard=c['ard'], str_optimizer_method_bo=c['opt_bo'], prior_mu=prior)
    if c['s'] == 'gp':
        return bo.BOwGP(R, str_optimizer_method_gp=c['opt'], str_modelselection_method=c['sel'], **kw)
    return bo.BOwTP(R, str_optimizer_method_tp=c['opt'], **kw)


def config(rng, s, opt_bo='L-BFGS-B'):
    return {'s': s, 'acq': gen.pick(rng, gen.ACQ), 'norm': gen.chance(rng, 0.7), 'cov': gen.pick(rng, gen.COV),
            'ard': gen.chance(rng, 0.6), 'opt_bo': opt_bo, 'opt': gen.pick(rng, gen.OPT_GP if s == 'gp' else gen.OPT_TP),
            'sel': gen.pick(rng, ['ml', 'loocv'], [0.8, 0.2]), 'exp': gen.pick(rng, EXPS),
            'mlm': gen.pick(rng, ['regular', 'combined'], [0.7, 0.3]) if s == 'gp' else None}


def step(m, c, X, Y, meth, n, seed):
    kw = {'str_mlm_method': c['mlm']} if c['s'] == 'gp' else {}
    p, info = m.optimize(X, Y, str_sampling_method=meth, num_samples=n, seed=seed, **kw)
    return np.array(p), np.array(info['next_points']), np.array(info['acquisitions'])


def same(mon, a, b, what, **ctx):
    ok = all(np.shape(x) == np.shape(y) and np.array_equal(x, y) for x, y in zip(a, b))
    if not ok:
        # differences at the level of the optimizer's own termination tolerance are arithmetic, not randomness
        ok = all(np.shape(x) == np.shape(y) for x, y in zip(a, b)) and \
            all(np.allclose(x, y, rtol=1e-6, atol=1e-7 * (1e-9 + np.max(np.abs(y)))) for x, y in zip(a, b))
        mon.event('equal_only_approximately' if ok else 'unequal')
    mon.check(ok, what, first=a[0], second=b[0], **ctx)
    mon.event('pairs_compared')


def job(spec):
    """Executed here and in a fresh process: a list of results for a list of requests."""
    out = []
    for q in spec:
        rng = np.random.RandomState(q)
        d = int(rng.randint(1, 4))
        R, _ = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints']))
        s = gen.pick(rng, ['gp', 'tp'])
        c = config(rng, s)
        f = gen.objective(rng, R, scale=1.0)
        X = gen.inside(rng, R, 4)
        Y = np.array([[f(x)] for x in X])
        meth = gen.pick(rng, gen.SAMP)
        sd = the_seed(rng)
        m = model(c, R)
        S = m.get_samples(meth, num_samples=6, seed=sd)
        I = m.get_initials(meth, 5, seed=sd)
        p, P, _ = step(m, c, X, Y, meth, 2, sd)
        t = model(dict(c, s='rf'), R)
        np.random.seed(sd)                   # forests are grown with the global generator
        pt, Pt, _ = step(t, dict(c, s='rf'), X, Y, meth, 9, sd)
        out.append([S.tolist(), I.tolist(), p.tolist(), P.tolist(), pt.tolist(), Pt.tolist()])
    return out


def run(case, mon):
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    d = gen.pick(rng, [1, 2, 3, 5])
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints', 'mixed']))
    sd = the_seed(rng)
    if k == 'samples':
        s = gen.pick(rng, ['gp', 'tp', 'rf'])
        c = config(rng, s)
        m = model(c, R)
        for meth in gen.SAMP:
            n = gen.logint(rng, 1, 120)
            if meth == 'gaussian':        # clipping makes ties of single numbers likely
                n = max(n, 6)
            a = m.get_samples(meth, num_samples=n, seed=sd)
            u1 = m.get_samples(meth, num_samples=n)
            disturb(rng, R)
            b = m.get_samples(meth, num_samples=n, seed=sd)
            u2 = m.get_samples(meth, num_samples=n)
            e = model(config(rng, gen.pick(rng, ['gp', 'tp', 'rf'])), R).get_samples(meth, num_samples=n, seed=sd)
            i = m.get_initials(meth, n, seed=sd)
            np.random.seed(1)
            u3 = m.get_initials(meth, n)
            same(mon, [b], [a], 'seeded samples repeat on the same object', meth=meth, n=n, seed=sd)
            same(mon, [e], [a], 'seeded samples repeat on another object', meth=meth, n=n, seed=sd)
            same(mon, [i], [a], 'seeded initial points are the seeded samples', meth=meth, n=n, seed=sd)
            o = m.get_samples(meth, num_samples=n, seed=(sd + 1) % (2 ** 32))
            mon.check(not np.array_equal(u1, u2) and not np.array_equal(u1, u3) and not np.array_equal(u2, u3),
                      'unseeded samples are fresh', meth=meth, n=n, d=d)
            mon.check(not np.array_equal(u1, a), 'unseeded samples differ from seeded ones', meth=meth, n=n, d=d)
            if n * d >= 6:
                mon.check(not np.array_equal(o, a), 'another seed gives other samples', meth=meth, n=n, d=d)
        mon.key(k, s, fl, d, sd if sd in SEEDS else 'other')
        return
    if k == 'requests':
        # many requests on one or two objects, in any order, each repeated
        s = gen.pick(rng, ['gp', 'tp', 'rf'])
        if gen.chance(rng, 0.2):
            R, fl = gen.box(rng, gen.pick(rng, [8, 20]), 'mixed')
        ms = [model(config(rng, s), R) for _ in range(2)]
        first = {}
        reqs = [(gen.pick(rng, gen.SAMP), gen.pick(rng, [6, 7, 16, 64, 129, 1030], [.3, .2, .2, .15, .1, .05]), gen.pick(rng, [sd, 0, 1, 7, 42])) for _ in range(8)]
        for i in range(40):
            q = reqs[rng.randint(len(reqs))]
            m = ms[rng.randint(2)]
            a = (m.get_initials(q[0], q[1], seed=q[2]) if gen.chance(rng, 0.3) else m.get_samples(q[0], num_samples=q[1], seed=q[2])).copy()
            if q in first:
                same(mon, [a], [first[q]], 'seeded samples repeat after other requests', request=q, position=i)
            first.setdefault(q, a)
            if gen.chance(rng, 0.2):
                u = m.get_samples(gen.pick(rng, gen.SAMP), num_samples=q[1])
                mon.check(not np.array_equal(u, a), 'unseeded samples are fresh', request=q)
        mon.key(k, s, fl, len(first), len(R))
        return
    f = gen.objective(rng, R, scale=gen.pick(rng, [1.0, 10.0]))
    X = gen.inside(rng, R, gen.pick(rng, [1, 2, 4, 8, 12]))
    Y = np.array([[f(x)] for x in X])
    meth = gen.pick(rng, gen.SAMP)
    n = gen.pick(rng, [1, 2, 4])
    if k in ('step', 'cma'):
        if k == 'cma' and case['i'] % 3 == 0:
            sd = SEEDS[(case['i'] // 3) % len(SEEDS)]
        s = gen.pick(rng, ['gp', 'tp'])
        c = config(rng, s, 'CMA-ES' if k == 'cma' else gen.pick(rng, ['L-BFGS-B', 'DIRECT'], [0.8, 0.2]))
        prior = gen.prior_fun(rng) if gen.chance(rng, 0.3) else None
        m = model(c, R, prior)
        ctx = dict(config=c, meth=meth, n=n, seed=sd, rows=len(X))
        a = step(m, c, X, Y, meth, n, sd)
        disturb(rng, R)
        step(m, c, X, Y, meth, n, gen.pick(rng, [None, 7]))
        b = step(m, c, X, Y, meth, n, sd)
        same(mon, b, a, 'a seeded step repeats on the same object', **ctx)
        disturb(rng, R)
        c2 = dict(c, debug=gen.chance(rng, 0.3), exp=gen.pick(rng, EXPS))
        e = step(model(c2, R, prior), c, X.copy(), Y.copy(), meth, n, sd)
        same(mon, e, a, 'a seeded step repeats on a fresh object', **ctx)
        mon.key(k, s, c['acq'], c['cov'], c['opt_bo'], meth, c['mlm'], d, sd if sd in SEEDS else 'other')
        mon.note(config=c, suggestion=a[0], repeats=3)
        return
    if k == 'rf':
        c = config(rng, 'rf')
        n = gen.pick(rng, [5, 60, 130])
        g = int(rng.randint(10 ** 6))
        m = model(c, R)
        np.random.seed(g)
        a = step(m, c, X, Y, meth, n, sd)
        disturb(rng, R)
        np.random.seed(g)
        b = step(gen.pick(rng, [m, model(c, R)]), c, X, Y, meth, n, sd)
        same(mon, b, a, 'a seeded tree step repeats', config=c, meth=meth, n=n, seed=sd)
        np.random.seed(g)
        np.random.rand()
        e = step(m, c, X, Y, meth, n, sd)
        same(mon, [e[1]], [a[1]], 'candidates of a tree step follow the seed alone', config=c, meth=meth, n=n, seed=sd)
        mon.key(k, c['acq'], meth, n, d)
        return
    if k == 'converged':
        c = config(rng, 'gp')
        c['mlm'] = 'converged'
        steps = int(rng.randint(2, 6))
        data = []
        for _ in range(steps):
            X = np.vstack([X, gen.inside(rng, R, 1)])
            Y = np.vstack([Y, [[f(X[-1])]]])
            data.append((X.copy(), Y.copy(), the_seed(rng)))
        m1 = model(c, R)
        r1 = [step(m1, c, x, y, meth, n, s) for x, y, s in data]
        m2 = model(c, R)
        m3 = model(c, R)
        for i, (x, y, s) in enumerate(data):
            disturb(rng, R)
            step(m3, c, x[:-1] if len(x) > 1 else x, y[:-1] if len(y) > 1 else y, meth, 1, None)
            same(mon, step(m2, c, x, y, meth, n, s), r1[i], 'the same history of calls repeats in converged mode', config=c, i=i)
        mon.key(k, c['acq'], c['cov'], meth, steps, d)
        return
    if k == 'wrapper':
        c = runs.config(rng, entry=gen.pick(rng, ['class.optimize', 'fn.round']), d=d if d < 4 else 2)
        c['seed'] = sd
        c['n_iter'] = 1
        R, fl = gen.box(rng, c['d'], gen.pick(rng, ['unit', 'sym', 'negative', 'ints']))
        f = gen.objective(rng, R, scale=1.0)
        res = []
        for _ in range(2):
            rec = runs.Recorder(f)
            b, m = runs.build(c, R, rec)
            r = runs.execute(c, b, m, rec)
            res.append((np.asarray(r[0])[:c['n_init']], m))
            disturb(rng, R)
        same(mon, [res[1][0]], [res[0][0]], 'seeded runs start from the same points', config=c)
        same(mon, [res[0][1].get_initials(c['init'], c['n_init'], seed=sd)], [res[0][0]],
             'seeded runs start from the seeded initial points', config=c)
        c2 = dict(c, seed=None, n_init=6)
        r3 = []
        for _ in range(2):
            rec = runs.Recorder(f)
            b, m = runs.build(c2, R, rec)
            r3.append(np.asarray(runs.execute(c2, b, m, rec)[0])[:6])
        mon.check(not np.array_equal(r3[0], r3[1]), 'unseeded runs start from fresh points', config=c)
        mon.key(k, c['entry'], c['surrogate'], c['init'], c['n_init'], sd if sd in SEEDS else 'other')
        return
    # process
    spec = [int(q) for q in rng.randint(0, 10 ** 9, 6)]
    here = job(spec)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10 ** 6)))
    out = subprocess.run([sys.executable, '-c',
                          'import sys; sys.path[:0] = [%r, %r]; sys.dont_write_bytecode = True\n'
                          'import json, importlib; m = importlib.import_module("props.c05")\n'
                          'r = m.job(%r); print("@@" + json.dumps(r))' % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), core.REPO, spec)],
                         capture_output=True, text=True, env=env, timeout=150)
    if '@@' not in out.stdout:
        mon.fail('the same requests fail in a fresh process', err=out.stderr[-800:])
        return
    there = json.loads(out.stdout.split('@@')[1])
    for q, a, b in zip(spec, there, here):
        same(mon, [np.array(v) for v in a], [np.array(v) for v in b], 'a fresh process gives the same results', request=q)
    mon.key(k, spec[0])
    mon.note(requests=len(spec), compared_with='fresh process')
