"""Instrumented Bayesian-optimization runs shared by several properties."""
import time
import numpy as np
import gen


class Recorder:
    """An objective which records every call."""

    def __init__(self, f, ret='float', fail_at=None, sleeps=None, exc=None, scribble=False):
        self.f = f
        self.ret = ret
        self.calls = []      # (x copy, value, t0, t1)
        self.shapes = []
        self.fail_at = fail_at
        self.exc = None
        self.make = exc or Boom
        self.sleeps = sleeps or {}
        self.scribble = scribble        # works in place on its argument, as objectives may
        self.buf = np.zeros(1)

    def __call__(self, x):
        t0 = time.time()
        k = len(self.calls)
        xa = np.array(x, dtype=float, copy=True)
        self.shapes.append(np.shape(x))
        if k in self.sleeps:
            time.sleep(self.sleeps[k])
        if self.fail_at is not None and k == self.fail_at:
            self.calls.append((xa, None, t0, time.time()))
            self.exc = self.make('injected failure at call %d' % k)
            raise self.exc
        v = self.f(xa)
        if self.ret == 'buffer':        # one preallocated array, overwritten by every call
            self.buf[0] = v
            out = self.buf
        else:
            out = gen.wrap_return(v, self.ret)
        if self.scribble and isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 12345.0
        self.calls.append((xa, v, t0, time.time()))
        return out

    def xs(self):
        return np.array([c[0] for c in self.calls])

    def ys(self):
        return np.array([c[1] for c in self.calls], dtype=float)


class Boom(Exception):
    pass


class Stop(BaseException):
    """Like KeyboardInterrupt: not an Exception."""


# what objectives raise in practice
FAULTS = [Boom, ZeroDivisionError, FloatingPointError, OverflowError, ValueError, TypeError, RuntimeError, KeyError,
          IndexError, AssertionError, NotImplementedError, OSError, MemoryError, TimeoutError,
          AttributeError, np.linalg.LinAlgError, Warning, Stop, KeyboardInterrupt, SystemExit,
          EOFError, ConnectionError]


class Spy:
    """Wraps the public step method of an optimizer object."""

    def __init__(self, model):
        self.steps = []
        self.model = model
        orig = model.optimize

        def optimize(X, Y, *a, **k):
            Xc, Yc = np.array(X, copy=True), np.array(Y, copy=True)
            r = orig(X, Y, *a, **k)
            self.steps.append((Xc, Yc, np.array(r[0], copy=True), r[1]))
            return r
        model.optimize = optimize


def config(rng, surrogate=None, d=None, entry=None, opt_bo=None, mlm=None):
    s = surrogate or gen.pick(rng, ['gp', 'tp'], [0.65, 0.35])
    if entry is None:
        entry = gen.pick(rng, ['class.optimize', 'class.inputs', 'class.all', 'fn.round', 'fn.inputs', 'fn.all'])
    if entry.startswith('fn.'):
        s = 'gp'
    d = d or gen.pick(rng, [1, 2, 3, 4], [0.3, 0.35, 0.25, 0.1])
    c = {
        'entry': entry, 'surrogate': s, 'd': d,
        'acq': gen.pick(rng, gen.ACQ),
        'normalize': gen.chance(rng, 0.7),
        'init': gen.pick(rng, gen.SAMP),
        'samp': gen.pick(rng, gen.SAMP + ['grid']),
        'debug': gen.chance(rng, 0.15),
        'exp': gen.pick(rng, [None, 'abc', 'exp_1']),
        'n_init': gen.pick(rng, [1, 2, 3, 5, 8]),
        'n_iter': gen.pick(rng, [1, 2, 3, 4]),
        'n_samp': gen.pick(rng, [1, 2, 3, 5]),
        'seed': gen.pick(rng, [None, 0, 1, 42, 2 ** 31 - 1, int(rng.randint(10 ** 6))]),
        'ret': gen.pick(rng, ['float', 'np', 'arr1', 'arr11', 'arr0', 'buffer']),
    }
    if c['samp'] == 'grid':
        c['n_samp'] = gen.pick(rng, [2, 3]) if d <= 2 else 2
    if s in ('gp', 'tp'):
        c['cov'] = gen.pick(rng, gen.COV)
        c['ard'] = gen.chance(rng, 0.6)
        c['opt_gp'] = gen.pick(rng, gen.OPT_GP)
        c['opt_tp'] = gen.pick(rng, gen.OPT_TP)
        c['opt_bo'] = opt_bo or gen.pick(rng, ['L-BFGS-B', 'DIRECT'], [0.85, 0.15])
        c['mlm'] = mlm or gen.pick(rng, gen.MLM, [0.6, 0.2, 0.2])
        c['sel'] = gen.pick(rng, ['ml', 'loocv'], [0.75, 0.25])
        c['prior'] = gen.pick(rng, ['none', 'none', 'const', 'linear'])
    else:
        c['opt_bo'] = 'random_search'
        c['n_samp'] = gen.pick(rng, [1, 7, 40, 100])
        if c['samp'] == 'grid':
            c['n_samp'] = 3
    return c


def build(c, R, fun, prior=None):
    """Returns (callable doing the run, model object, class object or None)."""
    from bayeso import wrappers, bo
    if c['entry'].startswith('class.'):
        kw = dict(str_surrogate=c['surrogate'], str_acq=c['acq'], normalize_Y=c['normalize'],
                  str_initial_method_bo=c['init'], str_sampling_method_ao=c['samp'],
                  str_optimizer_method_bo=c['opt_bo'], num_samples_ao=c['n_samp'], str_exp=c['exp'],
                  debug=c['debug'])
        if c['surrogate'] in ('gp', 'tp'):
            kw.update(str_cov=c['cov'], use_ard=c['ard'], prior_mu=prior,
                      str_optimizer_method_gp=c['opt_gp'], str_optimizer_method_tp=c['opt_tp'],
                      str_mlm_method=c['mlm'], str_modelselection_method=c['sel'])
        b = wrappers.BayesianOptimization(R, fun, c['n_iter'], **kw)
        return b, b.model_bo
    m = bo.BOwGP(R, str_cov=c['cov'], str_acq=c['acq'], normalize_Y=c['normalize'], use_ard=c['ard'],
                 prior_mu=prior, str_optimizer_method_gp=c['opt_gp'], str_optimizer_method_bo=c['opt_bo'],
                 str_modelselection_method=c['sel'], str_exp=c['exp'], debug=c['debug'])
    return None, m


def execute(c, b, m, fun, X0=None, Y0=None):
    from bayeso import wrappers
    e = c['entry']
    if e == 'class.optimize':
        return b.optimize(c['n_init'], seed=c['seed'])
    if e == 'class.inputs':
        return b.optimize_with_initial_inputs(X0)
    if e == 'class.all':
        return b.optimize_with_all_initial_information(X0, Y0)
    kw = dict(str_sampling_method_ao=c['samp'], num_samples_ao=c['n_samp'], str_mlm_method=c['mlm'])
    if e == 'fn.round':
        return wrappers.run_single_round(m, fun, c['n_init'], c['n_iter'], str_initial_method_bo=c['init'],
                                         seed=c['seed'], **kw)
    if e == 'fn.inputs':
        return wrappers.run_single_round_with_initial_inputs(m, fun, X0, c['n_iter'], **kw)
    return wrappers.run_single_round_with_all_initial_information(m, fun, X0, Y0, c['n_iter'], **kw)


def key(c):
    return [c[k] for k in ('entry', 'surrogate', 'acq', 'opt_bo', 'samp')] + \
        [c.get(k) for k in ('mlm', 'cov', 'sel')] + [c['d']]
