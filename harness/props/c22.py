import os
import shutil
import tempfile
import numpy as np
import gen

RULE = ('A case calls one or two plotting functions, reads back every line, band, limit, label and legend of the figures, and '
        'lists the files written in and outside the given directory. Non-trivial always; distinct by function, sizes and '
        'options.')
CASE_LIMIT = 120


def plan(tier):
    k = 3 if tier == 'quick' else 12
    return [('sample', 36 * k), ('distribution', 44 * k), ('iter', 52 * k), ('time', 52 * k), ('step', 44 * k), ('step_acq', 44 * k)]


PREFIX = {'sample': 'gp_sampled_', 'distribution': 'gp_', 'step': 'bo_step_', 'step_acq': 'bo_step_acq_'}


def xy(line):
    return np.asarray(line.get_xdata(), float).reshape(-1), np.asarray(line.get_ydata(), float).reshape(-1)


def take(lines, x, y):
    """Removes and returns the first line with exactly these data."""
    x, y = np.asarray(x, float).reshape(-1), np.asarray(y, float).reshape(-1)
    for ln in lines:
        a, b = xy(ln)
        if a.shape == x.shape and np.allclose(a, x, rtol=1e-12, atol=1e-12) and np.allclose(b, y, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(y), initial=0))):
            lines.remove(ln)
            return ln
    return None


def band(mon, colls, x, lo, hi, ctx):
    sc = 1e-9 * (1 + max(np.max(np.abs(lo)), np.max(np.abs(hi))))
    for c in colls:
        V = np.vstack([p.vertices for p in c.get_paths()])
        ok = True
        for i in range(len(x)):
            for v in (lo[i], hi[i]):
                ok = ok and bool(np.any((np.abs(V[:, 0] - x[i]) < 1e-9) & (np.abs(V[:, 1] - v) < sc)))
        for vx, vy in V:
            j = np.where(np.abs(x - vx) < 1e-9)[0]
            ok = ok and len(j) > 0 and bool(np.min(np.minimum(np.abs(lo[j] - vy), np.abs(hi[j] - vy))) < sc)
        if ok:
            colls.remove(c)
            return True
    mon.fail('the shaded band spans mean plus and minus the given multiple of the deviation', low=lo, high=hi, **ctx)
    return False


def style(ln):
    import matplotlib.colors as mc
    return (tuple(np.round(mc.to_rgba(ln.get_color()), 4)), str(ln.get_marker()))


def rgb(c):
    import matplotlib.colors as mc
    return tuple(np.round(mc.to_rgba(c)[:3], 4))


def running(M, ni):
    n = M.shape[1]
    Z = np.array([[np.min(r[:ni + j]) for j in range(n - ni + 1)] for r in M])
    sd = np.std(Z, axis=0, ddof=1) if len(Z) > 1 else np.zeros(Z.shape[1])
    return Z.mean(axis=0), sd


def handles(mon, lg, curve, ctx):
    """The entries of a legend look like the curves they name."""
    for h, t in zip(lg.get_lines(), lg.get_texts()):
        want = curve.get(t.get_text())
        if want is not None:
            got = (rgb(h.get_color()), str(h.get_marker()))
            mon.check(got == want, 'a legend entry has the colour and marker of its curve', label=t.get_text(), got=got, want=want, **ctx)


def contents(fig):
    out = [[t.get_text() for lg in fig.legends for t in lg.get_texts()]]
    for a in fig.axes:
        lg = a.get_legend()
        out.append((len(a.get_lines()), [xy(ln)[1].tolist() for ln in a.get_lines()], [xy(ln)[0].tolist() for ln in a.get_lines()], len(a.collections), a.get_xlabel(), a.get_ylabel(), [float(v) for v in a.get_xlim()],
                    None if lg is None else [t.get_text() for t in lg.get_texts()]))
    return out


class Saves:
    """Records what a figure shows at the moment it is written."""

    def __enter__(self):
        import matplotlib.figure as mf
        self.cls, self.old, self.seen = mf.Figure, mf.Figure.savefig, []

        def savefig(fig, fname, *a, **k):
            self.seen.append((os.path.basename(str(fname)), fig, contents(fig)))
            return self.old(fig, fname, *a, **k)
        mf.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.old


def axes_of(fig):
    return [a for a in fig.axes]


def draw(rng, k):
    """Arguments of a call and what it has to show."""
    q = gen.pick(rng, [2, 5, 40, 300, 1500, 4000], [.25, .25, .25, .16, .05, .04])
    n = gen.pick(rng, [1, 2, 3, 7, 30])
    sc = 10 ** rng.uniform(-2, 3)
    off = rng.uniform(-3, 3) * sc
    X = np.sort(rng.rand(q))[:, None] * sc + off
    X[0], X[-1] = off, off + sc
    if gen.chance(rng, 0.2) and q > 2:
        X = X[rng.permutation(q)]
    Xt = rng.rand(n, 1) * sc + off
    Yt = rng.randn(n, 1) * 3
    mu, sd = rng.randn(q, 1) * 4, np.abs(rng.randn(q, 1))
    Yq, ac = rng.randn(q, 1), np.abs(rng.randn(q, 1))
    kw = {}
    if gen.chance(rng, 0.5):
        kw['str_x_axis'], kw['str_y_axis'] = 'input %d' % rng.randint(9), 'output %d' % rng.randint(9)
    if k != 'sample' and gen.chance(rng, 0.5):
        kw['range_shade'] = float(gen.pick(rng, [0.5, 1.0, 3.0]))
    if gen.chance(rng, 0.2) and k not in ('iter', 'time'):
        kw['draw_zero_axis'] = True
    if k not in ('step', 'step_acq') and gen.chance(rng, 0.4):
        pal = ['crimson', 'navy', '#11aa33', 'gold', 'teal', 'black', 'violet']
        kw['colors'] = np.array([pal[i] for i in rng.permutation(len(pal))[:rng.randint(3, 8)]])
        if k in ('iter', 'time'):
            mk = ['v', '^', 'D', 'p', 'h', '<', '>', '8']
            kw['markers'] = np.array([mk[i] for i in rng.permutation(len(mk))[:rng.randint(3, 9)]])
    w = dict(X=X, Xt=Xt, Yt=Yt, mu=mu, sd=sd, Yq=Yq, ac=ac)
    if k == 'sample':
        Ys = rng.randn(gen.pick(rng, [1, 2, 6, 25]), q)
        w['Ys'] = Ys
        return (X, Ys), kw, w
    if k == 'distribution':
        a = [Xt, Yt, X, mu, sd]
        if gen.chance(rng, 0.6):
            a.append(Yq)
        else:
            w['Yq'] = None
        return tuple(a), kw, w
    if k in ('iter', 'time'):
        L = gen.pick(rng, [1, 2, 3, 5, 11, 17], [.2, .2, .2, .2, .15, .05])
        r = gen.pick(rng, [1, 2, 4, 15])
        ni = gen.pick(rng, [1, 2, 4, 12])
        m = ni + gen.pick(rng, [1, 2, 8, 60])
        M = rng.randn(L, r, m) * 10 ** rng.uniform(-1, 2)
        labels = ['m%d %s' % (i, gen.pick(rng, ['a', 'b'])) for i in range(L)]
        w.update(M=M, labels=labels, ni=ni, std=gen.chance(rng, 0.5))
        kw['include_marker'] = gen.chance(rng, 0.5)
        kw['include_legend'] = gen.chance(rng, 0.5)
        if k == 'iter':
            return (M, labels, ni, w['std']), kw, w
        inc = gen.chance(rng, 0.5)
        T = np.abs(rng.randn(L, r, m if inc else m - ni)) + 0.01
        w.update(T=T, inc=inc)
        return (T, M, labels, ni, w['std']), kw, w
    w['num_init'] = None
    if gen.chance(rng, 0.6):
        w['num_init'] = kw['num_init'] = int(rng.randint(1, n + 1))
    if k == 'step':
        return (Xt, Yt, X, Yq, mu, sd), kw, w
    if gen.chance(rng, 0.5):
        kw['str_acq_axis'] = 'acq %d' % rng.randint(9)
    return (Xt, Yt, X, Yq, mu, sd, ac), kw, w


def inspect(mon, k, fig, kw, w, ctx):
    shade = kw.get('range_shade', 1.96)
    axs = axes_of(fig)
    if not mon.check(len(axs) == (2 if k == 'step_acq' else 1), 'one plot (two with the acquisition function)', axes=len(axs), **ctx):
        return
    ax = axs[0]
    lines = list(ax.get_lines())
    colls = list(ax.collections)
    X = w['X']
    xl = (float(np.min(X)), float(np.max(X)))
    dx, dy = {'iter': ('Iteration', 'Minimum function value'), 'time': ('Time (sec.)', 'Minimum function value')}.get(k, ('x', 'y'))
    dx, dy = kw.get('str_x_axis', dx), kw.get('str_y_axis', dy)
    if k == 'sample':
        for Y in w['Ys']:
            ln = take(lines, X, Y)
            if mon.check(ln is not None, 'every sampled function is drawn', **ctx) and 'colors' in kw:
                mon.check(rgb(ln.get_color()) in [rgb(c) for c in kw['colors']], 'the given colours are used', **ctx)
    elif k in ('distribution', 'step', 'step_acq'):
        m = take(lines, X, w['mu'])
        mon.check(m is not None, 'the mean is drawn', **ctx)
        if w['Yq'] is not None:
            t = take(lines, X, w['Yq'])
            mon.check(t is not None, 'the true function is drawn', **ctx)
            if t is not None and m is not None:
                mon.check(style(t) != style(m), 'mean and true function are distinguished', **ctx)
        if 'colors' in kw and m is not None:
            mon.check(rgb(m.get_color()) in [rgb(c) for c in kw['colors']], 'the given colours are used', **ctx)
        mu, sd = w['mu'][:, 0], w['sd'][:, 0]
        mon.check(band(mon, colls, X[:, 0], mu - shade * sd, mu + shade * sd, ctx), 'the band is drawn', **ctx)
        Xt, Yt = w['Xt'], w['Yt']
        n = len(Xt)
        if k == 'distribution':
            mon.check(take(lines, Xt, Yt) is not None, 'the data are drawn', **ctx)
        else:
            ni = w['num_init']
            if ni is None:
                groups = [(Xt[:-1], Yt[:-1]), (Xt[-1:], Yt[-1:])]
            elif n > ni:
                groups = [(Xt[:ni], Yt[:ni]), (Xt[ni:-1], Yt[ni:-1]), (Xt[-1:], Yt[-1:])]
            else:
                groups = [(Xt, Yt)]
            st = []
            for gx, gy in groups:
                if len(gx) == 0:
                    continue
                g = take(lines, gx, gy)
                mon.check(g is not None, 'initial, earlier and latest evaluations are drawn', groups=[len(z[0]) for z in groups], num_init=ni, **ctx)
                if g is not None:
                    st.append(style(g))
            mon.check(len(set(st)) == len(st), 'initial, earlier and latest evaluations are distinguished', styles=st, **ctx)
            lines = [ln for ln in lines if len(xy(ln)[0])]
    else:
        ends = []
        st = []
        curve = w['curve'] = {}
        for i, lab in enumerate(w['labels']):
            mean, sd = running(w['M'][i], w['ni'])
            if k == 'iter':
                x = np.arange(len(mean), dtype=float)
            else:
                T = w['T'][i][:, w['ni']:] if w['inc'] else w['T'][i]
                x = np.concatenate([[0.0], np.cumsum(T, axis=1).mean(axis=0)])
            ends += [x.min(), x.max()]
            ln = take(lines, x, mean)
            if mon.check(ln is not None, 'the mean running minimum of every label is drawn', label=lab, **ctx):
                mon.check(ln.get_label() == lab, 'curves carry their label', got=ln.get_label(), want=lab, **ctx)
                mon.check((str(ln.get_marker()) not in ('None', '', ' ')) == kw['include_marker'], 'markers as requested', marker=str(ln.get_marker()), **ctx)
                st.append(style(ln))
                curve[lab] = (rgb(ln.get_color()), str(ln.get_marker()))
                if 'colors' in kw:
                    mon.check(rgb(ln.get_color()) == rgb(kw['colors'][i % len(kw['colors'])]), 'the given colours are used in order', label=lab, **ctx)
                if 'markers' in kw and kw['include_marker']:
                    mon.check(str(ln.get_marker()) == kw['markers'][i % len(kw['markers'])], 'the given markers are used in order', label=lab, **ctx)
            if w['std']:
                mon.check(band(mon, colls, x, mean - shade * sd, mean + shade * sd, ctx), 'a band per label', label=lab, **ctx)
        xl = (min(ends), max(ends))
        u = 15 if 'colors' not in kw else min(len(kw['colors']), len(kw['markers']))
        mon.check(len(set(st[:u])) == len(st[:u]), 'curves are distinguished', styles=st, **ctx)
        lg = ax.get_legend()
        mon.check((lg is not None) == kw['include_legend'], 'a legend as requested', **ctx)
        if lg is not None:
            mon.check([t.get_text() for t in lg.get_texts()] == w['labels'], 'the legend lists the labels', got=[t.get_text() for t in lg.get_texts()], **ctx)
            handles(mon, lg, curve, ctx)
    mon.check(not lines and not colls, 'nothing else is drawn', lines=len(lines), bands=len(colls), **ctx)
    for a in axs:
        lo, hi = a.get_xlim()
        mon.check(abs(lo - xl[0]) <= 1e-9 * (1 + abs(xl[0])) and abs(hi - xl[1]) <= 1e-9 * (1 + abs(xl[1])), 'the limits span the data', got=[lo, hi], want=xl, **ctx)
    mon.check(axs[-1].get_xlabel() == dx, 'label of the horizontal axis', got=axs[-1].get_xlabel(), want=dx, **ctx)
    mon.check(ax.get_ylabel() == dy, 'label of the vertical axis', got=ax.get_ylabel(), want=dy, **ctx)
    if k == 'step_acq':
        ln = list(axs[1].get_lines())
        mon.check(take(ln, X, w['ac']) is not None and not ln, 'the acquisition function is drawn', **ctx)
        mon.check(axs[1].get_ylabel() == kw.get('str_acq_axis', 'acq.'), 'label of the acquisition axis', got=axs[1].get_ylabel(), **ctx)
    mon.event('figures')


def listing(root):
    return sorted(os.path.relpath(os.path.join(a, f), root) for a, _, fs in os.walk(root) for f in fs)


def run(case, mon):
    import matplotlib.pyplot as plt
    from bayeso.utils import utils_plotting as up
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    F = {'sample': up.plot_gp_via_sample, 'distribution': up.plot_gp_via_distribution, 'iter': up.plot_minimum_vs_iter,
         'time': up.plot_minimum_vs_time, 'step': up.plot_bo_step, 'step_acq': up.plot_bo_step_with_acq}
    plt.close('all')
    plt.ioff()
    work = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    old = os.getcwd()
    try:
        cwd = os.path.join(work, 'cwd')
        out = os.path.join(work, gen.pick(rng, ['out', 'out dir', 'o.pdf', '\u00e9%s']))
        os.makedirs(cwd)
        os.makedirs(out)
        os.chdir(cwd)
        args, kw, w = draw(rng, k)
        save = gen.pick(rng, ['no', 'path', 'name', 'both', 'both'])
        post = gen.pick(rng, ['p1', 'run_7', 'x-y', 'run_0.5', 'lr 0.1', 'v1.2.3', 'a.pdf', '\u03b1', 'x%d'])
        sk = {}
        where = gen.pick(rng, ['absolute', 'absolute', 'slash', 'relative', 'here'])
        if where == 'here':
            out = cwd
        if save in ('path', 'both'):
            sk['path_save'] = {'absolute': out, 'slash': out + os.sep, 'relative': os.path.relpath(out, cwd), 'here': '.'}[where]
        if save in ('name', 'both'):
            sk['str_postfix'] = post
        ctx = dict(plot=k, save=save, options={q: v for q, v in kw.items()})
        pause = gen.chance(rng, 0.12)
        user = None
        if gen.chance(rng, 0.3) and not pause:
            user = plt.figure()
            user.gca().plot([0.0, 3.0], [1.0, 2.0])
            user_has = contents(user)
        first = set(plt.get_fignums())
        sv = Saves()
        if pause:
            F[k](*args, **kw, **sk, pause_figure=True, time_pause=0.001)
            mon.check(not plt.get_fignums(), 'a paused figure is closed afterwards', open=len(plt.get_fignums()), **ctx)
        else:
            with sv:
                F[k](*args, **kw, **sk, pause_figure=False)
            nums = sorted(set(plt.get_fignums()) - first)
            if user is not None:
                mon.check(contents(user) == user_has and user.number in plt.get_fignums(), 'figures of the caller are left alone', **ctx)
            legend_saved = save == 'both' and k in ('iter', 'time')
            if mon.check(len(nums) >= 1, 'a figure exists', **ctx):
                fig = plt.figure(nums[0])
                inspect(mon, k, fig, kw, w, ctx)
                if legend_saved and len(nums) > 1:
                    lf = plt.figure(nums[1])
                    tx = [t.get_text() for lg in lf.legends for t in lg.get_texts()]
                    mon.check(tx == w['labels'], 'the saved legend lists the labels', got=tx, want=w['labels'], **ctx)
                    for lg in lf.legends:
                        handles(mon, lg, w['curve'], ctx)
                for nm, fg, had in sv.seen:
                    mon.event('saves')
                    mon.check(had == contents(fg), 'what is written is the finished figure', file=nm, **ctx)
                    mon.check((fg is fig) == (not nm.startswith('legend_')), 'the file shows the figure it is named after', file=nm, **ctx)
                if gen.chance(rng, 0.4):
                    # a second plot goes into its own figure
                    k2 = gen.pick(rng, sorted(F))
                    a2, kw2, w2 = draw(rng, k2)
                    before = set(plt.get_fignums())
                    F[k2](*a2, **kw2, pause_figure=False)
                    new = sorted(set(plt.get_fignums()) - before)
                    if mon.check(len(new) == 1, 'every plot has its own figure', new=len(new), **ctx):
                        inspect(mon, k2, plt.figure(new[0]), kw2, w2, dict(plot=k2, second=True))
                        inspect(mon, k, fig, kw, w, dict(ctx, after_second=True))
        got = listing(work)
        if save == 'both':
            pre = PREFIX.get(k) or ('minimum_' + ('time_' if k == 'time' else '') + ('mean_std_' if w['std'] else 'mean_only_'))
            od = os.path.relpath(out, work)
            want = [os.path.join(od, pre + post + '.pdf')]
            if k in ('iter', 'time'):
                want.append(os.path.join(od, 'legend_' + post + '.pdf'))
            mon.check(got == sorted(want), 'the figure and legend files are written there and nothing elsewhere', got=got, want=sorted(want), **ctx)
            for p in got:
                with open(os.path.join(work, p), 'rb') as f:
                    b = f.read()
                mon.check(b.startswith(b'%PDF') and len(b) > 500, 'files are not empty', file=p, size=len(b), **ctx)
            mon.event('files', len(got))
        else:
            mon.check(not got, 'without a directory and a name nothing is written', got=got, **ctx)
    finally:
        os.chdir(old)
        plt.close('all')
        plt.ioff()
        shutil.rmtree(work, ignore_errors=True)
    mon.key(k, save, pause, str(sorted(kw.items()))[:80], len(w['X']), len(w['Xt']))
    mon.note(plot=k, files=got)
