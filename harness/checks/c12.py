"""C12 priors, posterior, starting positions."""
import math

import numpy as np

import core
import scene
from core import attempt, num

U = 1024.


def q(v):
    return [num(float(x) * U) for x in v]


def qb(b):
    return [[0, 0] if x is None or any(y is None for y in x) else q(x) for x in b]


def lp(x):
    x = float(x)
    return core.NAN if x != x else core.NINF if x == -math.inf else core.PINF if x == math.inf else core.fix(x, 1000)


def rbounds(rng, n, vary, inf=True):
    out = []
    for i in range(n):
        lo = rng.randrange(-3000, 3000) / U
        hi = lo + rng.choice([0, rng.randrange(1, 2000)]) / U
        if inf and rng.random() < .2:
            lo = -np.inf
        if inf and rng.random() < .2:
            hi = np.inf
        if not vary[i] and rng.random() < .5:
            lo, hi = None, None
        out.append([lo, hi] if lo is not None or rng.random() < .5 else None)
    return out


def prior(c, mf, rng):
    n = rng.randrange(1, 7)
    vary = [rng.random() < .6 for _ in range(n)]
    b = rbounds(rng, n, vary)
    th = [rng.randrange(-3000, 3000) / U for _ in range(n)]
    p = mf.ThetaPriorFlat(theta=np.array(th), theta_vary=np.array(vary), theta_bounds=b)
    c.history()
    for _ in range(8):
        tf = []
        for i in range(n):
            if vary[i]:
                lo, hi = b[i]
                l, h = (lo if np.isfinite(lo) else -3.), (hi if np.isfinite(hi) else 3.)
                r = rng.random()
                e = rng.choice([1, 1, 5]) / U
                tf.append(l if r < .2 else h if r < .4 else l - e if r < .46 else h + e if r < .52 else
                          rng.choice([np.nan, np.inf, -np.inf]) if r < .56 else rng.randrange(int(min(l, h) * U), int(max(l, h) * U) + 1) / U)
        arg = rng.choice([np.array, list])(tf)
        out, ex = attempt(p.log_prior, theta_fitting=arg)
        c.ev('prior', tf=q(tf), vary=vary, bounds=qb(b), out=lp(out) if not ex else 0, raised=ex,
             kept=bool(np.array_equal(np.array(tf, dtype=float), np.array(arg, dtype=float), equal_nan=True) and list(p.theta) == th))


def start(c, mf, rng, fc):
    g = scene.gal(mf, rows=5, nw=5)
    vary = [rng.random() < .6 for _ in range(5)]
    b = rbounds(rng, 5, vary, inf=False)
    bb = [x if x is not None else [None, None] for x in b]
    st = scene.settings(mf, [100., .3, 50., 0., 1.5], vary, np.array(bb, dtype=object) if rng.random() < .5 else bb)
    f = mf.FitEmissionLines2D(galaxy=g, instrument=scene.inst(mf), thetaSettings=st, linegroup_name='Halpha', skip_fit_prep_calcs=True, usetex=False)
    f.kinModel = mf.KinModel2D(g, thetaSettings=st, no_scale=True)
    f.thetaPrior = mf.ThetaPriorFlat(theta=f.kinModel.theta, theta_vary=f.kinModel.theta_vary, theta_bounds=bb)
    n, nw = sum(vary), rng.choice([60, 75, 120])
    np.random.seed(rng.randrange(2 ** 31))
    pos, ex = attempt(fc.init_walker_pos, f, ndim=n, nwalkers=nw)
    d = dict(raised=ex, vary=vary, bounds=qb(b), n=nw)
    if not ex:
        pos = np.array(pos, dtype=float).reshape(len(pos), -1)
        fb = [bb[i] for i in range(5) if vary[i]]
        d['lo'] = [[int(math.floor(x * U)) for x in w] for w in pos]
        d['hi'] = [[int(math.ceil(x * U)) for x in w] for w in pos]
        d['prior'] = [lp(f.thetaPrior.log_prior(theta_fitting=w)) for w in pos]
        d['spread'] = bool(all(pos[:, j].max() - pos[:, j].min() >= .3 * (fb[j][1] - fb[j][0]) for j in range(min(pos.shape[1], n))))
    c.history()
    c.ev('start', **d)


def posterior(c, mf, rng, fc):
    rows, nw = rng.choice([5, 7]), rng.choice([5, 7])
    seed = rng.randrange(10 ** 6)
    pr = dict(pa=rng.choice([0., 20., -60.]), q=rng.choice([.1, .5, 1.]), rows=rows, nw=nw, dl=9.)
    ns = rng.choice([1, 1, 2])
    opt = dict(nSubpixels=ns, absvalsigma=rng.random() < .3)
    bad = rng.random() < .1
    r0 = np.random.RandomState(seed)
    fl = r0.normal(size=(rows, nw)) * 2 + 5 * np.exp(-(np.arange(nw) - nw // 2) ** 2 / 2.)[None, :]
    er = r0.uniform(.5, 2., size=(rows, nw))
    mk = (r0.uniform(size=(rows, nw)) > .15) * 1.
    wt = r0.uniform(.5, 1.5, size=(rows, 1)) * np.ones((rows, nw))
    sky = np.sort(r0.choice(nw, size=nw - 1, replace=False))
    if bad:
        er[rows // 2, nw // 2] = 0.
        mk[rows // 2, nw // 2] = 1.
        sky = np.array([i for i in sky if i != nw // 2])
    vary = [rng.random() < .6 for _ in range(5)]
    if not any(vary):
        vary[rng.randrange(5)] = True
    th0 = [150., 256 / U, rng.choice([60., 60., 2., -30.]), 0., 1.5]
    b = [[-300., 300.], [rng.choice([0., 64 / U]), 1.], [rng.choice([0., 20., -50.]), 120.], [-1., 1.], [1.5 - 4 / U, 1.5 + 4 / U]]

    def build():
        g = scene.gal(mf, **pr)
        scene.data(g, fl, er, mk, sky, wt)
        f = mf.FitEmissionLines2D(galaxy=g, instrument=scene.inst(mf), thetaSettings=scene.settings(mf, th0, vary, [list(x) for x in b]),
                                  kinModelOptions=mf.KinModel2DOptions(**opt), linegroup_name='Halpha', skip_fit_prep_calcs=True, usetex=False)
        f.setup_model()
        return f

    c.history()
    c.ev('setup', vary=vary, bounds=qb(b), raised='')
    pts = []
    for k in range(rng.randrange(3, 6)):
        tf = []
        for i in range(5):
            if vary[i]:
                lo, hi = b[i]
                r = rng.random()
                tf.append(lo if r < .12 else hi if r < .2 else hi + 1 / U if r < .26 else lo - 1 / U if r < .3 else th0[i] if r < .4 else rng.randrange(int(lo * U), int(hi * U) + 1) / U)
        if rng.random() < .1:
            tf[rng.randrange(len(tf))] = np.nan
        pts.append(tf)
        f = build()
        # the likelihood at these parameters, of a model built for them alone
        with core.quiet():
            _, ex = attempt(f.kinModel.make_model, galaxy=f.galaxy, instrument=f.instrument, theta_fitting=tf)
            L, ex2 = attempt(f.kinModel.model_llike) if not ex else (np.nan, '')
        und = bool(ex or ex2 or not np.isfinite(L))
        c.ev('point', tf=q(tf), like=0 if und else lp(L), undef=und, raised='')
    f1 = build()
    objs = [f1]
    p, ex = attempt(fc.make_pruned_fitEmis2D_class, f1)
    if ex:
        c.ev('setup', vary=vary, bounds=qb(b), raised=ex)
        return
    objs.append(p)
    for _ in range(rng.randrange(6, 14)):
        k = rng.randrange(len(pts))
        o = rng.choice(objs)
        if rng.random() < .1:
            o, ex = attempt(o.copy)
            objs.append(o)
        arg = np.array(pts[k])
        out, ex = attempt(fc.lnprob, arg, o)
        c.ev('eval', p=k + 1, out=lp(out) if not ex else 0, raised=ex, kept=bool(np.array_equal(arg, np.array(pts[k]), equal_nan=True)))


def main(c):
    mf = core.import_misfit()
    from misfit.fit import fit_core as fc
    rng = c.rng
    c.model('MCPrior')
    x = 6 if c.thorough else 1
    for _ in range(120 * x):
        prior(c, mf, rng)
    with core.quiet():
        for _ in range(40 * x):
            start(c, mf, rng, fc)
        for _ in range(40 * x):
            posterior(c, mf, rng, fc)
    c.conform('PriorTrace')
