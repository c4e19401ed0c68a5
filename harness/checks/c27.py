"""C27 the size of the emission along the slit."""
import os
import shutil
import tempfile

import numpy as np

import core
import scene
from checks.c13 import sha
from checks.c25 import Book
from core import attempt, fix

HIT = ('sigma_y_emis_obs', 'sigma_y_emis_int', 'D50', 'sigma_y_emis_obs_err', 'sigma_y_emis_int_err', 'D50_err')


def build(mf, rng, C, prof):
    """A prepared spectrum whose sum over clear wavelengths is the profile."""
    n, w = C['n'], np.array(C['w']) / 10.
    g = scene.gal(mf, rows=n, nw=len(w))
    s = g.spec2D
    rs = np.random.RandomState(rng.randrange(1 << 30))
    s.flux = np.outer(prof, w)
    s.flux_err = np.repeat(np.array(C['err'])[:, None] / 1000., len(w), axis=1)
    s.mask_sky = np.ones(s.flux.shape)
    for j in C['sky']:
        s.mask_sky[:, j - 1] = 0.
        s.flux[:, j - 1] = rs.uniform(-500., 500., n)
        s.flux_err[:, j - 1] = rs.uniform(.5, 500., n)
    dark = np.setdiff1d(np.arange(n), C['lit'])
    if C['junk']:
        s.flux[dark] = rs.uniform(-50., 50., (len(dark), len(w)))
    s.low_snr_row_inds = dark
    s.mask_low_snr = np.ones(s.flux.shape)
    s.mask_low_snr[dark] = 0.
    s.wh_nosky = np.setdiff1d(np.arange(len(w)), np.array(C['sky'], dtype=int) - 1)
    s.m_lims = np.array([0, n])
    s.ypos = min(max(C['m'] / float(C['p']) + C['near'], 0.), n - 1.)
    s.m0 = s.ypos
    s.prepared_for_fitting = C['ready']
    s.slitobjname, s.band = 'obj', 'H'
    g.ID, g.maskname, g.field = 7, None if C['field'] else C['name'], C['name'] if C['field'] else None
    i = scene.inst(mf, psf=C['fw'] / 1e4, pix=C['p'] / 1e4, kind=rng.choice(['Gaussian', 'Moffat']))
    return g, i


def case(rng, way=None, n=None):
    C = dict(w=[rng.randint(5, 30) for _ in range(rng.choice([3, 5, 8]))], a=rng.choice([800, 1500, 3000]), near=rng.choice([0., .4, -1., 1.5]), junk=rng.random() < .5, ready=True, field=rng.random() < .4)
    C['sky'] = sorted(rng.sample(range(1, len(C['w']) + 1), rng.choice([0, 1, 1, 2])))
    C['p'] = 1800 if way else rng.choice([1800, 1000, 2130])
    C['n'] = 6 if way else n or rng.choice([8, 11, 14, 20, 31])
    big = (C['n'] - 1) * C['p'] / 2.3548
    if way:
        C.update(lit=way['lit'], s=way['s'], fw=way['fw'], m=2500 * 18 // 10)
    else:
        C['s'] = int(rng.choice([rng.uniform(1.1 * C['p'], .5 * big), rng.uniform(1.1 * C['p'], .8 * big), rng.uniform(.8, 2.5) * big if rng.random() < .3 else rng.uniform(.2, .5) * big]))
        C['m'] = int(rng.uniform(.3, .7) * (C['n'] - 1) * C['p'])
        keep = rng.random() < .4
        C['lit'] = [k for k in range(C['n']) if keep or abs(k * C['p'] - C['m']) < 1.2 * max(C['s'], 1.5 * C['p']) or rng.random() < .6]
        if rng.random() < .1:
            C['lit'] = sorted(rng.sample(C['lit'], min(len(C['lit']), rng.randrange(4))))
        C['fw'] = rng.choice([int(C['s'] * x) for x in (.8, 1.2, 1.5, 2., 2.9, 4.)])
    e = max(4, C['a'] * sum(C['w']) / 10. / rng.choice([40., 80.]) / np.sqrt(len(C['w'])))
    flat = rng.random() < .5
    C['err'] = [int(e if flat else e * rng.uniform(.6, 2.)) for _ in range(C['n'])]
    C['name'], title = rng.choice([('mask', 'mask'), ('m_1_2', 'm-1-2')])
    C['title'] = (C['name'] if C['field'] else title) + '.H.7 (SLITOBJNAME: obj)'
    return C


def close(C):
    """The threshold of too few rows is not put to the test by rounding."""
    return abs(len(C['lit']) * C['p'] * 10 - 8 * C['fw']) < 20


def measured(s, e4=1e4):
    v = [getattr(s, k) for k in HIT]
    return dict(obs=fix(v[0], e4), int=fix(v[1], e4), d50=fix(v[2], e4), eobs=[fix(x, e4) for x in v[3]], eint=[fix(x, e4) for x in v[4]], ed50=[fix(x, e4) for x in v[5]])


def read(ax, n):
    """What the figure shows."""
    f = dict(v=[], all=[], used=[], y=[], e=[], fit=[], title=ax.get_title())
    for l in ax.lines:
        x = np.asarray(l.get_xdata(), dtype=float)
        if len(x) == 2 and x[0] == x[1]:
            f['v'].append(fix(x[0], 1e4))
        elif l.get_color() == 'magenta':
            f['fit'] = [fix(y, 1000) for y in l.get_ydata()]
    f['v'].sort()
    grid = None
    for k in ax.containers:
        data, _, bars = k.lines
        x, y = np.asarray(data.get_xdata(), dtype=float), np.asarray(data.get_ydata(), dtype=float)
        if grid is None:
            grid = x
            f['all'] = list(range(len(x)))
            f['y'] = [fix(v, 1000) for v in y]
            f['e'] = [fix((s[1][1] - s[0][1]) / 2., 1000) for s in bars[0].get_segments()]
        else:
            f['used'] = [int(np.argmin(np.abs(grid - v))) for v in x]
    return f


def size(c, mf, C, d, mc):
    """One measurement through the spectrum's method (mc) or its function with few trials."""
    import matplotlib.pyplot as plt
    from misfit.general import galaxy_utils as gu
    rng = c.rng
    C['mc'] = mc
    draw = mc and rng.random() < .8
    out = {}

    def go():
        k = np.arange(C['n'])
        g, i = build(mf, rng, C, C['a'] / 1000. * np.exp(-.5 * ((k * C['p'] - C['m']) / float(C['s'])) ** 2))
        np.random.seed(rng.randrange(1 << 30))
        skip = {x: None for x in HIT}

        def rest():
            return sha([{a: b for a, b in g.spec2D.__dict__.items() if a not in skip}, {a: b for a, b in g.__dict__.items() if a != 'spec2D'}, i])
        before = rest()
        path = os.path.join(d, 'y.png')
        shown = []
        with Book() as b:
            hold, plt.show = plt.show, lambda *a, **kw: shown.append(plt.gcf())
            try:
                if mc:
                    kw = dict(rng.choice([dict(filename_plot=path), dict(plot=True), dict(filename_plot=path, plot=True)])) if draw else {}
                    g.spec2D.fit_emission_y_profile(g, i, **kw)
                else:
                    gu.fit_emission_y_profile(g.spec2D, g, i, num_MC=4)
            finally:
                plt.show = hold
            out.update(measured(g.spec2D))
            fig = b.pages[-1][1] if os.path.exists(path) else shown[-1] if shown else None
            out['drawn'], out['same'] = fig is not None, rest() == before
            if fig is not None:
                out['page'] = read(fig.axes[0], C['n'])
        if os.path.exists(path):
            os.remove(path)
    with core.quiet():
        _, ex = attempt(go)
    if ex and os.environ.get('DBG'):
        import traceback, sys
        try: go()
        except Exception: traceback.print_exc(file=sys.stderr)
    c.ev('size', raised=ex, ready=C['ready'], draw=draw, C={k: C[k] for k in ('n', 'p', 'fw', 'lit', 'a', 's', 'm', 'w', 'sky', 'err', 'mc', 'title')} | dict(slack=40), out=out if not ex else {})


def shape(c, mf):
    """A symmetric profile that is no Gaussian."""
    from misfit.general import galaxy_utils as gu
    rng = c.rng
    C = case(rng, n=rng.choice([9, 12, 15, 20]))
    n = C['n']
    m = (n - 1) * C['p'] // 2
    x = np.abs(np.arange(n) - (n - 1) / 2.)
    h = rng.uniform(1.2, n / 2.5)
    prof = rng.choice([lambda: np.clip(1.5 - x / (1.6 * h), 0., None), lambda: np.exp(-x / h), lambda: np.exp(-.5 * (x / h) ** 2) + .4 * np.exp(-.5 * (x / (.5 * h)) ** 2), lambda: 1. * (x <= h) + .2 * (x <= 1.7 * h)])()
    C.update(m=m, lit=list(range(n)), err=[30] * n, junk=False, near=rng.choice([0., .3]))
    C['fw'] = rng.choice([int(1.2 * C['p']), 3 * C['p']])
    out = {}

    def go():
        g, i = build(mf, rng, C, prof)
        gu.fit_emission_y_profile(g.spec2D, g, i, num_MC=2)
        out.update(measured(g.spec2D))
    with core.quiet():
        _, ex = attempt(go)
    c.ev('shape', raised=ex, C=dict(n=n, p=C['p'], fw=C['fw'], v=[fix(v, 1000) for v in prof]), out=out)


def main(c):
    mf = core.import_misfit()
    ways = c.emitted(c.model('MCExtent'))
    c.rng.shuffle(ways)
    d = tempfile.mkdtemp(dir=core.TMP)
    try:
        for n in range(70 if c.thorough else 14):
            c.history()
            for _ in range(28):
                if ways:
                    C = case(c.rng, way=ways.pop())
                    if not close(C):
                        size(c, mf, C, d, False)
            for j in range(4):
                C = case(c.rng)
                if not close(C):
                    size(c, mf, C, d, j < 1)
            if n % 7 == 0:
                C = case(c.rng)
                C['ready'] = False
                size(c, mf, C, d, True)
            for _ in range(5):
                shape(c, mf)
    finally:
        shutil.rmtree(d)
    c.assumptions.append('the scatter of the size is compared with its linear expectation, for errors small against the signal, within 40 per cent of one sigma (500 trials)')
    c.conform('ExtentTrace', shards=4)
