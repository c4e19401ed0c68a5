"""C16 blurring by seeing, instrument and sampling."""
import math

import numpy as np

import core
import scene
from core import attempt, fix

C = 299792.458


class Rings:
    """Light of w[0], w[1], w[2] at r^2 = 0, 1, 2 sub-pixels squared (face-on)."""
    def __init__(self, w, d):
        self.w, self.d = w, d

    def int(self, r, z):
        k = np.round((r / self.d) ** 2)
        return sum(np.where(k == i, float(x), 0.) for i, x in enumerate(self.w))

    def update_values(self, galaxy):
        pass


def psf(mf, kind, F, dither=None, beta=2.5):
    i = scene.inst(mf, psf=F, kind=kind, dither=dither, n=5)
    if kind == 'Moffat':
        i.PSF.PSF_beta = beta
    return i


def stamps(c, mf, rng):
    d = rng.choice([.05, .125, .09])
    F4 = rng.choice([4, 9, 14, 22, 40])
    F = F4 * d / 4.
    ny, nx = rng.choice([1, 3, 6]), rng.choice([1, 2, 5])
    y, x = np.arange(-ny, ny + 1) * d, np.arange(-nx, nx + 1) * d
    if rng.random() < .3:
        y, x = y[1:], x[:-1]          # any grid will do
    explicit = rng.random() < .3
    kw = dict(PSF_FWHM=F) if explicit else {}
    S, ex = attempt(lambda: psf(mf, 'Gaussian', F if not explicit else .77).PSF.generate_conv_stamp(x, y, **kw))
    pts = []
    if not ex:
        for a in range(len(y)):
            for b in range(len(x)):
                dy, dx = int(round(y[a] / d)), int(round(x[b] / d))
                if dy * dy + dx * dx < 1.5 * F4 * F4 / 16. * 4:
                    pts.append(dict(dy=dy, dx=dx, v=fix(math.log2(S[a, b]), 1000) if S[a, b] > 0 else core.NAN))
    c.ev('gauss', F4=F4, pts=pts, raised=ex)
    b10 = rng.choice([15, 25, 25, 47])
    beta = b10 / 10.
    t = 2. ** (1. / beta) - 1.
    m = [0, 1, 2, 3]
    r = np.array([math.sqrt((2. ** k - 1) / (4 * t)) * F for k in m])
    diag = rng.choice([0., .6, 1., .8])
    i = psf(mf, 'Moffat', F if not explicit else .77, beta=beta)

    def go():
        return [i.PSF.generate_conv_stamp(np.array([0., q * diag]), np.array([0., q * math.sqrt(1 - diag ** 2)]), **kw) for q in r]
    S, ex = attempt(go)
    c.ev('moffat', b10=b10, pts=[dict(m=k, v=fix(math.log2(s[1, 1] / s[0, 0]), 1000) if s[1, 1] / s[0, 0] > 0 else core.NAN) for k, s in zip(m, S)] if not ex else [], raised=ex)
    # dithers
    dd = rng.choice([1, 2, 3, 5])
    kind = rng.choice(['Gaussian', 'Moffat'])
    ny, nx = rng.choice([2, 4, 7]), rng.choice([1, 3])
    Y, X = np.arange(-ny - dd, ny + dd + 1) * d, np.arange(-nx, nx + 1) * d

    def both():
        P = psf(mf, kind, F).PSF.generate_conv_stamp(X, Y)
        return P, psf(mf, kind, F, dither=dd * d).PSF.generate_conv_stamp(X, Y[dd:-dd])
    o, ex = attempt(both)
    if not ex:
        P, D = o
        u = 1e6 / P.max()
        ints = lambda a: [[fix(v * u, 1) for v in r] for r in a]
        c.ev('dither', d=dd, P=ints(P), D=ints(D), raised='')
    else:
        c.ev('dither', d=dd, P=[], D=[], raised=ex)


KEEP = {}


def image(c, mf, rng):
    other = KEEP.get('i')
    cube = rng.random() < .25
    ns, rows = rng.choice([1, 2]), rng.choice([3, 4])
    if not cube:
        rows = rng.choice([4, 5, 7] if ns == 1 else [4, 5])
    pix = .25
    d = pix / ns
    nx = rows * ns if cube else rng.choice([2, 3, 4, 5])
    while True:
        F4, p = rng.choice([5, 7, 9, 11, 13, 15, 18]), rng.choice([1, 1, 2])
        if (F4 * p) % 8 != 4:
            break
    kind = rng.choice(['Gaussian', 'Moffat'])
    jy, kx = rng.randrange(rows * ns), rng.randrange(nx)
    if cube:
        kx = nx // 2              # the cube's object sits in the middle
        if nx % 2 == 0:
            cube, nx = False, rng.choice([2, 3, 5])
            kx = rng.randrange(nx)
    w = rng.choice([[1, 0, 0], [3, 1, 1], [2, 2, 1], [0, 1, 2]])
    if w == [0, 1, 2] and nx < 2:
        w = [1, 0, 0]
    # columns slightly narrower than rows when the slit is not a whole number of sub-pixels
    F4x, dx = F4, d
    if not cube and rng.random() < .4:
        ok = [q for q in range(F4 + 1, F4 + 6) if q % 4 and (q * p) % 8 != 4 and nx * F4 > (nx - 1) * q]
        if ok:
            F4x, w = rng.choice(ok), [1, 0, 0]
            dx = d * F4 / F4x
    m0 = (jy - (ns - 1) / 2.) / ns
    sh = rng.choice([0., .5, -1.])
    z, h = 1., 2.
    g = scene.gal(mf, z=z, q=1., q0=.19, pa=rng.choice([0., 40., -90.]), rows=rows, nw=21, dl=h, m0=m0 - sh)
    i = scene.inst(mf, res=0., slit=nx * dx, psf=F4 * d / 4., pix=pix, kind=kind, n=rows)
    if other and rng.random() < .5:      # an instrument that another model also uses
        i = other
        i.slit_width, i.pixscale, i.PSF.PSF_FWHM = nx * dx, pix, F4 * d / 4.
        kind = i.PSF.PSF_type
    KEEP['i'] = i
    lam = 6564.6 * (1 + z)
    th = [rng.choice([0., 100.]), .3, rng.uniform(.9, 1.8) * h / lam * C, sh, z]
    opts = dict(nSubpixels=ns, pad_factor=p / 2.)
    ip = Rings(w, dx)

    def go():
        if cube:
            m = scene.kin(mf, g, th, [True] * 5, opts=mf.KinModel2DOptions(**opts), ip=ip)
            m.make_3D_int_model(galaxy=g, instrument=i, theta_fitting=th)
            return m.model_cube.sum(axis=0) * d, m.aperModel
        m = mf.model.AperModel2D(galaxy=g, instrument=i, theta=np.array(th), kinProfile=mf.KinProfileFiducial(), intensityProfile=ip, xc=(kx + .5 - nx / 2.) * dx, **opts)
        if rng.random() < .4:
            th2 = list(th)
            th2[0] += 30.
            m.update_model(theta=np.array(th2))
        return m.model.sum(axis=1), m
    o, ex = attempt(go)
    S, img, L = [], [], []
    if not ex:
        a, m = o
        s = np.asarray(m.conv_stamp)
        s = s[0] if s.ndim == 3 else s
        S = [[fix(v / s.max(), 10000) for v in r] for r in s]
        L = [[fix(math.log2(v / s.max()), 1000) for v in r] for r in s] if kind == 'Gaussian' else []
        f = 1e5 * h / (dx * d * rows * ns)
        img = [fix(v * f, 1) for v in a] if not cube else [[fix(v * f, 1) for v in r] for r in a]
        if s.size > 500:
            return image(c, mf, rng)
    c.ev('cube' if cube else 'image', rows=rows, ns=ns, nx=nx, F4=F4, F4x=F4x, p=p, S=S, L=L, w=w, jy=jy, kx=kx, img=img, raised=ex)


def instrument(c, mf, rng):
    ns, rows = rng.choice([1, 2]), rng.choice([3, 5])
    z, h = rng.choice([1., 1.5]), rng.choice([2., 2., 20.])
    group = rng.choice(['Halpha', 'Halpha', 'OIII', 'SII'])
    vel = h == 2. and rng.random() < .2
    if h > 2.:
        group = 'Halpha'
    lam = dict(Halpha=6564.6, OIII=5008.24, SII=6732.673)[group] * (1 + z)
    hv = h / lam * C
    nw = rng.choice([60, 61]) if group != 'OIII' else rng.choice([150, 151])
    g = scene.gal(mf, z=z, q=rng.choice([.3, .7, 1.]), pa=rng.choice([0., 40.]), rows=rows, nw=nw, dl=h, group=group)
    if group == 'OIII':
        g.spec2D.wave = g.spec2D.wave - 24. * (1 + z)
    if vel:
        group, hv = 'Halpha', 20.
        g.spec2D.wave = hv * (np.arange(nw) - (nw - 1) / 2.)
    g.spec2D.wave = g.spec2D.wave + rng.uniform(-.5, .5) * (hv if vel else h)
    if h > 2.:
        g.spec2D.wave = g.spec2D.wave + rng.choice([-15, 14]) * h    # far from the middle of the spectrum
    res10 = int(rng.uniform(.85, 2.) * hv * 10)
    th = np.array([rng.choice([60., -100.]), .3, rng.uniform(.9, 1.5) * hv, 0., z])
    F = rng.choice([1e-6, .5])

    def go(res):
        i = scene.inst(mf, res=res, slit=.6, psf=F, pix=.2, n=rows, kind=rng.choice(['Gaussian', 'Moffat']) if F < .1 else 'Gaussian')
        m = mf.model.AperModel2D(galaxy=g, instrument=i, theta=th, kinProfile=mf.KinProfileFiducial(), intensityProfile=mf.IntensityProfileFiducial(g), nSubpixels=ns, spec_type='velocity' if vel else 'wave')
        return m.model
    a, e1 = attempt(go, 0.)
    b, e2 = attempt(go, res10 / 10.)
    out = dict(flux=[], flux2=[], mean=[], mean2=[], var=[], var2=[])
    if not e1 and not e2:
        w = g.spec2D.wave
        u = 1e6 / a.sum(axis=1).max()
        for m, t in ((a, ''), (b, '2')):
            mu = [(r * w).sum() / r.sum() for r in m]
            out['flux' + t] = [fix(r.sum() * u, 1) for r in m]
            out['mean' + t] = [fix(x, 1000 if not vel else 100) for x in mu]
            out['var' + t] = [fix((r * (w - x) ** 2).sum() / r.sum() * (1. if vel else (C / lam) ** 2), 100) for r, x in zip(m, mu)]
        if group != 'Halpha':           # several lines: their spread would swamp the width
            wide = [v for v in out['var'] if v > 400000]
            if wide:
                out['var'], out['var2'] = [], []
    c.ev('inst', res10=res10, raised=e1 or e2, **out)


def fine(c, mf, rng):
    ns, rows = rng.choice([1, 2]), rng.choice([3, 4])
    z, h, nw = 1., 3., rng.choice([16, 17, 21])
    f = rng.choice([2, 3, 3, 5])
    lam = 6564.6 * (1 + z)
    hv = h / lam * C
    adaptive = rng.random() < .85
    r = rng.choice([42, 43, 41, 44, rng.randrange(25, 60)])
    base = dict(z=z, n=1., re=.4, q=rng.choice([.3, .8]), pa=rng.choice([0., 50.]), rows=rows, group='Halpha')
    off = rng.uniform(-1., 1.)
    res = rng.choice([0., 30.])
    psfw = rng.choice([1e-6, .45])
    sign = rng.choice([1., 1., -1.])
    th = np.array([rng.choice([0., 120.]), .3, r / 100. * hv, 0., z])

    def model(step, n, ad, sig=None, box=None, **kw):
        g = scene.gal(mf, nw=n, dl=step, **base)
        g.spec2D.wave = g.spec2D.wave + off
        i = scene.inst(mf, res=res, slit=.6, psf=psfw, pix=.2, n=rows)
        t = th.copy()
        if sig is not None:
            t[2] = sig
        m = mf.model.AperModel2D(galaxy=g, instrument=i, theta=t, kinProfile=mf.KinProfileFiducial(), intensityProfile=mf.IntensityProfileFiducial(g), nSubpixels=ns,
                                 adaptive_upsample_wave=ad, adaptive_upsample_factor=float(f), **dict(dict(sigma_floor=False), **kw))
        return m, g

    def go():
        m, g = model(h, nw, adaptive)
        if rng.random() < .4:          # wide, then narrow again
            t = th.copy()
            t[2] = 2 * hv
            m.update_model(theta=t)
            m.update_model(theta=th.copy())
        a = m.model.copy()
        b = model(h / f, nw * f, False)[0].model
        k = model(h, nw, False)[0].model
        return a, b, k, g.spec2D.wave, m.wave_arr, m.nWave
    o, ex = attempt(go)
    if ex:
        c.ev('fine', raised=ex)
    else:
        a, b, k, w, w2, n2 = o
        u = 1e5 / np.abs(b).max()
        ints = lambda q: [[fix(v * u, 1) for v in row] for row in q]
        grid = lambda q: [fix(v, 1000) for v in q]
        c.ev('fine', r=r, adaptive=adaptive, f=f, got=ints(a), fine=ints(b), coarse=ints(k), grid=grid(w), grid2=grid(w2), n2=int(n2), raised='')
    # dispersions below the floor are taken at the floor
    fl = (.75 / f if adaptive else 1.) * hv / 2.35
    s3 = fl * rng.uniform(1.05, 1.5)
    s1, s2 = rng.uniform(0., .95) * fl * rng.choice([1, -1]), fl * 1.0000001
    o, ex = attempt(lambda: [model(h, nw, adaptive, sig=s, sigma_floor=b)[0].model for s, b in ((s1, True), (s2, False), (s3, True), (s3, False))])
    u = 1e5 / np.abs(o[1]).max() if not ex else 1.
    ints = lambda q: [[fix(v * u, 1) for v in row] for row in q]
    c.ev('floor', raised=ex, **{k: ints(o[q]) if not ex else [] for q, k in enumerate('abcd')})


def main(c):
    mf = core.import_misfit()
    c.model('MCBlur')
    n = 8 if c.thorough else 1
    with core.quiet():
        for _ in range(60 * n):
            c.history()
            stamps(c, mf, c.rng)
            c.history()
            image(c, mf, c.rng)
            if _ % 2:
                instrument(c, mf, c.rng)
            else:
                fine(c, mf, c.rng)
    c.conform('BlurTrace')
