"""C15 line positions and widths follow the rotation."""
import math

import numpy as np

import core
import scene
from core import attempt, fix
from checks.c14 import ROT, INC, Poly, angle

C = 299792.458


class Solid:
    """Solid-body rotation (theta[0] km/s per arcsec)."""
    def __init__(self):
        self.theta = np.array([0., 0.])
        self.name = 'solid'

    def vel(self, r, z):
        return self.theta[0] * r


def profile(mf):
    return mf.model.kin_classes.KinProfile(velProfile=Solid(), dispProfile=mf.model.kin_classes.DispConstProfile())


def scene_view(rng):
    """A view whose exact moments stay within 32 bits."""
    while True:
        ns, rows = rng.choice([1, 1, 2]), rng.choice([3, 4, 5])
        pc, ic = rng.choice(ROT), rng.choice(INC[1:] if rng.random() < .9 else INC)
        W = 4 * rng.randrange(1, 5)
        u = rng.choice([4, 4, 4, 1])
        v = dict(rows=rows, ns=ns, W=W, M4=rng.randrange(0, 4 * rows), Xc=rng.choice([0, 0, 4, -8]) if u == 4 else rng.choice([0, 3, -2]), u=u,
                 pc=pc[0], ps=pc[1], pd=pc[2], ic=ic[0], id=ic[2], a=rng.choice([1, 1, 2, 4]), b=rng.choice([0, 0, 1, 2]), c=rng.choice([0, 0, 1]), d=0)
        if u == 4:
            v['M4'] -= v['M4'] % 2
        v['is'] = ic[1]
        L = (8 // u) * pc[2] * ic[2]          # units per sub-pixel
        ymax = max(abs(-ns * v['M4'] / 4. - 1), abs(rows * ns - ns * v['M4'] / 4.)) + W / 8. + abs(v['Xc']) / 8.
        ext = ymax + rows * ns / 2.
        w = v['a'] * L * L + (v['b'] + v['c']) * (ext * L) ** 2
        n = ns * (W // 4) * rows * ns
        if w * n * (ymax * L) ** 2 < 1.5e9 and w * n * L * L < 1.5e9:
            K = rng.choice([-1, 1]) * rng.choice([3, 8, 15, 30])
            if abs(K) * ymax <= 55:
                return dict(v, K=K)


def trace(c, mf, rng):
    v = scene_view(rng)
    ns, rows = v['ns'], v['rows']
    pix = .25
    d = pix / ns
    sini = v['is'] / v['id']
    if sini == 1.:
        q, q0 = rng.choice([(0., .25), (.2, .25), (0., 0.)])
    elif sini == 0.:
        q, q0 = 1., rng.choice([0., .19])
    else:
        q0 = rng.choice([0., .3])
        q = math.sqrt(1 - sini ** 2 * (1 - q0 ** 2))
    sort = rng.choice(['rows', 'rows', 'rows', 'vrows', 'cube'])
    if sort == 'cube':
        v.update(Xc=0)
    group = rng.choice(['Halpha', 'Hbeta', 'OIII', 'NII']) if sort == 'rows' else 'Halpha'
    zn = rng.choice([4, 8, 12])
    z = zn / 8.
    h = rng.choice([1.5, 2.])
    g = scene.gal(mf, z=z, q=q, q0=q0, pa=angle((v['pc'], v['ps'])), rows=rows, nw=5, dl=h, group=group, m0=v['M4'] / 4.)
    lam = np.array(g.spec2D.restwave_arr) * (1 + z)
    up = rng.choice([0, 0, 3, 5])
    hv = h / lam[0] * C
    if sort == 'vrows':
        hv = rng.choice([20., 35.])
        g.spec2D.wave = hv * np.arange(-14, 15) + rng.uniform(-5, 5)
    else:
        g.spec2D.wave = np.arange(lam.min() - 36., lam.max() + 36., h) + rng.uniform(-1., 1.)
    nw = len(g.spec2D.wave)
    g.spec2D.shape = [rows, nw]
    i = scene.inst(mf, res=0., slit=v['W'] * d / 4., psf=1e-6, pix=pix, n=rows)
    ip = Poly(v['a'], v['b'], v['c'], d)

    def sigma():
        return round(rng.uniform(.92, 1.8) * hv, 1)       # (binning narrower lines moves their centroids)
    sh = rng.choice([0, 2, -4])
    g.spec2D.m0 = (v['M4'] - sh) / 4.
    opts = dict(nSubpixels=ns, adaptive_upsample_wave=up > 0, adaptive_upsample_factor=float(up or 3))
    box = []
    for n in range(rng.choice([1, 2, 3])):
        s = sigma()
        if n:
            v = dict(v, K=rng.choice([-v['K'], v['K'], rng.choice([1, -1, 2])]))
        th = [v['K'] / d, 0., s, sh / 4., z]

        def go():
            if sort == 'cube':
                if not box:
                    box.append(scene.kin(mf, g, th, [True] * 5, opts=mf.KinModel2DOptions(**opts), kp=profile(mf), ip=ip))
                    box[0].make_3D_int_model(galaxy=g, instrument=i, theta_fitting=th)
                else:
                    box[0].update_3D_int_model(theta_fitting=th)
                return box[0].model_cube
            if not box:
                box.append(mf.model.AperModel2D(galaxy=g, instrument=i, theta=np.array(th), kinProfile=profile(mf), intensityProfile=ip, xc=v['Xc'] * d / 8.,
                                                spec_type='velocity' if sort == 'vrows' else 'wave', **opts))
            else:
                box[0].update_model(theta=np.array(th))
            return box[0].model
        a, ex = attempt(go)
        w = g.spec2D.wave
        base = dict(c=v, sig10=int(round(s * 10)))
        mean = lambda f, x: float((f * x).sum() / f.sum())
        if sort == 'cube':
            vel = [[fix((mean(a[:, y, x], w) / lam[0] - 1) * C * 1000, 1) for x in range(rows)] for y in range(rows)] if not ex else []
            c.ev('cube', v=vel, raised=ex, **base)
        elif sort == 'vrows':
            m = [mean(r, w) for r in a] if not ex else []
            c.ev('vrows', v=[fix(x * 1000, 1) for x in m], var=[fix(mean(r, (w - x) ** 2) * 100, 1) for r, x in zip(a, m)] if not ex else [], raised=ex, **base)
        else:
            obs, var = [], []
            if not ex:
                for l in lam:
                    o = [abs(x - l) for x in lam if x != l]
                    sel = np.abs(w - l) < (min(o) / 2. if o else 1e9)
                    m = [mean(r[sel], w[sel]) for r in a]
                    obs.append([fix(x * 1000, 1) for x in m])
                    var.append([fix(mean(r[sel], (w[sel] - x) ** 2) * 100 * (C / l) ** 2, 1) for r, x in zip(a, m)])
            c.ev('rows', obs=obs, var=var[:1], zn=zn, group=group, raised=ex, **base)


def tables(c, mf, rng):
    kf = mf.model.kin_functions
    q0 = rng.choice([0, 10, 19, 25, 40])
    q = rng.choice([q0, max(0, q0 - 1), min(100, q0 + 1), rng.randrange(0, 101), 0, 100])
    g = scene.gal(mf, q=q / 100., q0=q0 / 100., rows=3, nw=3)
    i = scene.inst(mf, res=0., psf=1e-6, n=3)

    def go():
        m = mf.model.AperModel2D(galaxy=g, instrument=i, theta=np.array([10., 1., 50., 0., 1.5]), kinProfile=mf.KinProfileFiducial(), intensityProfile=mf.IntensityProfileFiducial(g))
        return m.sini
    s, ex = attempt(kf.sin_i, q / 100., q0=q0 / 100.)
    a, ex2 = attempt(go)
    c.ev('sini', q=q, q0=q0, s2=fix(s ** 2) if not ex else 0, aper=fix(a ** 2) if not ex2 else 0, raised=ex or ex2)
    Va, rt, t, sg = rng.choice([150., -90., 0., 300.]), rng.choice([.05, .4, 2.]), rng.choice([0, 1, 2, 3, 4, 5]), rng.choice([1, 40, 90])
    kp = mf.KinProfileFiducial()

    def cur():
        kp.update_theta(np.array([Va, rt, float(sg), .5, 1.]))
        r = np.array([rt * math.tan(math.pi * t / 12.)])
        return kp.vel(r, r * 0.)[0], kp.sigma(r, r * 0.)[0]
    o, ex = attempt(cur)
    c.ev('curve', Va=int(Va), t=t, sigma=sg * 1000, v=fix(o[0], 1000) if not ex else 0, s=fix(o[1], 1000) if not ex else 0, raised=ex)


def related(c, mf, rng):
    ns, rows, pix = rng.choice([1, 2]), rng.choice([5, 6]), .2
    base = dict(pa=rng.choice([0., 35., -60., 130., 90., -90.]), q=rng.choice([.15, .4, .8]), m4=rng.randrange(4, 4 * rows - 6), xc=rng.choice([0., 0., .07, -.15]), Va=rng.choice([-150., 90., 200.]), rt=rng.choice([.05, .3]), z=1.)
    n, re = rng.choice([.5, 1., 2.]), rng.choice([.3, .6])
    h = 2.

    def vels(v):
        lam = 6564.6 * (1 + v['z'])
        sh = rng.choice([0, 0, 2, -1])
        g = scene.gal(mf, z=1., n=n, re=re, q=v['q'], pa=v['pa'], rows=rows, nw=45, dl=h, m0=(v['m4'] - sh) / 4.)
        i = scene.inst(mf, res=0., slit=.55, psf=1e-6, pix=pix, n=rows)
        th = np.array([v['Va'], v['rt'], rng.choice([.9, 1.2, 1.6]) * h / lam * C, sh / 4., v['z']])
        m = mf.model.AperModel2D(galaxy=g, instrument=i, theta=th, kinProfile=mf.KinProfileFiducial(), intensityProfile=mf.IntensityProfileFiducial(g), xc=v['xc'], nSubpixels=ns)
        return [((r * g.spec2D.wave).sum() / r.sum() / lam - 1) * C for r in m.model]
    out = lambda a: [fix(x, 1000) for x in a]
    b, ex = attempt(vels, base)
    c.ev('base', v=out(b) if not ex else [], raised=ex)

    def rel(name, why, v, **kw):
        a, x = attempt(vels, v)
        c.ev('rel', rel=name, why=why, v=out(a) if not x else [], raised=x, **kw)
    B = lambda **kw: dict(base, **kw)
    end = 4 * (rows - 1) - base['m4']
    todo = [lambda: rel('same', 'dispersion', base), lambda: rel('neg', 'reversed rotation', B(Va=-base['Va'])),
            lambda: rel('same', 'mirror', B(pa=-base['pa'], xc=-base['xc'])), lambda: rel('flip', 'end for end', B(pa=-base['pa'], m4=end, Va=-base['Va'])),
            lambda: rel('same', 'redshift', B(z=1. + rng.choice([-4, 3, 6]) / 6564.6)), lambda: rel('shift', 'object row', B(m4=base['m4'] + 4), by=1),
            lambda: rel('zero', 'face-on', B(q=1.)), lambda: rel('zero', 'no rotation', B(Va=0.)), lambda: rel('zero', 'across', B(pa=rng.choice([90., -90.]), xc=0.)),
            lambda: rel('sense', 'sign', B(xc=0.), va=int(base['Va']) // 10, m4=base['m4'], sense=0 if abs(base['pa']) == 90. else (1 if abs(base['pa']) < 90. else -1)),
            lambda: rel('same' if base['xc'] else 'neg', 'half turn', B(pa=base['pa'] + 180.) if not base['xc'] else base)]
    for f in rng.sample(todo, 5):
        f()


def main(c):
    mf = core.import_misfit()
    c.model('MCMotion')
    n = 8 if c.thorough else 1
    with core.quiet():
        for _ in range(130 * n):
            c.history()
            trace(c, mf, c.rng)
        for _ in range(60 * n):
            c.history()
            tables(c, mf, c.rng)
        for _ in range(35 * n):
            c.history()
            related(c, mf, c.rng)
    c.conform('MotionTrace')
