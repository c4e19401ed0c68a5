"""C14 what each detector row collects."""
import math

import numpy as np

import core
import scene
from core import attempt, fix

C = 299792.458
ROT = [(1, 0, 1), (-1, 0, 1), (0, 1, 1), (0, -1, 1), (3, 4, 5), (4, 3, 5), (-3, 4, 5), (4, -3, 5)]
INC = [(1, 0, 1), (0, 1, 1), (4, 3, 5), (3, 4, 5)]
GROUPS = dict(Halpha=0., Hbeta=0., SII=15., OII=3., OIII=48., NII=36.)


class Poly:
    """intensity a + b r^2 + c z^2 (lengths in units of d)"""
    def __init__(self, a, b, c, d, quad=0):
        self.a, self.b, self.c, self.d, self.quad = a, b, c, d, quad

    def int(self, r, z):
        return self.a + self.b * (r / self.d) ** 2 + self.c * (z / self.d) ** 2 + self.quad * (r * z / self.d ** 2) ** 2

    def update_values(self, galaxy):
        pass


def angle(cs):
    return math.degrees(math.atan2(cs[1], cs[0]))


def speeds(rng, lam, h):
    """Kinematics whose lines the grid resolves and holds."""
    s = rng.choice([rng.uniform(.86, 2.), rng.uniform(.86, 2.), rng.uniform(.3, .4)])
    return [rng.choice([0., 150., -120., 60.]), rng.choice([.05, .3, 2.]), s * h / lam * C]


def grid(group, z, h):
    half = 30. + GROUPS[group] * (1 + z)
    return 2 * int(math.ceil(half / h)) + 1


def view(c, mf, rng, cube=False):
    ns = rng.choice([1, 2, 2, 3])
    rows = rng.choice([3, 4, 5, 6] if ns < 3 else [3, 4])
    if cube:
        ns, rows = rng.choice([1, 2]), rng.choice([3, 4])
    trivial = ns == 3 or rng.random() < .4
    if trivial:
        pc, ic = rng.choice(ROT[:4]), rng.choice(INC[:2])
        W = 4 * rng.randrange(1, 6) + (2 if ns == 3 else rng.randrange(4))
    else:
        pc, ic = rng.choice(ROT), rng.choice(INC)
        W = 4 * rng.randrange(1, 6)
    kin = rng.random() < .4 or cube
    v = dict(rows=rows, ns=ns, W=W, M4=rng.randrange(-2, 4 * rows), Xc=0 if kin else rng.choice([0, 3, -5, 8, 12]),
             pc=pc[0], ps=pc[1], pd=pc[2], ic=ic[0], id=ic[2], a=rng.randrange(3), b=rng.randrange(3), c=rng.randrange(3))
    v['is'] = ic[1]
    v['d'] = 0
    if W % 4 == 0 and pc[2] * ic[2] <= 5 and ns < 3 and rows * ns <= 6 and W <= 16 and rng.random() < .8:
        v['d'] = rng.randrange(1, 3)
        v['M4'] = 2 * rng.randrange(2 * rows)
        v['Xc'] = 4 * (v['Xc'] // 4)
    if v['a'] + v['b'] + v['c'] + v['d'] == 0:
        v['a'] = 1
    pix = .25
    d = pix / ns
    sini = ic[1] / ic[2]
    if sini == 1.:
        q, q0 = rng.choice([(0., .25), (.2, .25), (0., 0.)])
    elif sini == 0.:
        q, q0 = 1., rng.choice([0., .19])
    elif rng.random() < .5:
        q, q0 = math.sqrt(1 - sini ** 2), 0.
    else:
        q0 = .3
        q = math.sqrt(1 - sini ** 2 * (1 - q0 ** 2))
    group = rng.choice(list(GROUPS) if rng.random() < .5 else ['Halpha'])
    z, h = rng.choice([(.5, 2.), (1.5, 2.), (1., 3.)])
    nw = grid(group, z, h)
    M4 = v['M4']
    sh = rng.choice([0, 1, -2, 4])        # quarter pixels carried by the offset
    g = scene.gal(mf, z=z, q=q, q0=q0, pa=angle(pc), rows=rows, nw=nw, dl=h, group=group, m0=(M4 - sh) / 4.)
    g.spec2D.wave = g.spec2D.wave + rng.uniform(-1., 1.)
    slit = W * d / 4. if ns != 3 else W * pix / 12.
    i = scene.inst(mf, res=0., slit=slit, psf=1e-6, pix=pix, kind=rng.choice(['Gaussian', 'Moffat']), n=rows)
    lam = g.spec2D.restwave_arr[0] * (1 + z)
    ip = Poly(v['a'], v['b'], v['c'], d, v['d'])
    absv = rng.random() < .3
    up, floor = rng.random() < .8, rng.random() < .6
    opts = dict(nSubpixels=ns, pad_factor=rng.choice([.5, 1.]), absvalsigma=absv, adaptive_upsample_wave=up, sigma_floor=floor,
                adaptive_upsample_factor=rng.choice([3., 3., 5.]))

    def theta():
        th = speeds(rng, lam, h)
        if not up and th[2] < .5 * h / lam * C:
            th[2] *= 3.
        if not floor and rng.random() < .3:
            th[2] = 0.
        if absv and rng.random() < .5:
            th[2] = -th[2]
        return th + [sh / 4., z]
    th = theta()
    if kin:
        m, ex = attempt(scene.kin, mf, g, th, [True] * 5, opts=mf.KinModel2DOptions(**opts), ip=ip)
        make = (lambda: m.make_3D_int_model(galaxy=g, instrument=i, theta_fitting=th)) if cube else (lambda: m.make_model(galaxy=g, instrument=i, theta_fitting=th))
        upd = (lambda t: m.update_3D_int_model(theta_fitting=t)) if cube else (lambda t: m.update_model(theta_fitting=t))
        get = (lambda: m.model_cube) if cube else (lambda: m.model)
    else:
        box = []
        make = lambda: box.append(mf.model.AperModel2D(galaxy=g, instrument=i, theta=np.array(th), kinProfile=mf.KinProfileFiducial(), intensityProfile=ip, xc=v['Xc'] * d / 8., **opts))
        upd = lambda t: box[0].update_model(theta=np.array(t))
        get = lambda: box[0].model
        m, ex = 1, ''
    ratio = float(np.sum(g.spec2D.flux_ratio_arr))
    dx = d if cube else slit / math.ceil(W / 4.)
    if not ex:
        _, ex = attempt(make)
    for n in range(rng.choice([1, 2, 3])):
        if n and not ex:
            if rng.random() < .5:
                ds = rng.choice([-4, 4, 2, -1] if not v['d'] else [-4, 4, 2])
                v = dict(v, M4=v['M4'] + ds)
                sh += ds
            _, ex = attempt(upd, theta())
        if ex:
            c.ev('cube' if cube else 'view', c=v, img=[], ratio=0, group=group, raised=ex)
            return
        a = np.asarray(get(), dtype=float)
        f = 1000. * h / (d * ratio)
        if cube:
            img = [[fix(x * f, 1) for x in r] for r in a.sum(axis=0)]
            c.ev('cube', c=v, img=img, raised='')
        else:
            img = [fix(x * f / dx, 1) for x in a.sum(axis=1)]
            c.ev('view', c=v, img=img, ratio=fix(ratio), group=group, raised='')


def profile(c, mf, rng):
    n4, re, q0 = rng.randrange(2, 33), rng.choice([.125, .5, 1.25]), rng.choice([.1, .19, .25])
    other = dict(n=n4 / 4., re_arcsec=re, q0=q0)
    g = mf.Galaxy(z=1., ID='g', delt_PA=0., q=.5, generate_model=True, **other)
    scale = rng.random() < .3
    kind = mf.model.kin_classes.IntensityProfileSersicExpScale if scale else mf.IntensityProfileFiducial

    def go():
        if rng.random() < .5:
            ip = kind(g)
        else:
            ip = kind(mf.Galaxy(z=1., ID='o', n=1., re_arcsec=.3, q0=.3, delt_PA=0., q=.5, generate_model=True))
            ip.update_values(g)
        pts = []
        for _ in range(8):
            k2, t = rng.choice([0, 1, 2, 3, 4]), rng.randrange(-20, 21)
            if n4 * abs(2 - k2) > 60:
                k2 = rng.choice([1, 3])
            v = ip.int(np.array([re * (k2 / 2.) ** (n4 / 4.)]), np.array([t / 8. * q0 * re]))[0]
            pts.append(dict(k2=k2, t=t, ln=fix(math.log(v) * 2000., 1000) if v > 0 else core.NAN))
        return pts
    pts, ex = attempt(go)
    c.ev('profile', n4=n4, scale=scale, pts=pts or [], raised=ex)


def related(c, mf, rng):
    """Views of a real light profile (possibly through a real seeing disc)."""
    ns, rows, pix = rng.choice([1, 2]), rng.choice([5, 7, 8]), .2
    d = pix / ns
    ncol = rng.choice([2, 3, 5])
    base = dict(pa=rng.choice([0., 35., -60., 90., 130.]), q=rng.choice([.15, .4, .8, 1.]), m4=rng.randrange(4, 4 * rows - 6), xc=rng.choice([0., .07, -.2]), ncol=ncol, psf=1e-6, dither=None)
    n, re = rng.choice([.5, 1., 2.]), rng.choice([.3, .6])
    group = rng.choice(['Halpha', 'SII'])
    h, z = 3., 1.
    nw = grid(group, z, h)
    lam = 6564.6 * (1 + z)

    def image(v):
        m4 = v['m4']
        sh = rng.choice([0, 0, 2, -1])
        g = scene.gal(mf, z=z, n=n, re=re, q=v['q'], pa=v['pa'], rows=rows, nw=nw, dl=h, group=group, m0=(m4 - sh) / 4.)
        # the width is kept just below whole columns so that the count is exact
        i = scene.inst(mf, res=0., slit=v['ncol'] * d * (1 - 1e-9), psf=v['psf'], pix=pix, n=rows)
        th = np.array(v.get('th') or (speeds(rng, lam, h) + [0., z]))
        th[3] = sh / 4.
        a = mf.model.AperModel2D(galaxy=g, instrument=i, theta=th, kinProfile=mf.KinProfileFiducial(), intensityProfile=mf.IntensityProfileFiducial(g), xc=v['xc'], nSubpixels=ns)
        return a.model.sum(axis=1)
    b, ex = attempt(image, base)
    unit = 1e6 / b.max() if not ex else 1.
    out = lambda a: [fix(x * unit, 1) for x in a]
    c.ev('base', img=out(b) if not ex else [], raised=ex)

    def rel(name, why, v, **kw):
        a, x = attempt(image, v)
        c.ev('rel', rel=name, why=why, img=out(a) if not x else [], raised=x, **kw)
    by = rng.choice([-2, -1, 1, 2])
    todo = [lambda: rel('shift', 'object row', dict(base, m4=base['m4'] + 4 * by), by=by),
            lambda: rel('same', 'kinematics', base),
            lambda: rel('same', 'mirror', dict(base, pa=-base['pa'], xc=-base['xc'])),
            lambda: rel('same', 'half turn', dict(base, pa=base['pa'] + 180.)) if base['xc'] == 0 else None,
            lambda: rel('flip', 'end for end', dict(base, m4=4 * (rows - 1) - base['m4'], pa=-base['pa'])),
            lambda: rel('flip', 'turned end for end', dict(base, m4=4 * (rows - 1) - base['m4'], pa=base['pa'] + 180., xc=-base['xc']))]
    for f in rng.sample(todo, 3):
        f()
    strip = [attempt(image, dict(base, ncol=1, xc=base['xc'] + s * (ncol + 1) / 2. * d)) for s in (1, -1)]
    if not strip[0][1] and not strip[1][1]:
        rel('wider', '', dict(base, ncol=ncol + 2), left=out(strip[0][0]), right=out(strip[1][0]))


def main(c):
    mf = core.import_misfit()
    c.model('MCSlit')
    n = 8 if c.thorough else 1
    with core.quiet():
        for _ in range(150 * n):
            c.history()
            view(c, mf, c.rng)
        for _ in range(20 * n):
            c.history()
            view(c, mf, c.rng, cube=True)
        for _ in range(40 * n):
            c.history()
            profile(c, mf, c.rng)
        for _ in range(40 * n):
            c.history()
            related(c, mf, c.rng)
    c.conform('SlitTrace')
