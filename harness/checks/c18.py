"""C18 aperture corrections."""
import math

import numpy as np

import core
import scene
from core import attempt, fix
from checks.c14 import ROT, INC, Poly, angle
from checks.c15 import profile

U = .125
D = .25


def stamp(mf, kind, F, x, y):
    a = scene.inst(mf, psf=F, kind=kind).PSF.generate_conv_stamp(np.array(x), np.array(y))
    return [[fix(v, 100000) for v in r] for r in a / a.sum()]


def rot(mf, rng, env):
    """One rotating galaxy: its description and a way of building it."""
    while True:
        n = rng.choice([3, 5, 5, 7])
        nx = rng.choice([1, 3, 3, 5])
        V = 4 if rng.random() < .3 else 1
        dx = {1: rng.choice([2, 3, 4]), 3: rng.choice([3, 4]), 5: 4}[nx] if V == 4 else 1
        pc = rng.choice(ROT)
        ic = rng.choice(INC[1:])
        ox, oy = (rng.choice([0, 0, 1, -2]) * (V if rng.random() < .5 else 1), rng.choice([0, 0, 1, -2]) * (V if rng.random() < .5 else 1))
        F4, p = rng.choice([(0, 1), (5, 1), (6, 1), (7, 2), (9, 1), (9, 2), (11, 1)])
        if V == 4 and rng.random() < .3:
            F4 = 0
        if (F4 * p) % 8 == 4 or (F4 * p * V) % (8 * dx) == 4 * dx or (V == 4 and F4 and F4 % dx == 0):
            continue
        py, px = (F4 * p + 4) // 8, (2 * F4 * p * V + 8 * dx) // (16 * dx)
        sc = V * pc[2] * ic[2]
        ext = math.sqrt(((nx // 2 + px) * (dx if V == 4 else 1) + abs(ox)) ** 2 + ((n // 2 + py) * V + abs(oy)) ** 2 + (n // 2 * V) ** 2) * pc[2] * ic[2]
        if ext < 200 and sc <= 25:
            break
    a, b, c = rng.choice([(1, 0, 0), (2, 1, 0), (1, 1, 1), (0, 1, 0), (3, 0, 1), (1, 2, 0)])
    sini = ic[1] / ic[2]
    q0 = rng.choice([0., .2])
    q = math.sqrt(1 - sini ** 2 * (1 - q0 ** 2))
    if sini == 1.:
        q = rng.choice([q0, q0 * .5])
    return dict(n=n, nx=nx, V=V, dx=dx, pc=pc, ic=ic, ox=ox, oy=oy, F4=F4, p=p, py=py, px=px, a=a, b=b, c=c, q=q, q0=q0,
                how=rng.choice(['optimal', 'optimal', 'boxcar']), kind=rng.choice(['Gaussian', 'Gaussian', 'Moffat']) if F4 else 'Gaussian',
                R4=rng.choice([4, 8, 10, 13]))


def motion(rng):
    vs = rng.choice([-1, 0, 1, 4, 8, 12])
    return rng.choice([2, 5, 11, 20]), vs


class Rot:
    def __init__(self, mf, rng, v, shared):
        self.v, self.rng = v, rng
        self.w, self.vs = motion(rng)
        self.kp = shared.setdefault('kp', profile(mf)) if rng.random() < .6 else profile(mf)
        self.g = scene.gal(mf, q=v['q'], q0=v['q0'], pa=angle(v['pc']), re=v['R4'] * D / 4. if v.get('dflt') else .7, rows=5, nw=7)
        slit = v['nx'] * D * v['dx'] / v['V']
        key = (v['F4'], v['kind'], slit)
        if key in shared and rng.random() < .8:
            self.i = shared[key]
        else:
            self.i = shared[key] = scene.inst(mf, psf=v['F4'] * D / 4. or 1e-6, kind=v['kind'], slit=slit, pix=.18)
        kw = {} if v.get('dflt') else dict(disp_aper_radius_arcsec=v['R4'] * D / 4.)
        self.m = mf.model.AperModel1DRot(galaxy=self.g, instrument=self.i, extraction_width=v['n'] * D, extraction_method=v['how'],
                                         theta=self.theta(), kinProfile=self.kp, intensityProfile=Poly(v['a'], v['b'], v['c'], D),
                                         nPixels=v['n'], pad_factor=v['p'] / 2., xc=v['ox'] * D / v['V'], yc=v['oy'] * D / v['V'], **kw)

    def theta(self):
        # [V/sigma, rotation, unused]; without rotation the second entry is the dispersion
        if self.vs == 0:
            return [0., float(self.w), 1.]
        return [None if self.vs < 0 else self.vs / 4., self.w / D, 1.]

    def again(self):
        if self.rng.random() < .6:
            self.w, self.vs = motion(self.rng)
            self.m.theta = self.theta()
        self.m.calc_aper_correction()

    def record(self, c, mf, ex):
        v = self.v
        hs = lambda k, N: min(k, (N - 1) // 2)
        h = v['F4'] // 4
        hx, hy = hs(v['F4'] * v['V'] // (4 * v['dx']), v['nx'] + 2 * v['px']), hs(h, v['n'] + 2 * v['py'])
        S = stamp(mf, v['kind'], v['F4'] * D / 4. or 1e-6, np.arange(-hx, hx + 1) * D * v['dx'] / v['V'], np.arange(-hy, hy + 1) * D)
        d = dict(hy=v['n'] // 2, hx=v['nx'] // 2, V=v['V'], dx=v['dx'], ox=v['ox'], oy=v['oy'], pc=v['pc'][0], ps=v['pc'][1], pd=v['pc'][2],
                 ic=v['ic'][0], id=v['ic'][2], a=v['a'], b=v['b'], c=v['c'], S=S, how=v['how'], w=self.w, vs=self.vs, R4=v['R4'], F4=v['F4'], p=v['p'])
        d['is'] = v['ic'][1]
        c.ev('rot', raised=ex, ap2=fix(self.m.sigma_aper ** 2, 1000), rms2=fix(self.m.V_RMS_aper ** 2, 1000), ratio=fix(self.m.disp_aper_ratio, 10000), **d)


class Disp:
    def __init__(self, mf, rng, shared):
        self.mis = rng.random() < .6
        n = rng.choice([1, 2, 2])
        pc, qq = (rng.choice(ROT), rng.choice([1, 4])) if self.mis else ((1, 0, 1), 1)
        n4 = rng.choice([2, 4, 4, 8, 16])
        dx, dy = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
        re = rng.choice([4, 6, 10])
        rm = rng.choice([4, 6, 10])
        d1000, core_ = rng.choice([(-89, 333), (-89, 333), (500, 25000), (1000, 0), (500, 0), (-500, 50000), (0, 333), (1000, 30000)])
        Fu = rng.choice([0, 0, 2.5, 4.]) if n == 2 else rng.choice([0, 1.5, 3.])
        R = rng.choice([None, re // 2, re, 2 * re if d1000 < 1000 else re])
        if n4 > 4 and core_ == 0 or n4 > 8 and core_ <= 333:
            n4 = 4
        if n4 > 4 and core_ <= 333:        # cuspy light: where it falls must be well resolved
            Fu = 0
        if d1000 == 1000 and (R or re) > 1.5 * rm:
            rm = 10
        self.how = rng.choice(['optimal', 'optimal', 'boxcar'])
        kind = rng.choice(['Gaussian', 'Moffat']) if Fu else 'Gaussian'
        self.N = (2 * n + 1)
        slit = self.N * dx * U
        key = ('d', Fu, kind, slit)
        if key in shared and rng.random() < .8:
            i = shared[key]
        else:
            i = shared[key] = scene.inst(mf, psf=Fu * U or 1e-6, kind=kind, slit=slit, pix=.18)
        q = 1. / qq
        qgal = q if self.mis else rng.choice([1., .25, .5])
        qm = rng.choice([1., .25, .6])
        g = mf.Galaxy(z=1., ID='g', n=n4 / 4., re_arcsec=re * U / math.sqrt(qgal), re_mass_arcsec=rm * U / math.sqrt(qm), q=qgal, q_mass=qm, q0=.2,
                      delt_PA=angle(pc) if self.mis else rng.choice([0., 35.]), generate_model=True)
        ox, oy = rng.choice([0, 0, 1, -3]), rng.choice([0, 0, 2, -1])
        kw = {}
        if (d1000, core_) != (-89, 333) or rng.random() < .5:
            kw = dict(d=d1000 / 1000., r_core=core_ / 1e5 if core_ != 333 else 1 / 300.)
        if R is not None:
            kw['disp_aper_radius_arcsec'] = R * U
        cl = mf.model.AperModel1DDispMisalign if self.mis else mf.model.AperModel1DDisp
        self.m = cl(galaxy=g, instrument=i, extraction_width=self.N * dy * U, extraction_method=self.how, nPixels=n, xc=ox * U, yc=oy * U, **kw)
        w = np.arange(-self.N, self.N + 1)
        self.d = dict(n=n, dx=dx, dy=dy, ox=ox, oy=oy, pc=pc[0], ps=pc[1], pd=pc[2], qq=qq, re=re, rm=rm, core=core_, d1000=d1000, n4=n4, R=1000 * (R or re), how=self.how,
                      S=stamp(mf, kind, Fu * U or 1e-6, w * dx * U, w * dy * U))

    def again(self):
        self.m.calc_aper_correction()

    def record(self, c, mf, ex):
        m = self.m
        c.ev('disp', raised=ex, ap2=fix(m.sigma_ap ** 2, 100000), in2=fix(m.sigma_e ** 2, 100000), ratio=fix(m.disp_aper_ratio, 10000), **self.d)


def together(c, mf, rng):
    """Several models sharing instruments and profiles, re-evaluated in any order."""
    shared, models = {}, []
    c.history()
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .5:
            v = rot(mf, rng, shared)
            v['dflt'] = rng.random() < .3
            m, ex = attempt(Rot, mf, rng, v, shared)
        else:
            m, ex = attempt(Disp, mf, rng, shared)
        if ex:
            c.ev('rel', raised=ex)
        else:
            models.append(m)
            m.record(c, mf, '')
    for _ in range(rng.choice([0, 1, 2]) if len(models) > 1 else rng.choice([0, 1])):
        if models:
            m = rng.choice(models)
            _, ex = attempt(m.again)
            m.record(c, mf, ex)


def width(c, mf, rng):
    kind = rng.choice(['rot', 'mis', 'aligned'])
    pc = rng.choice(ROT)
    re, F = rng.choice([1, 4, 10]), rng.choice([2, 6, 9])      # quarter arcsec / 2.5: tenths
    qn, qd = rng.choice([(1, 1), (1, 2), (1, 4)])
    q = qn / qd
    small = rng.random() < .2
    n0 = 7
    c.history()

    def go():
        i = scene.inst(mf, psf=F / 10., pix=.18, slit=.7)
        if kind == 'rot':
            g = scene.gal(mf, q=max(q, .2), q0=.2, pa=angle(pc), re=re / 10., rows=5, nw=7)
            m = mf.model.AperModel1DRot(galaxy=g, instrument=i, theta=[1., 50., .3], kinProfile=mf.KinProfileFiducial(), intensityProfile=mf.IntensityProfileFiducial(g), nPixels=n0)
        else:
            cl = mf.model.AperModel1DDispMisalign if kind == 'mis' else mf.model.AperModel1DDisp
            g = mf.Galaxy(z=1., ID='g', n=1., re_arcsec=re / 10. / (1. if kind == 'mis' else math.sqrt(q)), re_mass_arcsec=.5, q=q, q_mass=q, q0=.2, delt_PA=angle(pc), generate_model=True)
            m = cl(galaxy=g, instrument=i, nPixels=n0)
        return m.extraction_width, m.nPixels, (m.delt_y * (2 * m.nPixels + 1) if kind != 'rot' else m.delt_y * m.nPixels)
    o, ex = attempt(go)
    al = kind == 'aligned'
    circ = re / 10. * (1. if al else math.sqrt(1.))
    c.ev('width', raised=ex, re=re, F=F, qn=1 if al else qn, qd=1 if al else qd, pc=1 if al else abs(pc[0]), pd=1 if al else pc[2], n0=n0,
         doubled=bool(kind != 'rot' and circ <= .1), w2=fix(o[0] ** 2, 100) if not ex else 0, np=o[1] if not ex else 0)
    if not ex:
        c.ev('rel', raised='', rel='eq', x=fix(o[2]), y=fix(o[0]), tol=2, what='span')


def relations(c, mf, rng):
    """Real profiles: values that must agree or grow."""
    c.history()
    pa, q = rng.choice([0., 30., 60., 75.]), rng.choice([.3, .5, .8])
    xc, yc = rng.choice([0., .2, .5]), rng.choice([0., .15])
    F, slit, wid, N = rng.choice([.3, .6, 1.1]), rng.choice([.7, 1.]), rng.choice([.9, 1.5]), rng.choice([11, 15])
    n, re, rt = rng.choice([1., 2., 4.]), rng.choice([.3, .6]), rng.choice([.1, .3])
    how = rng.choice(['optimal', 'boxcar'])

    def one(vs=2., va=100., pa=pa, xc=xc, yc=yc, q=q, N=N):
        g = scene.gal(mf, q=q, q0=.19, pa=pa, re=re, n=n, rows=5, nw=7)
        i = scene.inst(mf, psf=F, slit=slit, pix=.18)
        return mf.model.AperModel1DRot(galaxy=g, instrument=i, theta=[vs, va, rt], kinProfile=mf.KinProfileFiducial(), intensityProfile=mf.IntensityProfileFiducial(g),
                                       nPixels=N, extraction_width=wid, extraction_method=how, xc=xc, yc=yc)

    def disp(mis, pa=pa, xc=xc, yc=yc, q=q):
        g = scene.gal(mf, q=q, q0=.19, pa=pa, re=re, n=n, rows=5, nw=7)
        i = scene.inst(mf, psf=F, slit=slit, pix=.18)
        cl = mf.model.AperModel1DDispMisalign if mis else mf.model.AperModel1DDisp
        return cl(galaxy=g, instrument=i, nPixels=N, extraction_width=wid, extraction_method=how, xc=xc, yc=yc)
    r = lambda m: fix(m.disp_aper_ratio)
    s2 = lambda m: fix(m.sigma_aper ** 2, 100)

    def rel(rel, x, y, what, tol=5):
        if n == 4. and tol == 5:           # a cuspy centre, at rounding distance from the middle of its cell
            tol = 300
        c.ev('rel', raised='', rel=rel, x=x, y=y, tol=tol, what=what)

    def go():
        a = one()
        t = 5 if a.n_pix_x % 2 else 2 * 10 ** 4
        if t == 5:
            rel('eq', r(a), r(one(pa=pa + 180., xc=-xc, yc=-yc)), 'halfturn')
            rel('eq', r(a), r(one(pa=-pa, xc=-xc)), 'mirror')
            rel('eq', r(a), r(one(pa=-pa, yc=-yc)), 'mirror')
        rel('eq', r(one(vs=0.)), 1000000, 'unity')
        p = one(vs=None)
        hi, lo = one(vs=3.), one(vs=1.5)
        s0 = lambda m: m.kinProfile.sigma(m.disp_aper_radius_arcsec, 0.) ** 2
        rel('eq', s2(hi), fix(p.sigma_aper ** 2 + s0(hi), 100), 'adds', 3 + s2(hi) // 10 ** 6)
        rel('eq', s2(lo), fix(p.sigma_aper ** 2 + s0(lo), 100), 'adds', 3 + s2(lo) // 10 ** 6)
        rel('le', fix(lo.sigma_aper ** 2 / s0(lo), 1000), fix(hi.sigma_aper ** 2 / s0(hi), 1000), 'grows')
        rel('le', 10000, fix(lo.sigma_aper ** 2 / s0(lo), 10000), 'grows')
        rel('eq', r(one(va=50.)), r(one(va=200.)), 'scale')
        rel('eq', r(one(va=-100.)), r(a), 'sense')
        rel('eq', r(disp(True, q=1.)), r(disp(False, q=1.)), 'round')
        rel('eq', r(disp(True)), r(disp(True, pa=pa + 180., xc=-xc, yc=-yc)), 'halfturn')
        rel('eq', r(disp(True)), r(disp(True, pa=-pa, xc=-xc)), 'mirror')
        rel('eq', r(disp(False)), r(disp(False, yc=-yc)), 'mirror')
    _, ex = attempt(go)
    if ex:
        c.ev('rel', raised=ex)


def main(c):
    mf = core.import_misfit()
    c.model('MCAper', cfg='MCAperBig.cfg' if c.thorough else None)
    with core.quiet():
        for _ in range(400 if c.thorough else 40):
            together(c, mf, c.rng)
        for _ in range(150 if c.thorough else 15):
            width(c, mf, c.rng)
        for _ in range(30 if c.thorough else 3):
            relations(c, mf, c.rng)
    c.conform('AperTrace')
