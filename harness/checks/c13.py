"""C13 results are functions of the current configuration."""
import hashlib
import math

import numpy as np

import core
import scene
from core import attempt, num

U = 1024.


def sha(o, depth=0):
    """A digest of everything an object holds (scratch attributes excepted)."""
    h = hashlib.sha1()

    def feed(x, d):
        if d > 6:
            return
        if isinstance(x, np.ndarray):
            h.update(str(x.shape).encode() + str(x.dtype).encode())
            h.update(x.tobytes() if x.dtype != object else repr(x.tolist()).encode())
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                if not str(k).startswith('_'):
                    h.update(str(k).encode())
                    feed(x[k], d + 1)
        elif isinstance(x, (list, tuple)):
            h.update(b'[%d' % len(x))
            for y in x:
                feed(y, d + 1)
        elif hasattr(x, '__dict__') and not callable(x):
            feed(x.__dict__, d + 1)
        else:
            h.update(repr(x).encode())
    feed(o, depth)
    return int(h.hexdigest()[:7], 16)


def digest(a):
    """Position-sensitive summary of a spectrum or cube, insensitive to the last bits."""
    a = np.asarray(a, dtype=float)
    out = list(a.shape)
    if not np.isfinite(a).all():
        return out + [core.NAN, int((~np.isfinite(a)).sum())]
    s = np.abs(a).sum()
    if s == 0:
        return out + [0]
    r = np.random.RandomState(5)
    out.append(int(round(math.log10(s) * 1e6)))
    for _ in range(5):
        p = r.uniform(.5, 1.5, size=a.shape)
        out.append(int(round((a * p).sum() / s * 1e6)))
    for ax in range(a.ndim):
        x = np.arange(a.shape[ax]).reshape([-1 if k == ax else 1 for k in range(a.ndim)])
        out.append(int(round((a * x).sum() / s / a.shape[ax] * 1e6)))
    return out


class Table:
    def __init__(self, mf, rng):
        self.mf = mf
        wave = lambda: dict(rows=rng.choice([4, 5, 7]), nw=rng.choice([4, 5, 7]), dl=rng.choice([3., 9.]))
        base = dict(z=1.5, n=rng.choice([.5, 1., 2.]), re=rng.choice([.4, .6]), q=rng.choice([.1, .5, 1.]), q0=.19, pa=rng.choice([0., 30., -70., 90.]), group='Halpha', **wave())
        self.gal = [base]
        for _ in range(3):          # differing in one thing or in many
            g = dict(rng.choice(self.gal))
            for k in rng.sample(['n', 're', 'q', 'pa', 'm0', 'group', 'grid', 'q0', 'q0'], rng.choice([1, 1, 2, 5])):
                if k == 'grid':
                    g.update(wave())
                    g.pop('m0', None)
                else:
                    g[k] = dict(n=rng.choice([.5, 1., 1.7]), re=rng.choice([.3, .5]), q=rng.choice([.3, .7]), pa=rng.choice([10., -45.]),
                                m0=rng.choice([1., 1.5, 2.3]), group=rng.choice(['Halpha', 'OII', 'SII']), q0=rng.choice([.1, .25]))[k]
            self.gal.append(g)
        self.gseed = [rng.randrange(10 ** 6) for _ in self.gal]
        b = dict(slit=rng.choice([.5, .7, 1.]), psf=rng.choice([.4, .7]), kind=rng.choice(['Gaussian', 'Moffat']), dither=None, res=rng.choice([20., 39.]), pix=.1799)
        self.ins = [b]
        for _ in range(2):
            i = dict(b)
            k = rng.choice(['slit', 'psf', 'kind', 'dither', 'res', 'pix'])
            i[k] = dict(slit=.9, psf=.55, kind='Moffat' if b['kind'] == 'Gaussian' else 'Gaussian', dither=.6, res=60., pix=.25)[k]
            self.ins.append(i)
        self.opt = []
        for _ in range(3):
            o = dict(nSubpixels=rng.choice([1, 1, 2]), pad_factor=rng.choice([.5, 1.]), absvalsigma=rng.random() < .4, adaptive_upsample_wave=rng.random() < .8,
                     adaptive_upsample_factor=rng.choice([2., 3.]), sigma_floor=rng.random() < .7, no_scale=rng.random() < .5, scale=rng.random() < .4)
            self.opt.append(o)

    def mkgal(self, k):
        g = scene.gal(self.mf, **self.gal[k])
        r = np.random.RandomState(self.gseed[k])
        sh = g.spec2D.shape
        fl = r.normal(size=sh) + 6 * np.exp(-(np.arange(sh[1]) - sh[1] // 2) ** 2 / 3.)[None, :]
        sky = np.sort(r.choice(sh[1], size=sh[1] - 1, replace=False))
        return scene.data(g, fl, r.uniform(.5, 2., size=sh), (r.uniform(size=sh) > .1) * 1., sky, r.uniform(.5, 1.5, size=(sh[0], 1)) * np.ones(sh))

    def mkins(self, k):
        return scene.inst(self.mf, n=9, **self.ins[k])

    def light(self, o, g):
        return (self.mf.model.kin_classes.IntensityProfileSersicExpScale if o['scale'] else self.mf.IntensityProfileFiducial)(g)

    def mkmod(self, g, o, th, kp=None, ip=None):
        o = dict(self.opt[o])
        ns = o.pop('no_scale')
        ip = ip or self.light(o, g)
        o.pop('scale')
        return scene.kin(self.mf, g, th, [True] * 5, opts=self.mf.KinModel2DOptions(**o), no_scale=ns, kp=kp, ip=ip)


def evaluate(m, kind, how, g, i, th):
    if how == 'make':
        (m.make_model if kind == 'slit' else m.make_3D_int_model)(galaxy=g, instrument=i, theta_fitting=th)
    else:
        (m.update_model if kind == 'slit' else m.update_3D_int_model)(theta_fitting=th)
    return m.model if kind == 'slit' else m.model_cube


def trace(c, mf, rng):
    T = Table(mf, rng)
    c.history()
    gals, ins, mods = [], [], []      # objects
    gc, ic = [], []                   # their configurations
    st = []                           # model bookkeeping: opt, setup
    memo = set()
    kp, ips = mf.KinProfileFiducial(), {}

    def side():
        f = lambda m: [sha(m.model) if m.model is not None else 0, sha(m.__dict__['model_cube']) if 'model_cube' in m.__dict__ else 0]
        return dict(gal=[sha(g) for g in gals], ins=[sha(i) for i in ins], mod=[f(m) for m in mods])

    def slot(f, s, k):
        L, C, mk = (gals, gc, T.mkgal) if f == 'gal' else (ins, ic, T.mkins)
        o, ex = attempt(mk, k)
        if s == len(L):
            L.append(o)
            C.append(k)
        else:
            C[s] = k
            if f == 'gal':
                for a in ('n', 're_arcsec', 'q', 'q0', 'delt_PA', 're_mass_arcsec', 'q_mass'):
                    setattr(L[s], a, getattr(o, a))
                if rng.random() < .5:
                    L[s].set_spectrum_2D(o.spec2D)
                else:
                    L[s].spec2D.__dict__.clear()
                    L[s].spec2D.__dict__.update(o.spec2D.__dict__)
            else:
                for a in ('slit_width', 'instrument_resolution', 'pixscale', 'slit_length'):
                    setattr(L[s], a, getattr(o, a))
                if L[s].PSF.PSF_type == o.PSF.PSF_type and rng.random() < .6:
                    L[s].PSF.PSF_FWHM, L[s].PSF.yspace_dither_arc = o.PSF.PSF_FWHM, o.PSF.yspace_dither_arc
                else:
                    L[s].PSF = o.PSF
        c.ev('slot', f=f, slot=s + 1, cfg=k, raised=ex, side=side())

    def theta():
        return [rng.choice([150., -80., 0., 250.]), rng.choice([128, 300]) / U, rng.choice([60., 60., 25., 3., -30., 0.]), rng.choice([0., 0., 1., .375, -.5]), rng.choice([1.5, 1.5, 1.5 + 2 / U])]

    def fresh(key, th):
        g, i, kind, o = key
        if (key, tuple(th)) in memo:
            return
        memo.add((key, tuple(th)))

        def go():
            gg = T.mkgal(g)
            ii = T.mkins(i)
            return evaluate(T.mkmod(gg, o, th), kind, 'make', gg, ii, th)
        a, ex = attempt(go)
        c.ev('fresh', gcfg=g, icfg=i, kind=kind, opt=o, theta=[num(x * U) for x in th], out=digest(a) if not ex else [0], raised=ex)

    slot('gal', 0, 0)
    slot('ins', 0, 0)
    for _ in range(rng.randrange(8, 20)):
        r = rng.random()
        if r < .07 and len(gals) < 3:
            slot('gal', len(gals), rng.randrange(len(T.gal)))
        elif r < .1 and len(ins) < 2:
            slot('ins', len(ins), rng.randrange(len(T.ins)))
        elif r < .2:
            slot('gal', rng.randrange(len(gals)), rng.randrange(len(T.gal)))
        elif r < .28:
            slot('ins', rng.randrange(len(ins)), rng.randrange(len(T.ins)))
        elif r < .31 and mods:
            # another kind of model of the same galaxy, through the same instrument
            g, i = rng.choice(gals), rng.choice(ins)
            _, ex = attempt(mf.model.AperModel1DRot, galaxy=g, instrument=i, theta=[2., 100., .3], kinProfile=kp, intensityProfile=mf.IntensityProfileFiducial(g), nPixels=9)
            c.ev('other', raised=ex, side=side())
        elif not mods or (r < .42 and len(mods) < 4):
            o = rng.randrange(len(T.opt))
            g = rng.choice(gals)
            kind = T.opt[o]['scale']
            if kind not in ips or rng.random() < .3:
                ips[kind] = T.light(T.opt[o], g)
            m, ex = attempt(T.mkmod, g, o, theta(), kp if rng.random() < .6 else None, ips[kind] if rng.random() < .6 else None)
            mods.append(m)
            st.append(dict(opt=o, setup=None))
            c.ev('new', opt=o, raised=ex, side=side())
        elif r < .46 and len(mods) < 4:
            k = rng.randrange(len(mods))
            m, ex = attempt(mods[k].copy)
            mods.append(m)
            st.append(dict(st[k]))
            c.ev('copy', m=k + 1, raised=ex, side=side())
        else:
            k = rng.randrange(len(mods))
            th = theta()
            if st[k]['setup'] is None or rng.random() < .35:
                gi, ii = rng.randrange(len(gals)), rng.randrange(len(ins))
                kind = 'slit' if rng.random() < .8 else 'cube'
                st[k]['setup'] = (gc[gi], ic[ii], kind)
                st[k]['live'] = (gi, ii)
                fresh(st[k]['setup'] + (st[k]['opt'],), th)
                a, ex = attempt(evaluate, mods[k], kind, 'make', gals[gi], ins[ii], th)
                c.ev('make', m=k + 1, g=gi + 1, i=ii + 1, kind=kind, theta=[num(x * U) for x in th], out=digest(a) if not ex else [], raised=ex, side=side())
            else:
                gi, ii = st[k]['live']
                if st[k]['setup'][:2] != (gc[gi], ic[ii]):
                    continue        # updating keeps its set-up: undefined after the galaxy was edited
                fresh(st[k]['setup'] + (st[k]['opt'],), th)
                a, ex = attempt(evaluate, mods[k], st[k]['setup'][2], 'update', None, None, th)
                c.ev('update', m=k + 1, theta=[num(x * U) for x in th], out=digest(a) if not ex else [], raised=ex, side=side())


def main(c):
    mf = core.import_misfit()
    c.model('MCWorlds')
    with core.quiet():
        for _ in range(300 if c.thorough else 60):
            trace(c, mf, c.rng)
    c.conform('WorldsTrace')
