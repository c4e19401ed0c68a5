"""C23 fitting one-dimensional spectra."""
import os
import pickle
import shutil
import tempfile

import numpy as np

import core
import scene
from core import attempt, fix

CKMS = 299792.458
NOB = 1000000000
REST = dict(Halpha=[6564600], Hbeta=[4862710], OIII=[5008240, 4960295], NII=[6549860, 6585270], SII=[6732673, 6718294], OII=[3727100, 3729860])
RANGES = dict(Halpha=(6480000, 6650000), Hbeta=(4800000, 4920000), OIII=(4930000, 5060000))
FIRST = ['Halpha', 'Hbeta', 'OIII']
OTHERS = dict(Halpha=['NII', 'SII'], Hbeta=['OIII'], OIII=['Hbeta'], NII=['Halpha', 'SII'], SII=['Halpha', 'NII'], OII=[])


def units(n, order):
    return [1e6, 100.] + [1e20] * n + [100. * 1e4**i for i in range(order + 1)]


def keys(n, order):
    return ['z', 'vel_disp'] + ['flux%d' % i for i in range(n)] + ['cont_coeff%d' % i for i in range(order + 1)]


def ints(vals, u):
    return [fix(float(v), s) for v, s in zip(vals, u)]


class Lab:
    """One fit, with minimisations that return what they are told to."""

    def __init__(self, c, mf, mod, lmfit, rng, d):
        self.c, self.mf, self.mod, self.lmfit, self.rng, self.d = c, mf, mod, lmfit, rng, d
        first = rng.choice(FIRST + FIRST + ['NII', 'SII'])
        self.names = [first] + rng.sample(OTHERS[first], rng.randrange(len(OTHERS[first]) + 1))
        self.order, self.num = rng.randrange(4), rng.choice([2, 3, 5, 8])
        self.n = len(self.names)
        self.u, self.keys = units(self.n, self.order), keys(self.n, self.order)
        self.zk = rng.randrange(65, 150)
        self.edge = rng.choice([0, 1, 3, 10])
        self.range = [] if first in RANGES and rng.random() < .6 else [REST[first][0] - rng.choice([30, 80, 120]) * 1000, REST[first][0] + rng.choice([40, 90, 110]) * 1000]
        lo, hi = self.range or RANGES[first]
        s = 64 + self.zk
        step = rng.choice([4000, 6000, 9000])
        self.wave = list(range(lo * s // 64 - rng.choice([-15, 5, 20]) * 1000, hi * s // 64 + rng.choice([-15, 7, 20]) * 1000, step))
        nw = len(self.wave)
        self.flux = [rng.randrange(-30000, 30000) for _ in range(nw)]
        self.err = [rng.choice([500, 2000, 6000]) for _ in range(nw)]
        self.mask = [int(rng.random() < .9) for _ in range(nw)]
        self.bad = [rng.random() < .06 for _ in range(nw)]
        self.res = rng.choice([0, 1000, 2500, 2500, 2000, 7000, -1000 if rng.random() < .4 else 1500])
        self.nores = False
        self.vbase, self.fbase = rng.choice([4500, 5000]), rng.choice([20, 40])
        self.files = [os.path.join(d, 'a'), os.path.join(d, 'b')]

    def setup(self):
        mf, rng = self.mf, self.rng
        g = mf.Galaxy(z=self.zk / 64., ID=3, field='F', **rng.choice([{}, dict(maskname='m_1')]))
        f, e = np.array(self.flux) * 1e-21, np.array(self.err) * 1e-21
        for i, b in enumerate(self.bad):
            if b:
                if rng.random() < .5:
                    f[i] = rng.choice([np.nan, np.inf])
                else:
                    e[i] = np.nan
        s = mf.ObsSpectrum1D(wave=np.array(self.wave) / 1000., obswave=np.array(self.wave) / 1000., flux=f, flux_err=e, spec_mask=np.array(self.mask, dtype=float))
        s.num_mask_edge = self.edge
        g.set_spectrum_1D(s)
        inst = scene.inst(mf)
        inst.instrument_resolution = self.res / 100.
        gv, gf = CKMS / rng.choice([2500, 4000, 6000]), [rng.randrange(5, 60) for _ in self.names]
        gc = None if rng.random() < .5 else [rng.randrange(-9, 10) for _ in range(self.order + 1)]
        del_ = rng.choice([20., 20., 12.5])
        kw = {} if del_ == 20. and rng.random() < .5 else dict(del_obs_lam=del_)
        if self.range:
            kw['trim_restwave_range'] = [x / 1000. for x in self.range]
        if gc is not None:
            kw['cont_coeff'] = np.array(gc) * np.array([1e-4**i for i in range(self.order + 1)])
        self.f, ex = attempt(self.mf.fit.fit1D.FitEmissionLines1D, galaxy=g, instrument=inst, names_arr=list(self.names), flux_arr=np.array(gf) * 1e-18, vel_disp=gv,
                             cont_order=self.order, num_MC=self.num, **kw)
        guess = [self.zk * 15625, fix(gv, 100)] + [100 * x for x in gf] + ([0] * (self.order + 1) if gc is None else [100 * x for x in gc])
        d = dict(raised=ex, zk=self.zk, names=self.names, order=self.order, num=self.num, res=self.res, nores=self.nores, range=self.range, edge=self.edge,
                 wave=self.wave, mask=self.mask, guess=guess, twave=[], tmask=[], tflux=[], terr=[], tbad=[], rest=[])
        d['del'] = int(del_ * 1000)
        if not ex:
            t = self.t = g.spec1D_trim
            at = {w: i for i, w in enumerate(self.wave)}
            ix = [at[int(round(w * 1000))] for w in t.obswave]
            d.update(twave=[self.wave[i] for i in ix], tmask=[int(x) for x in t.spec_mask], tflux=[self.flux[i] for i in ix], terr=[self.err[i] for i in ix],
                     tbad=[self.bad[i] for i in ix], rest=[[int(round(x * 1000)) for x in r] for r in self.f.restwave_arr])
        self.c.ev('setup', **d)
        return not ex

    def draw(self, p, k, plot):
        """A result of a minimisation over the parameters p, in bounds."""
        rng = self.rng
        room = min(18, int((p['z'].max - self.zk / 64.) * 6400 * .95)) if np.isfinite(p['z'].max) else 18
        r = dict(j=rng.randrange(-room, room + 1), q=int(CKMS * 100 / (self.vbase + rng.randrange(-1500, 1200))),
                 flux=[self.fbase + rng.randrange(-10, 20) for _ in self.names], cont=[rng.randrange(-9, 10) for _ in range(self.order + 1)])
        if rng.random() < (.4 if k == 0 else .5) and not p['vel_disp'].min > -1e9 and not plot:
            r['q'] = -r['q']
        if rng.random() < (.4 if k == 0 else .1) and not p['flux0'].min > -1.:
            r['flux'][0] = -rng.randrange(1, 40)
        if self.n > 1 and rng.random() < .3 and not p['flux1'].min > -1.:
            r['flux'][1] = -rng.randrange(1, 40)
        return r

    def put(self, p, r):
        p['z'].value = self.zk / 64. + r['j'] / 6400.
        p['vel_disp'].value = CKMS / r['q']
        for i, x in enumerate(r['flux']):
            p['flux%d' % i].value = x * 1e-18
        for i, x in enumerate(r['cont']):
            p['cont_coeff%d' % i].value = x * 1e-4**i

    def rows(self):
        out = []
        for p in self.files:
            if os.path.exists(p):
                with open(p, 'rb') as g:
                    out.append([ints(r, self.u) for r in np.asarray(pickle.load(g))])
            else:
                out.append([])
        return out

    def errors(self):
        f = self.f
        if not hasattr(f, 'z_err'):
            return []
        e = [f.z_err, f.vel_disp_err] + list(np.asarray(f.flux_arr_err)) + list(np.asarray(f.cont_coeff_err))
        return [[fix(float(x), 16 * s) for x in r] for r, s in zip(e, self.u)] if len(e) == len(self.u) else [[0]]

    def stored(self):
        f = self.f
        cont = np.zeros(self.order + 1) if f.cont_coeff is None else f.cont_coeff
        return ints([f.z, f.vel_disp] + list(f.flux_arr) + list(cont), self.u)

    def fit(self):
        rng, f, u = self.rng, self.f, self.u
        noerr, reload = rng.random() < .3, rng.random() < .35
        file = rng.choice([0, 1, 1, 1, 2]) if rng.random() < .5 else 1
        plot = rng.choice(['no'] * 12 + ['missing', 'yes'])
        calls, results, raws, resid, noise = [], [], [], [], []
        ref = dict(j=rng.randrange(-8, 9), q=rng.choice([5000, 6000]), flux=[rng.randrange(-40, 60) for _ in self.names], cont=[rng.randrange(-9, 10) for _ in range(self.order + 1)])
        orig = self.lmfit.Minimizer.minimize
        lab = self

        def residual(m, params):
            p = params.copy()
            for k in lab.keys:
                p[k].min, p[k].max = -np.inf, np.inf
            lab.put(p, ref)
            return np.asarray(m.userfcn(p, *m.userargs, **(m.userkws or {})), dtype=float)

        def minimize(m, method='leastsq', params=None, **kw):
            p = m.params if params is None else params
            calls.append([[fix(float(p[k].value), s) for k, s in zip(lab.keys, u)],
                          [fix(float(p[k].min), s) if np.isfinite(p[k].min) else -NOB for k, s in zip(lab.keys, u)],
                          [fix(float(p[k].max), s) if np.isfinite(p[k].max) else NOB for k, s in zip(lab.keys, u)]])
            assert all(p[k].vary for k in lab.keys) and len(p) == len(lab.keys)
            r = residual(m, p)
            if len(results) == 0 or (len(results) == 1 and (results[0][1] < 0 or results[0][2] < 0)):
                resid.append(r)
            else:
                noise.append(r)
            raw = lab.draw(p, len(calls) - 1, plot == 'yes')
            out = lab.lmfit.minimizer.MinimizerResult()
            out.params = p.copy()
            lab.put(out.params, raw)
            out.message, out.success, out.errorbars, out.method, out.nfev, out.ndata, out.nvarys = 'as told', True, False, method, 1, len(r), len(p)
            out.chisqr = out.redchi = out.aic = out.bic = 1.
            out.var_names, out.init_vals, out.init_values, out.residual, out.nfree, out.aborted, out.ier, out.rsquared = list(p), [], {}, r, 1, False, 1, 1.
            for k in out.params:
                out.params[k].stderr, out.params[k].correl = None, None
            results.append(ints([out.params[k].value for k in lab.keys], u))
            raws.append(raw)
            return out

        keep = [x.copy() for x in (self.t.flux, self.t.flux_err, self.t.spec_mask, self.t.obswave)]
        kw = dict(noErrors=noerr, noPlot=plot == 'no', reload_errors=reload, err_filename=None if file == 0 else self.files[file - 1],
                  plot_filename=os.path.join(self.d, 'p.png') if plot == 'yes' else None)
        self.lmfit.Minimizer.minimize = minimize
        try:
            _, ex = attempt(f.fit, **kw)
        finally:
            self.lmfit.Minimizer.minimize = orig
        t = self.f.galaxy.spec1D_trim
        same = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, (t.flux, t.flux_err, t.spec_mask, t.obswave)))
        nsearch = len(resid)
        model, raw = [], raws[nsearch - 1] if raws else {}
        if raws and plot != 'x':
            model = [fix(float(x), 1e21) for x in f.final_model]
        good = np.array([not self.bad[self.wave.index(int(round(w * 1000)))] for w, k in zip(self.t.obswave, self.t.spec_mask) if k == 1], dtype=bool)
        self.c.ev('fit', raised=ex, noerr=noerr, reload=reload, file=file, plot=plot, calls=calls, results=results, raw=raw, at=ref,
                  resid=[[fix(float(x), 100) for x in r] for r in resid], noise=[[fix(float(x), 100) for x in (resid[0] - r)[good]] for r in noise],
                  stored=self.stored(), model=model, errs=self.errors(), files=self.rows(), same=same)

    def corr(self):
        rng, f = self.rng, self.f
        noerr, file = rng.random() < .3, rng.choice([0, 1, 1, 1, 2])
        for a in ('vel_disp_inst_corr', 'vel_disp_inst_corr_err'):
            if hasattr(f, a):
                delattr(f, a)
        _, ex = attempt(f.calculate_inst_corr_vel_disp, noErrors=noerr, err_filename=None if file == 0 else self.files[file - 1])
        self.c.ev('corr', raised=ex, noerr=noerr, file=file, value=fix(f.vel_disp_inst_corr, 100) if hasattr(f, 'vel_disp_inst_corr') else -1,
                  errs=[fix(float(x), 1600) for x in f.vel_disp_inst_corr_err] if hasattr(f, 'vel_disp_inst_corr_err') else [])


def tables():
    """Keep parsed line tables in memory: they are read at every model evaluation."""
    from astropy.io import ascii
    orig, kept = ascii.read, {}

    def read(table, *a, **kw):
        if not isinstance(table, str) or not os.path.exists(table):
            return orig(table, *a, **kw)
        k = (table, os.stat(table).st_mtime_ns, repr(a), repr(sorted(kw.items())))
        if k not in kept:
            kept[k] = orig(table, *a, **kw)
        return kept[k].copy()
    ascii.read = read


def real(c, mf, mod, lmfit, scatter):
    """Unscripted fits of spectra made of the lines."""
    rng = c.rng
    first = rng.choice(FIRST + ['SII'])
    names = [first] + ([rng.choice(OTHERS[first])] if rng.random() < .5 and first != 'Halpha' else ['NII'] if first == 'Halpha' and rng.random() < .6 else [])
    n, order = len(names), rng.randrange(3)
    rests = [r for x in names for r in REST[x]]
    rg = [(min(rests) - 70000) / 1000., (max(rests) + 70000) / 1000.]
    z0, v = rng.choice([.5, 1., 1.5, 2.25]), rng.uniform(70., 180.)
    z = z0 + rng.uniform(-.8, .8) * v / CKMS * (1. + z0)
    fl, co = [rng.uniform(20., 80.) * rng.choice([1, 1, -1 if i else 1]) for i in range(n)], [rng.uniform(-.5, .9) * 1e-4**i for i in range(order + 1)]
    p = lmfit.Parameters()
    for k, x in zip(keys(n, order), [z, v] + [x * 1e-18 for x in fl] + co):
        p.add(k, value=x)
    w = np.arange(rg[0] - 20., rg[1] + 20., .7) * (1. + z0)
    y = mod.EmissionLinesSpectrum1DModel(names_arr=names, cont_order=order).make1DProfile(p, w)
    e = np.ones(len(w)) * np.max(np.abs(y)) * (.03 if scatter else rng.choice([.001, .1]))
    m = np.ones(len(w))
    truth = y.copy()
    np.random.seed(rng.randrange(10**6))
    if scatter:
        y = y + np.random.randn(len(w)) * e
    else:
        for i in rng.sample(range(len(w)), rng.choice([0, 5, len(w) // 12])):
            m[i] = 0.
            if rng.random() < .6:
                y[i] = rng.choice([np.nan, np.inf, 1e-12, -1e-10, 0.])
            else:
                e[i] = rng.choice([0., np.nan, 1e-30])
    g = mf.Galaxy(z=z0, ID=3, field='F')
    s = mf.ObsSpectrum1D(wave=w, obswave=w, flux=y, flux_err=e, spec_mask=m)
    g.set_spectrum_1D(s)
    inst = scene.inst(mf)
    f = mf.fit.fit1D.FitEmissionLines1D(galaxy=g, instrument=inst, names_arr=names, flux_arr=np.array([abs(x) for x in fl]) * 1e-18 * rng.uniform(.6, 1.6), vel_disp=v * rng.uniform(.7, 1.4),
                                        cont_order=order, trim_restwave_range=rg, num_MC=120)
    tmp = os.path.join(core.TMP, 'mc')
    _, ex = attempt(f.fit, noErrors=not scatter, noPlot=True, err_filename=tmp)
    u = [1e6, 100.] + [1e20] * n
    if scatter:
        ok = not ex and f.lmfit_result.errorbars
        c.ev('scatter', raised=ex if ex or ok else 'noerrorbars', errs=[[fix(float(x), s * 100) for x in r] for r, s in zip([f.z_err, f.vel_disp_err] + list(f.flux_arr_err), u)] if ok else [],
             linear=[fix(float(f.lmfit_result.params[k].stderr), s * 100) for k, s in zip(keys(n, order), u)] if ok else [])
    else:
        sel = (w >= rg[0] * (1 + z0)) & (w <= rg[1] * (1 + z0))
        c.ev('recover', raised=ex, truth=ints([z, v] + [x * 1e-18 for x in fl], u), found=ints([f.z, f.vel_disp] + list(f.flux_arr), u) if not ex else [],
             model=[fix(float(x), 1e21) for x in f.final_model][::7] if not ex else [], expected=[fix(float(x), 1e21) for x in truth[sel]][::7])


def main(c):
    mf = core.import_misfit()
    import lmfit
    import misfit.fit.fit1D
    import misfit.model.emission_lines_model as mod
    c.model('MCFit1D')
    with core.quiet():
        for _ in range(300 if c.thorough else 50):
            c.history()
            d = tempfile.mkdtemp()
            try:
                lab = Lab(c, mf, mod, lmfit, c.rng, d)
                if lab.setup():
                    for _ in range(c.rng.choice([2, 4, 6])):
                        lab.fit() if c.rng.random() < .65 else lab.corr()
            finally:
                shutil.rmtree(d)
        tables()
        for _ in range(200 if c.thorough else 25):
            c.history()
            real(c, mf, mod, lmfit, False)
        for _ in range(12 if c.thorough else 2):
            c.history()
            real(c, mf, mod, lmfit, True)
    c.assumptions.append('minimisations are replaced by scripted ones to observe how they are used; recovery is checked with the real ones')
    c.conform('Fit1DTrace', shards=6)
