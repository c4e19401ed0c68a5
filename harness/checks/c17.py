"""C17 scaling of the model to the data and goodness of fit."""
import numpy as np

import core
import scene
from core import attempt, fix


def arrays(rng, rows, nw):
    pick = lambda o: [[rng.choice(o) for _ in range(nw)] for _ in range(rows)]
    pm = rng.choice([0., .15, .15, .5])
    d = dict(flux=pick(range(-9, 20)), err=pick([1, 2, 5, 10] if rng.random() < .6 else [2]),
             mask=[[0 if rng.random() < pm else 1 for _ in range(nw)] for _ in range(rows)],
             weight=pick(range(1, 20)) if rng.random() < .5 else [[w] * nw for w in [rng.choice([0, 3, 10, 17]) for _ in range(rows)]])
    for j in range(rows):
        if rng.random() < .12:
            d['mask'][j] = [0] * nw
        for i in range(nw):
            if not d['mask'][j][i] and rng.random() < .5:      # what lies at masked samples does not matter
                d['flux'][j][i] = rng.choice([-99, 90, 40])
    sky = [i for i in range(nw) if rng.random() < .25]
    d['nosky'] = [i + 1 for i in range(nw) if i not in sky]
    return d


def attach(g, d, rng):
    scene.data(g, d['flux'], d['err'], d['mask'], [i - 1 for i in d['nosky']], np.array(d['weight']) / 10.)
    s = g.spec2D
    s.wh_nosky = s.wh_nosky.astype(int)
    s.wh_sky = np.setdiff1d(np.arange(s.flux.shape[1]), s.wh_nosky)
    s.mask_sky = np.array([[1. if i + 1 in d['nosky'] else 0. for i in range(s.flux.shape[1])]] * s.flux.shape[0])
    s.mask_low_snr = np.ones(s.flux.shape)
    s.mask_qual = np.ones(s.flux.shape)
    s.low_snr_row_inds = []
    s.spec_weight = np.ones(s.flux.shape)
    if rng.random() < .3:        # attach different values elsewhere
        s.flux_incl_cont = s.flux + 3.


class Fake:
    pass


def direct(c, mf, rng):
    rows, nw = rng.choice([1, 2, 4, 6]), rng.choice([1, 3, 6, 9])
    vary = [rng.random() < .5 for _ in range(5)]
    g = scene.gal(mf, rows=rows, nw=max(nw, 2), dl=4.)
    m = scene.kin(mf, g, [100., .3, 60., 0., 1.5], vary, no_scale=False)
    m.aperModel = Fake()
    m.aperModel.galaxy = g
    for _ in range(3):
        d = arrays(rng, rows, nw)
        attach(g, d, rng)
        model = [[rng.choice([0, 0, 1, 2, 5, 9, 12]) for _ in range(nw)] for _ in range(rows)]
        if rng.random() < .2:
            model = [[rng.choice([-1, 1]) * v for v in r] for r in model]
        for j in range(rows):
            if rng.random() < .1:
                model[j] = [0] * nw
        d.update(model=model, free=sum(vary))
        m.model = np.array(model, dtype=float)

        def go():
            m.scale_model(g)
            return m.model
        o, ex = attempt(go)
        c.history()
        c.ev('scale', raised=ex, out=[[fix(v, 1000) for v in r] for r in o] if not ex else [], **d)
        if rng.random() < .3:      # a model that fits
            model = [[int(f) if abs(f) < 50 else 3 for f in r] for r in d['flux']]
        d['model'] = model
        m.model = np.array(model, dtype=float)
        n = sum(map(sum, d['mask'])) - sum(vary)

        def go():
            r = dict(chisq=fix(m.model_chisq(), 1000), llike=fix(-2 * m.model_llike(), 1000))
            from misfit.model import kin_model as km
            r['plain'] = fix(km._model_chisq_no_weight(m), 1000)
            if n:
                r.update(red=fix(m.model_redchisq(), 1000), redplain=fix(m.model_redchisq_no_weight(), 1000), redref=fix(m.model_redchisq_weight_ref(), 1000))
            else:
                r.update(red=0, redplain=0, redref=0)
            return r
        o, ex = attempt(go)
        c.ev('fit', raised=ex, **(o if not ex else {}), **d)


def made(c, mf, rng):
    rows, nw = rng.choice([3, 5]), rng.choice([5, 7])
    d = arrays(rng, rows, nw)
    g = scene.gal(mf, rows=rows, nw=nw, dl=4., pa=rng.choice([0., 50.]), q=rng.choice([.3, .8]))
    attach(g, d, rng)
    i = scene.inst(mf, n=rows)
    th = [rng.choice([150., -60.]), .3, rng.choice([60., 120.]), rng.choice([0., .4]), 1.5]
    opts = lambda: mf.KinModel2DOptions(nSubpixels=rng.choice([1, 1, 2]))
    o1 = opts()
    how = rng.choice(['make', 'update', 'fit', 'copy'])

    def go():
        u = scene.kin(mf, g, th, [True] * 5, opts=o1, no_scale=True)
        u.make_model(galaxy=g, instrument=i, theta_fitting=th)
        if how == 'fit':
            f = mf.FitEmissionLines2D(galaxy=g, instrument=i, thetaSettings=scene.settings(mf, th, [True] * 5, np.array([[-1000., 1000.]] * 5)), kinModelOptions=o1, linegroup_name='Halpha', skip_fit_prep_calcs=True, usetex=False)
            f.setup_model()
            f.update_model(theta_fitting=th)
            m = f.kinModel
        else:
            m = scene.kin(mf, g, th, [True] * 5, opts=o1, no_scale=False)
            first = list(th) if how == 'make' else [80., .5, 90., 0., 1.5]
            m.make_model(galaxy=g, instrument=i, theta_fitting=first)
            if how == 'copy':
                m = m.copy()
            if how != 'make':
                m.update_model(theta_fitting=th)
        out = m.model.copy()
        m.update_model(theta_fitting=th)
        return u.model, out, m.model
    o, ex = attempt(go)
    q = lambda a: [[fix(v, 100) for v in r] for r in a]
    if not ex:
        u = [[int(round(200. * v / r.max())) for v in r] for r in o[0]]
    c.history()
    c.ev('made', raised=ex, free=5, model=u if not ex else [], out=q(o[1]) if not ex else [], again=q(o[2]) if not ex else [], **d)


def main(c):
    mf = core.import_misfit()
    c.model('MCScale', cfg='MCScaleBig.cfg' if c.thorough else None)
    with core.quiet():
        for _ in range(1200 if c.thorough else 120):
            direct(c, mf, c.rng)
            if _ % 2:
                made(c, mf, c.rng)
    c.conform('ScaleTrace')
