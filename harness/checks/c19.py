"""C19 the sampling protocol, with real ensembles and scripted convergence."""
import hashlib
import os
import pickle
import re
import shutil
import tempfile

import numpy as np

import core
import scene
from core import attempt

NDIM = 2
CENTRE = np.array([110., .4])
WIDTH = np.array([40., .15])
BOUNDS = [[0., 300.], [0., 1.], [10., 100.], [-1., 1.], [1.4, 1.6]]


def digest(a):
    return int(hashlib.sha1(np.ascontiguousarray(a, dtype=float).tobytes()).hexdigest()[:7], 16)


class Crash(Exception):
    pass


class Cheap:
    """Stands in for the expensive model: same posterior interface."""
    left = [None]

    def __init__(self):
        self.theta = None

    def update(self, theta_fitting=None, **kw):
        if Cheap.left[0] is not None:
            Cheap.left[0] -= 1
            if Cheap.left[0] < 0:
                raise Crash('injected')
        self.theta = np.array(theta_fitting, dtype=float)

    def llike(self):
        return like(self.theta)


def like(t):
    return float(-.5 * np.sum(((np.asarray(t) - CENTRE) / WIDTH) ** 2))


def prior_in(t):
    return bool(all(b[0] <= x <= b[1] for x, b in zip(t, BOUNDS)))


def base(mf):
    """A prepared fit and its reduced copy."""
    import misfit.fit.fit_core as fc
    g = scene.gal(mf, rows=5, nw=5)
    scene.data(g, np.ones((5, 5)), np.ones((5, 5)))
    st = scene.settings(mf, [100., .3, 50., 0., 1.5], [True, True, False, False, False], BOUNDS)
    f = mf.FitEmissionLines2D(galaxy=g, instrument=scene.inst(mf, n=5), thetaSettings=st, linegroup_name='Halpha', skip_fit_prep_calcs=True, usetex=False)
    f.kinModelOptions.nSubpixels = 1
    f.setup_model()
    p = fc.make_pruned_fitEmis2D_class(f)
    ch = Cheap()
    p.kinModel.update_model = ch.update
    p.kinModel.model_llike = ch.llike
    return f, p


class Spy:
    """Watches every stored ensemble and scripts what the sampler reports."""

    def __init__(self):
        import emcee
        self.em = emcee
        self.orig = []
        spy = self

        def patch(obj, name, new):
            self.orig.append((obj, name, obj.__dict__[name]))
            setattr(obj, name, new)

        def saver(orig):
            def save_step(be, state, accepted):
                r = orig(be, state, accepted)
                spy.stored(be, state, accepted)
                return r
            return save_step
        patch(emcee.backends.HDFBackend, 'save_step', saver(emcee.backends.HDFBackend.save_step))
        patch(emcee.backends.Backend, 'save_step', saver(emcee.backends.Backend.save_step))
        osample = emcee.EnsembleSampler.sample

        def sample(smp, initial_state, *a, **kw):
            if spy.init is None:
                st = emcee.state.State(initial_state, copy=True)
                spy.init = np.array(st.coords)
            return osample(smp, initial_state, *a, **kw)
        patch(emcee.EnsembleSampler, 'sample', sample)
        patch(emcee.EnsembleSampler, 'acceptance_fraction', property(lambda smp: np.full(smp.nwalkers, spy.now()[0] / 16.)))
        patch(emcee.EnsembleSampler, 'get_autocorr_time', lambda smp, *a, **kw: spy.acor())
        ostretch = emcee.moves.StretchMove.__init__

        def stretch(mv, a=2., **kw):
            spy.scale.append(float(a))
            return ostretch(mv, a, **kw)
        patch(emcee.moves.StretchMove, '__init__', stretch)
        self.reset(None, [], None, None)

    def close(self):
        for obj, name, o in reversed(self.orig):
            setattr(obj, name, o)

    def reset(self, c, script, conf, quiet):
        self.c, self.script, self.conf, self.quiet = c, script, conf, quiet
        self.init, self.scale, self.backends, self.prev, self.np, self.steps = None, [], [], None, 0, []

    def now(self):
        return self.script[max(0, min(self.np, len(self.script)) - 1)] if self.script else (4, 0)

    def acor(self):
        v = self.now()[1] if self.np else 0
        if v == -1:
            raise RuntimeError('chain too short')
        a = np.full(NDIM, v / 4.)
        if v == -2:
            a[0] = np.nan
        elif v > 0:
            a[self.np % NDIM] = v / 8.
        return a

    def group(self, be):
        name = getattr(be, 'name', None)
        if isinstance(name, str):
            return 'burn' if 'burn' in name else 'prod'
        if not any(b is be for b in self.backends):
            self.backends.append(be)
        return 'burn' if self.conf['nBurn'] > 0 and self.backends[0] is be else 'prod'

    def stored(self, be, state, accepted):
        g = self.group(be)
        coords, lp = np.array(state.coords), np.array(state.log_prob)
        if g == 'prod':
            self.np += 1
        r = self.now() if g == 'prod' else (0, 0)
        prev = self.prev if self.prev is not None else self.init
        acc = np.asarray(accepted, dtype=bool)
        self.steps.append(coords)
        self.prev = coords
        self.c.ev('step', g=g, id=digest(coords), cont=bool(np.array_equal(coords[~acc], prev[~acc]) and np.all(np.any(coords[acc] != prev[acc], axis=1))),
                  prob=bool(np.allclose(lp, [like(t) for t in coords], rtol=0, atol=1e-9)),
                  inside=all(prior_in(t) for t in coords) and all(prior_in(t) for t in self.init),
                  walkers=coords.shape == (self.conf['nWalkers'], NDIM) and len({tuple(t) for t in self.init}) == self.conf['nWalkers'],
                  scale=self.scale != [] and all(a == self.conf['a'] for a in self.scale), af=r[0], acor=r[1])


def ids(chain):
    """Steps x walkers x parameters -> digests."""
    return [digest(np.array(x)) for x in chain]


def stored(path, group):
    import h5py
    if not os.path.exists(path):
        return []
    with h5py.File(path, 'r') as f:
        if group not in f:
            return []
        n = int(f[group].attrs['iteration'])
        return ids(f[group]['chain'][:n])


def script(rng, n, conf):
    """What the sampler will report after each production step."""
    out = []
    ready = rng.choice([5, 30, 47, 48, 49, 50, 51, 52, 54, 999, n - 1, n - 1, n - 1])
    for i in range(n):
        lo, hi = (4, 9) if conf['minAF'] < 0 else (conf['minAF'], conf['maxAF'])
        eff = max(conf['nEff'], 1)
        good = i >= ready and (rng.random() < .9 or i == n - 1)
        if good:
            af = rng.randrange(lo + 1, max(lo + 2, hi))
            acor = rng.choice([4 * i // eff - 1 if (4 * i) % eff == 0 else 4 * i // eff, max(0, 4 * i // eff - 5), 0])
        else:
            af = rng.choice([lo, hi, lo + 1, lo + 1, lo - 1, hi + 1])
            acor = rng.choice([4 * i // eff + 1, 4 * i // eff + 20, -1, -2]) if lo < af < hi else rng.choice([0, 4 * i // eff + 1])
            if (4 * i) % eff == 0 and rng.random() < .4:
                acor = 4 * i // eff
        out.append((max(0, af), acor if acor < 0 or i else max(acor, 0)))
    return out


def run(c, mf, f0, p0, spy, conf, sc, d, rng, seed, crash=None, record=True):
    import misfit.fit.fit_core as fc
    f, p = f0.copy(), p0.copy()
    o = f.mcmcOptions
    o.nWalkers, o.nBurn, o.nSteps, o.runAllSteps, o.overwrite, o.scale_param_a = conf['nWalkers'], conf['nBurn'], conf['nSteps'], conf['all'], conf['over'], conf['a']
    o.minAF, o.maxAF = [None if v < 0 else v / 16. for v in (conf['minAF'], conf['maxAF'])]
    o.nEff = None if conf['nEff'] < 0 else conf['nEff']
    h5 = os.path.join(d, 'chain.h5')
    o.filename_sampler_h5 = h5 if conf['file'] else None
    o.filename_log = os.path.join(d, 'log')
    o.filename_sampler = os.path.join(d, 'sampler.pickle') if conf['save'] else None
    if os.path.exists(os.path.join(d, 'sampler.pickle')):
        os.remove(os.path.join(d, 'sampler.pickle'))
    o.NoThread = conf['cpus'] == 1
    o.nCPUs = conf['cpus'] if conf['cpus'] > 1 else None
    rec = c if record else Null()
    rec.ev('start', **{k: conf[k] for k in ('nBurn', 'nSteps', 'minAF', 'maxAF', 'nEff', 'all', 'over', 'file')})
    spy.reset(rec, sc, conf, None)
    Cheap.left[0] = crash
    np.random.seed(seed)
    out, ex = attempt(fc.run_mcmc, f, fitEmis2D_fit=p)
    hit = Cheap.left[0] is not None and Cheap.left[0] < 0
    Cheap.left[0] = None
    d_ = dict(raised=ex, crash=bool(hit), burn=stored(h5, 'burnin_mcmc') if conf['file'] else [], prod=stored(h5, 'mcmc') if conf['file'] else [],
              chain=[], whole=False, saved=False, fin=-1, early=-1, forced=-1, caution=False)
    if not ex:
        s = out.sampler_dict
        ch = np.asarray(s['chain'])
        d_['chain'] = ids(np.swapaxes(ch, 0, 1))
        n = ch.shape[1]
        lp = np.array([[like(t) for t in w] for w in ch])
        d_['whole'] = bool(ch.shape == (conf['nWalkers'], n, NDIM) and np.array_equal(s['flatchain'], ch.reshape(-1, NDIM)) and np.allclose(s['lnprobability'], lp, atol=1e-9)
                           and np.array_equal(s['flatlnprobability'], np.asarray(s['lnprobability']).reshape(-1)) and s['nIter'] == n and s['nParam'] == NDIM
                           and s['nWalkers'] == conf['nWalkers'] and s['nCPU'] == conf['cpus'] and np.allclose(s['acceptance_fraction'], spy.now()[0] / 16.) and out is f)
        pk = os.path.join(d, 'sampler.pickle')
        if conf['save']:
            with open(pk, 'rb') as fh:
                t = pickle.load(fh)
            d_['saved'] = bool(sorted(t) == sorted(s) and all(np.array_equal(t[k], s[k], equal_nan=k == 'acor_time') for k in s if k not in ('fitEmis2D',)))
        else:
            d_['saved'] = not os.path.exists(pk)
        log = open(o.filename_log).read()
        get = lambda pat: [int(x) for x in re.findall(pat, log)]
        one = lambda v: v[0] if len(v) == 1 else -1 if not v else -9
        d_['fin'], d_['early'], d_['forced'] = one(get(r'Finished (\d+) steps')), one(get(r'early at step (\d+)')), one(get(r'min step limit: (\d+)'))
        d_['caution'] = 'no convergence' in log
    rec.ev('end', **d_)
    return [digest(x) for x in spy.steps]


class Null:
    def ev(self, *a, **kw):
        pass


def session(c, mf, f0, p0, spy, rng):
    d = tempfile.mkdtemp(prefix='c19_')
    try:
        c.history()
        nw = rng.choice([6, 8, 11]) if rng.random() < .9 else 20
        for r in range(rng.choice([1, 2, 2, 3])):
            short = rng.random() < .4
            eff = rng.choice([1, 2, 3, 10])
            bounds = rng.choice([(4, 8), (3, 8), (4, 8), (0, 16)])
            conf = dict(nBurn=rng.choice([0, 1, 2, 4]), nSteps=rng.choice([1, 2, 3, 5]) if short else rng.choice([49, 50, 51, 53, 58]), minAF=bounds[0], maxAF=bounds[1], nEff=eff,
                        all=rng.random() < .15, over=rng.random() < .5, file=rng.random() < .85, save=rng.random() < .7, nWalkers=nw, a=rng.choice([2., 3., 1.5]), cpus=1)
            u = rng.random()
            if u < .08:
                conf['nEff'] = -1
            elif u < .14:
                conf[rng.choice(['minAF', 'maxAF'])] = -1
            elif u < .18 and short:
                conf['cpus'] = 2
            sc = script(rng, conf['nSteps'], conf) if conf['minAF'] >= 0 and conf['maxAF'] >= 0 else [(6, 0)] * conf['nSteps']
            crash = rng.randrange(1, (conf['nBurn'] + conf['nSteps']) * nw + 4) if rng.random() < .3 and conf['cpus'] == 1 else None
            seed = rng.randrange(2 ** 31)
            a = run(c, mf, f0, p0, spy, conf, sc, d, rng, seed, crash)
            if short and conf['over'] and crash is None and rng.random() < .5:
                t = tempfile.mkdtemp(prefix='c19_')
                try:
                    b = run(c, mf, f0, p0, spy, conf, sc, t, rng, seed, None, record=False)
                finally:
                    shutil.rmtree(t)
                c.ev('twin', same=a == b)
    finally:
        shutil.rmtree(d)


def main(c):
    mf = core.import_misfit()
    c.model('MCMcmc', cfg='MCMcmcBig.cfg' if c.thorough else None)
    with core.quiet():
        f0, p0 = base(mf)
        spy = Spy()
        try:
            for _ in range(300 if c.thorough else 30):
                session(c, mf, f0, p0, spy, c.rng)
        finally:
            spy.close()
    c.conform('McmcTrace')
