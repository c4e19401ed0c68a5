"""C21 saving, reloading, copying and reducing fits."""
import hashlib
import os
import pickle
import shutil
import tempfile

import numpy as np

import core
import scene
from checks.c13 import sha
from core import attempt, fix

BOUNDS = [[0., 300.], [.02, 1.], [10., 100.], [-1., 1.], [1.4995, 1.5005]]
START = [100., .3, 50., .1, 1.5]


def bare(p):
    """What a profile is, without its current parameter values."""
    if p is None:
        return None
    d = {k: v for k, v in p.__dict__.items() if k not in ('theta', 'velProfile', 'dispProfile')}
    return [type(p).__name__, d, bare(getattr(p, 'velProfile', None)), bare(getattr(p, 'dispProfile', None))]


def galaxy(g):
    d = {k: v for k, v in g.__dict__.items() if k not in ('pstamp', 'spec2D')}
    s = {k: v for k, v in g.spec2D.__dict__.items() if k != 'spec_hdr'}
    return [d, s]


def aspects(f):
    return dict(galaxy=sha(galaxy(f.galaxy)), instrument=sha(f.instrument), img=sha(f.instrument_img),
                lines=sha([f.linegroup_name, f.linenames_arr, f.restwave_arr, f.flux_ratio_arr]),
                kin=sha(bare(f.kinProfile)), intensity=sha(f.intensityProfile), options=sha(f.kinModelOptions), prior=sha(f.thetaPrior),
                settings=sha(f.thetaSettings), mcmc=sha(f.mcmcOptions), links=sha(f.theta_linked_posteriors), results=sha(f.mcmc_results),
                extras=2 * (getattr(f.galaxy, 'pstamp', None) is not None) + ('spec_hdr' in f.galaxy.spec2D.__dict__))


def chain(f):
    return 0 if f.sampler_dict is None else sha(f.sampler_dict['chain'])


def filehash(p):
    if not os.path.exists(p):
        return 0
    with open(p, 'rb') as f:
        return int(hashlib.sha1(f.read()).hexdigest()[:7], 16)


class Stamp:
    """An image that is not kept in saved fits."""
    img_PA = 10.

    def copy(self):
        return self


class Desk:
    def __init__(self, c, mf, rng, d):
        import misfit.fit.fit_core as fc
        self.c, self.mf, self.rng, self.d, self.fc = c, mf, rng, d, fc
        self.best, self.samp = os.path.join(d, 'best.pickle'), os.path.join(d, 'sampler.pickle')
        self.fits = []
        self.ready = []
        self.vary = [True, rng.random() < .6, rng.random() < .6, rng.random() < .4, False]
        self.kind = rng.choice(['fiducial', 'fiducial', 'other'])
        self.links = rng.choice([None, None, [[0]], ['all']]) if sum(self.vary) < 3 else rng.choice([None, [[0, 1]]])
        self.flux = np.array([[rng.choice([1., 2., 5., 9.]) for _ in range(7)] for _ in range(5)])
        self.psf = rng.choice(['Gaussian', 'Moffat'])
        self.thetas = [[b[0] + rng.random() * (b[1] - b[0]) for b, v in zip(BOUNDS, self.vary) if v] for _ in range(3)]
        self.thetas.append([b[1] + 1. for b, v in zip(BOUNDS, self.vary) if v])

    def files(self):
        return [filehash(self.best), filehash(self.samp)]

    def state(self):
        return dict(fits=[aspects(f) for f in self.fits], chains=[chain(f) for f in self.fits], hash=self.files())

    def op(self, op, o, fn, aspect='', **kw):
        with core.quiet():
            _, ex = attempt(fn)
        s = self.state()
        self.c.ev('op', op=op, o=o + 1, aspect=aspect, raised=ex, new=s['fits'][o] if o < len(s['fits']) else {}, chain=s['chains'][o] if o < len(s['chains']) else 0,
                  stored=True, **dict(s, **kw))
        return not ex

    def new(self):
        mf, rng = self.mf, self.rng

        def go():
            g = scene.gal(mf, rows=5, nw=7)
            scene.data(g, self.flux, np.ones((5, 7)) * 2.)
            g.pstamp = Stamp()
            g.spec2D.spec_hdr = {'A': 1}
            st = scene.settings(mf, list(START), list(self.vary), [list(b) for b in BOUNDS])
            st.theta_linked_posteriors = self.links
            opt = mf.MCMC2DOptions(nWalkers=10, nBurn=0, nSteps=3, NoThread=True, nCPUs=1, overwrite=True)
            opt.filename_sampler, opt.filename_bestfit_model = self.samp, self.best
            opt.filename_sampler_h5 = opt.filename_plot_trace = opt.filename_plot_trace_burnin = None
            kw = {} if self.kind == 'fiducial' else dict(kinProfile=mf.model.kin_classes.KinProfile(
                velProfile=Swift(), dispProfile=mf.model.kin_classes.DispConstProfile(), name='own'))
            f = mf.FitEmissionLines2D(galaxy=g, instrument=scene.inst(mf, n=5, kind=self.psf), thetaSettings=st, mcmcOptions=opt, linegroup_name='Halpha',
                                      instrument_img=mf.Imager(pixscale=.06, PSF_FWHM=.16, PSF_type='Gaussian', instrument_name='HST', band='H') if self.kind == 'other' else None,
                                      skip_fit_prep_calcs=True, usetex=False, **kw)
            f.kinModelOptions.nSubpixels = 1
            self.fits.append(f)
            self.ready.append(False)
        self.op('new', len(self.fits), go)

    def setup(self, o):
        self.ready[o] = True
        self.op('setup', o, self.fits[o].setup_model)

    def run(self, o):
        f = self.fits[o]
        if not self.ready[o]:
            self.setup(o)

        def go():
            np.random.seed(self.rng.randrange(10**6))
            f.run_mcmc()
        with core.quiet():
            _, ex = attempt(go)
        s, ok = self.state(), False
        if not ex and os.path.exists(self.samp):
            d = pickle.load(open(self.samp, 'rb'))
            m = f.sampler_dict
            ok = all(np.array_equal(np.asarray(d[k]), np.asarray(m[k]), equal_nan=True) for k in
                     ('chain', 'flatchain', 'lnprobability', 'flatlnprobability', 'nIter', 'nParam', 'nWalkers', 'acceptance_fraction', 'acor_time'))
            ok = ok and all(sha(getattr(d['fitEmis2D'], a)) == sha(getattr(f, a)) for a in ('mcmcOptions', 'kinModelOptions', 'thetaSettings'))
        self.c.ev('op', op='run', o=o + 1, aspect='', raised=ex, new=s['fits'][o], chain=s['chains'][o], stored=ok, **s)

    CHANGES = ['options', 'settings', 'links', 'galaxy', 'instrument', 'mcmc', 'results', 'intensity']

    def change(self, o, a=None):
        f, rng = self.fits[o], self.rng
        a = a or rng.choice(self.CHANGES)

        def go():
            if a == 'options':
                f.kinModelOptions.sigma_floor = not f.kinModelOptions.sigma_floor
            elif a == 'settings':
                f.thetaSettings.theta_bounds[0][1] += 50.
            elif a == 'links':
                f.theta_linked_posteriors = rng.choice([None, [[0]]])
                f.thetaSettings.theta_linked_posteriors = f.theta_linked_posteriors
            elif a == 'galaxy':
                f.galaxy.spec2D.flux[rng.randrange(5), rng.randrange(7)] += 1.
            elif a == 'instrument':
                f.instrument.instrument_resolution += 5.
            elif a == 'intensity':
                k = self.mf.model.kin_classes
                was = isinstance(f.intensityProfile, k.IntensityProfileSersicExpScale)
                f.intensityProfile = (k.IntensityProfileFiducial if was else k.IntensityProfileSersicExpScale)(f.galaxy)
            elif a == 'mcmc':
                f.mcmcOptions.nSteps += 1
            else:
                f.mcmc_results.bestfit_theta = None if f.mcmc_results.bestfit_theta is None else np.array(f.mcmc_results.bestfit_theta) + 1.
        if a == 'links':
            self.op('change', o, lambda: setattr(f, 'theta_linked_posteriors', rng.choice([None, [[0]]])), 'links')
            self.op('change', o, lambda: setattr(f.thetaSettings, 'theta_linked_posteriors', f.theta_linked_posteriors), 'settings')
        else:
            self.op('change', o, go, a)
        self.setup(o)

    def post(self, o):
        f, rng = self.fits[o], self.rng
        if not self.ready[o]:
            self.setup(o)
        how = rng.choice(['full', 'reduced', 'copy', 'stored'])
        t = rng.randrange(4)

        def go():
            if how == 'full':
                x = f
            elif how == 'reduced':
                x = self.fc.make_pruned_fitEmis2D_class(f)
            elif how == 'copy':
                x = f.copy()
            else:
                x = pickle.loads(pickle.dumps(self.fc.make_pruned_fitEmis2D_class(f)))
            if rng.random() < .5:
                self.fc.lnprob(np.array(self.thetas[(t + 1) % 3]), x)
            return float(self.fc.lnprob(np.array(self.thetas[t]), x))
        with core.quiet():
            v, ex = attempt(go)
        self.c.ev('post', o=o + 1, how=how, theta=t, raised=ex, value=fix(v, 1000) if not ex else 0, **self.state())

    def roundtrip(self):
        """Save one fit, change it or another one, and restore the first into that."""
        rng = self.rng
        o = rng.randrange(len(self.fits))
        if not self.ready[o]:
            self.setup(o)
        if rng.random() < .5:
            self.run(o)
            self.op('analyse', o, self.fits[o].analyze_results)
        for _ in range(rng.randrange(3)):
            self.change(o)
        self.op('save', o, self.fits[o].save_bestfit_model)
        self.post(o)
        if len(self.fits) < 3 and rng.random() < .6:
            self.new()
            o = len(self.fits) - 1
            self.ready[o] = True
        for a in rng.sample(self.CHANGES, rng.choice([2, 4])):
            self.change(o, a)
        if self.op('load', o, self.fits[o].reload_bestfit_model):
            self.setup(o)
        for _ in range(3):
            self.post(o)
        self.op('save', o, self.fits[o].save_bestfit_model)

    def step(self):
        rng, n = self.rng, len(self.fits)
        o = rng.randrange(n)
        f = self.fits[o]
        r = rng.random()
        if r < .08 and n < 3:
            self.new()
        elif r < .14 and n < 3:
            def go():
                self.fits.append(f.copy())
                self.ready.append(self.ready[o])
            with core.quiet():
                _, ex = attempt(go)
            s = self.state()
            self.c.ev('op', op='copy', o=o + 1, aspect='', raised=ex, new=s['fits'][o], chain=s['chains'][o], stored=True, **s)
        elif r < .24:
            self.run(o)
        elif r < .38:
            self.op('save', o, f.save_bestfit_model)
        elif r < .5:
            if self.op('load', o, f.reload_bestfit_model):
                self.setup(o)
        elif r < .56:
            self.op('loadchain', o, f.reload_sampler)
        elif r < .66:
            if not self.ready[o]:
                self.setup(o)
            self.op('analyse', o, f.analyze_results)
        elif r < .72:
            if f.kinModel is None:
                self.ready[o] = True
            self.op('reanalyse', o, f.reload_results)
        elif r < .82:
            self.change(o)
        elif r < .85:
            self.op('drop', o, lambda: os.path.exists(self.best) and os.remove(self.best))
        elif r < .89:
            keep = f.mcmcOptions.filename_bestfit_model, f.mcmcOptions.filename_sampler
            how = rng.choice(['nowhere', 'garbage', 'chain'])
            junk = os.path.join(self.d, 'junk')
            with open(junk, 'wb') as g:
                g.write(b'not a fit')

            def go():
                try:
                    if how == 'nowhere':
                        f.mcmcOptions.filename_bestfit_model = os.path.join(self.d, 'no', 'such', 'place')
                        f.save_bestfit_model()
                    elif how == 'garbage':
                        f.mcmcOptions.filename_bestfit_model = junk
                        f.reload_bestfit_model()
                    else:
                        f.mcmcOptions.filename_sampler = junk
                        f.reload_sampler()
                finally:
                    f.mcmcOptions.filename_bestfit_model, f.mcmcOptions.filename_sampler = keep
            self.op('bad', o, go)
        else:
            self.post(o)


def profile(mf):
    """A rotation curve of its own, known by name so that it can be stored."""
    global Swift

    class Swift(mf.model.kin_classes.VelArctanProfile):
        def vel(self, r, z):
            return .5 * super().vel(r, z)
    Swift.__qualname__ = 'Swift'


def main(c):
    mf = core.import_misfit()
    profile(mf)
    c.model('MCStore')
    for _ in range(150 if c.thorough else 24):
        c.history()
        d = tempfile.mkdtemp()
        try:
            k = Desk(c, mf, c.rng, d)
            k.new()
            k.setup(0)
            for _ in range(c.rng.choice([6, 10, 16])):
                k.step()
                if c.rng.random() < .12:
                    k.roundtrip()
        finally:
            shutil.rmtree(d)
    c.assumptions.append('image stamps and spectrum headers are not part of saved fits')
    c.conform('StoreTrace', shards=4)
