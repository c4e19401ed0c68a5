"""C20 summaries of sampled chains."""
import numpy as np

import core
import scene
from checks import c15
from core import attempt, fix

UNIT = [.125, 1. / 1024, .125, 1. / 512, 1e-6]
OFF = [0., 0., 0., 0., 1.5]
THETA = [800, 307, 480, 0, 0]


def column(rng, n, j):
    """n integers of various distributions with a spread of some hundred units."""
    while True:
        kind = rng.choice(['normal', 'normal', 'skew', 'two', 'flat', 'held'])
        sd = rng.choice([100, 150, 220])
        c = rng.choice([0, 0, 60, 300]) if j == 3 else THETA[j] + rng.randint(-100, 100)
        if kind == 'normal':
            x = [rng.gauss(0, 1) for _ in range(n)]
        elif kind == 'skew':
            x = [rng.expovariate(1.) - 1. for _ in range(n)]
            if rng.random() < .5:
                x = [-v for v in x]
        elif kind == 'two':
            x = [rng.choice([-1.4, 1.]) + .35 * rng.gauss(0, 1) for _ in range(n)]
        elif kind == 'flat':
            x = [rng.uniform(-1.7, 1.7) for _ in range(n)]
        else:       # walkers that stay where they are
            x = [rng.gauss(0, 1)]
            while len(x) < n:
                x.append(x[-1] if rng.random() < .4 else rng.gauss(0, 1))
        x = [int(round(c + sd * v)) for v in x]
        if j == 1:
            x = [max(v, 2) for v in x]
        if np.std(x) > 80 and max(x) - min(x) < 1400:
            return x


class Fit:
    def __init__(self, c, mf, rng):
        import misfit.fit.fit_core
        self.c, self.mf, self.rng = c, mf, rng
        self.fc = misfit.fit.fit_core
        while True:
            self.vary = [rng.random() < .6 for _ in range(5)]
            if any(self.vary):
                break
        self.solid = rng.random() < .5
        self.rm = rng.choice([8, 16, 21, 32])
        self.fixed = list(THETA)
        self.theta = [OFF[j] + UNIT[j] * THETA[j] for j in range(5)]
        g = scene.gal(mf, rows=5, nw=5, re=.6)
        g.re_mass_arcsec = self.rm / 32.
        scene.data(g, np.ones((5, 5)), np.ones((5, 5)))
        self.links = []
        st = scene.settings(mf, self.theta, self.vary, [[0., 400.], [0., 2.], [-200., 200.], [-2., 2.], [1.4, 1.6]])
        kw = dict(kinProfile=c15.profile(mf)) if self.solid else {}
        self.f = mf.FitEmissionLines2D(galaxy=g, instrument=scene.inst(mf, n=5), thetaSettings=st, linegroup_name='Halpha',
                                       skip_fit_prep_calcs=True, usetex=False, **kw)
        self.f.kinModelOptions.nSubpixels = 1
        self.f.setup_model()
        c.ev('fit', vary=self.vary, fixed=self.fixed, rm=self.rm, solid=self.solid)
        self.free = [j for j in range(5) if self.vary[j]]
        self.abs = False
        self.f.kinModelOptions.absvalsigma = False

    def sample(self):
        rng = self.rng
        walkers = rng.choice([4, 6, 8])
        n = walkers * rng.choice([4, 5, 6])
        cols = [column(rng, n, j) for j in self.free]
        if len(cols) > 1 and rng.random() < .5:        # correlated parameters
            cols[1] = [int(round(.6 * a + .5 * b)) for a, b in zip(cols[0], cols[1])]
            if self.free[1] == 1:
                cols[1] = [max(v, 2) for v in cols[1]]
        self.flipped = False
        if 2 in self.free and rng.random() < .5:         # dispersions of either sign
            k = self.free.index(2)
            cols[k] = [v if rng.random() < .6 else -v for v in cols[k]]
            cols[k] = [int(v * .7) for v in cols[k]]
            self.flipped = True
        if 0 in self.free and rng.random() < .2:
            k = self.free.index(0)
            cols[k] = [v - 700 for v in cols[k]]
        for k, x in enumerate(cols):
            if np.std(x) < 60:
                return self.sample()
        flat = np.array([[OFF[j] + UNIT[j] * v for v in x] for j, x in zip(self.free, cols)]).T
        self.f.sampler_dict = dict(flatchain=flat.copy(), chain=flat.reshape(walkers, -1, len(cols)).copy(), acceptance=np.ones(walkers))
        self.c.ev('chain', cols=cols)

    def ask(self):
        rng = self.rng
        nf = len(self.free)
        r = rng.random()
        if r < .4:
            links = []
        elif r < .5 and nf <= 2:
            links = ['all']
        else:
            idx = list(range(nf))
            rng.shuffle(idx)
            links = []
            while idx and len(links) < 2:
                k = min(len(idx), rng.choice([1, 2, 2]))
                links.append(idx[:k])
                idx = idx[k:]
            if nf > 2 and rng.random() < .2:       # overlapping sets
                links.append([links[0][0], rng.choice([i for i in range(nf) if i != links[0][0]])])
        self.links = links
        self.f.theta_linked_posteriors = links or None
        self.abs = rng.random() < .45
        self.f.kinModelOptions.absvalsigma = self.abs
        self.c.ev('ask', abs=self.abs, links=[list(range(1, nf + 1)) if x == 'all' else [i + 1 for i in x] for x in links])

    def analyse(self):
        f, mf, rng, nf = self.f, self.mf, self.rng, len(self.free)
        full = rng.random() < .4 and (not self.flipped or self.abs)
        if full:
            _, ex = attempt(f.analyze_results)
        else:
            _, ex = attempt(self.fc.get_chain_results, f)
        if ex:
            self.c.ev('analyse', raised=ex)
            return
        r, sd = f.mcmc_results, f.sampler_dict
        flat = sd['flatchain']
        ints = lambda a, j: [int(round(v)) for v in (np.asarray(a) - OFF[j]) / UNIT[j]]
        free = [ints(flat[:, k], j) for k, j in enumerate(self.free)]
        chain = [ints(sd['chain'][:, :, k].reshape(-1), j) for k, j in enumerate(self.free)] if sd['chain'].shape[2] == nf else []
        # derived values of each sample, from a fresh profile
        own = [[], [], [], []]
        for row in flat:
            th = list(self.theta)
            for k, j in enumerate(self.free):
                th[j] = row[k]
            kp = c15.profile(mf) if self.solid else mf.KinProfileFiducial()
            kp.update_theta(np.array(th))
            for q, v in enumerate([kp.vel(self.rm / 32., 0.), kp.vel(2.2 / 1.676 * self.rm / 32., 0.), kp.sigma(self.rm / 32., 0.), kp.sigma(2.2 / 1.676 * self.rm / 32., 0.)]):
                own[q].append(fix(float(v), 100))
        der = [[fix(v, 100) for v in flat[:, nf + q]] if flat.shape[1] > nf + q else [] for q in range(4)]
        res = []
        for k in range(flat.shape[1]):
            col = flat[:, k]
            if k < nf:
                off, unit = OFF[self.free[k]], UNIT[self.free[k]]
            else:
                off = float(col.min())
                unit = float(np.ptp(col)) / 1000. or 1.
            g = lambda v: int(np.clip(round(float(v) / unit * 16), -2**30, 2**30))
            d = dict(best=g(r.bestfit_theta[k] - off), lo1=g(r.err_theta_1sig[k][0]), hi1=g(r.err_theta_1sig[k][1]),
                     lo2=g(r.err_theta_2sig[k][0]), hi2=g(r.err_theta_2sig[k][1]), opp=fix(r.percent_oppsign[k], 100),
                     zero=int(np.clip(round(-off / unit), -2**26, 2**26)))
            if k >= nf:
                d['x'] = [int(round(v)) for v in (col - off) / unit]
            res.append(d)
        sx = lambda a: [int(np.clip(round((float(v) - OFF[j]) / UNIT[j] * 16), -2**30, 2**30)) for j, v in enumerate(a)]
        fitting = [int(np.clip(round((float(v) - OFF[j]) / UNIT[j] * 16), -2**30, 2**30)) for j, v in zip(self.free, r.bestfit_theta_fitting)]
        if len(fitting) != len(r.bestfit_theta_fitting):
            fitting = []
        ok = True
        if full:
            fresh = scene.kin(mf, f.galaxy, f.kinModel.theta, self.vary, opts=f.kinModelOptions.copy(), no_scale=False,
                              kp=c15.profile(mf) if self.solid else None)
            fresh.make_model(galaxy=f.galaxy, instrument=f.instrument, theta_fitting=np.array(r.bestfit_theta_fitting))
            ok = bool(np.allclose(fresh.model, f.kinModel.bestfit.model, rtol=1e-6, atol=1e-9 * np.abs(fresh.model).max(), equal_nan=True))
        self.c.ev('analyse', raised='', full=full, free=free, chain=chain, width=int(flat.shape[1]), names=[str(n) for n in r.theta_names], own=own, der=der, res=res,
                  fitting=fitting, theta=sx(f.kinModel.theta) if full else [], bestfit=sx(f.kinModel.bestfit.theta) if full else [], modelled=ok)


def main(c):
    mf = core.import_misfit()
    c.model('MCPost')
    for _ in range(160 if c.thorough else 26):
        c.history()
        with core.quiet():
            f = Fit(c, mf, c.rng)
            f.sample()
            if c.rng.random() < .7:
                f.ask()
            f.analyse()
            for _ in range(c.rng.choice([0, 1, 2])):
                r = c.rng.random()
                if r < .3:
                    f.sample()
                elif r < .6:
                    f.ask()
                f.analyse()
    c.assumptions.append('chains of 16 to 48 samples on a grid of integers; the smoothed distribution is the Gaussian one with Scott\'s width')
    c.conform('PostTrace', shards=6)
