"""C25 complete fits and their figures."""
import logging
import os
import pickle
import re
import shutil
import tempfile

import numpy as np

import core
import scene
from checks.c13 import sha
from checks.c14 import ROT, angle
from core import attempt, fix

NAMES = ['Va', 'rt', 'sigma0', 'm0shift', 'z']
TEX = [r'$V_a$', r'$r_t$', r'$\sigma_0$', r'$m_0$', r'$z$']
SC = [1000, 10000, 1000, 10000, 100000]


def profile(mf):
    global Flat
    base = mf.model.kin_classes.VelArctanProfile

    class Flat(base):
        """V_a r/(r + r_t): its curves of constant velocity are rational."""
        def vel(self, r, z):
            return self.theta[0] * r / (np.abs(r) + self.theta[1])
    Flat.__qualname__ = 'Flat'


class Book:
    """What figures contain when they are written."""
    def __init__(self):
        import matplotlib
        from matplotlib.figure import Figure
        self.pages, self.real, self.Figure = [], False, Figure
        self.save = Figure.savefig

    def __enter__(self):
        book = self

        def savefig(fig, fname, *a, **kw):
            book.pages.append((str(fname), fig, [page(ax) for ax in fig.axes], notes(fig)))
            if book.real:
                book.save(fig, fname, bbox_inches='tight', dpi=30)
            else:
                with open(fname, 'w') as f:
                    f.write('figure')
        self.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        self.Figure.savefig = self.save
        plt.close('all')

    def take(self, name):
        p = [x for x in self.pages if x[0] == name]
        self.pages = [x for x in self.pages if x[0] != name]
        return p[-1] if p else None


def page(ax):
    from matplotlib.colors import to_hex
    d = dict(v=[], y=[], lines=[], points=[], curves=[], boxes=[], images=[], steps=[], title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel())
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
        if len(x) == 2 and x[0] == x[1]:
            d['v'].append(x[0])
        elif len(x) == 2 and y[0] == y[1] and l.get_transform() != ax.transData:
            d['y'].append(y[0])
        elif len(x) == 1:
            d['points'].append((x[0], y[0]))
        d['lines'].append((x, y))
    for p in ax.patches:
        if hasattr(p, 'get_xy'):
            xy = np.asarray(p.get_xy(), dtype=float)
            if xy.ndim == 2:
                d['boxes'].append(xy)
    for i in ax.images:
        d['images'].append((np.ma.filled(i.get_array(), np.nan), i.get_clim(), i.origin))
    d['order'] = [to_hex(l.get_color()) if not isinstance(l.get_color(), str) else l.get_color() for l in ax.lines]
    return d


def notes(fig):
    return [t.get_text() for ax in fig.axes for t in ax.texts] + [t.get_text() for t in fig.texts]


NUM = r'(-?(?:[\d.]+|nan|inf))'
QUOTE = [re.compile(p) for p in (r'\$\{' + NUM + r'\}_\{-' + NUM + r'\}\^\{\+' + NUM + r'\}\$$', NUM + '-' + NUM + r'\+' + NUM + '$')]


def cents(groups):
    try:
        return [int(round(float(g) * 100)) for g in groups]
    except (TypeError, ValueError, OverflowError):
        return []


def quote(text):
    for q in QUOTE:
        m = q.search(text)
        if m:
            return text[:m.start()].rstrip(' ='), cents(m.groups())
    return text, []


def near(pattern, texts, conv=cents):
    for t in texts:
        m = re.search(pattern, t)
        if m:
            return conv(m.groups()), t
    return [], ''


def hist(boxes, sc):
    """Edges and contents of a histogram drawn as one outline."""
    for xy in boxes:
        if len(xy) > 10:
            x, y = xy[:, 0], xy[:, 1]
            e, n = [], []
            for i in range(len(x) - 1):
                if y[i] == y[i + 1] and x[i + 1] > x[i]:
                    e += [x[i], x[i + 1]] if not e else [x[i + 1]]
                    n.append(int(round(y[i])))
            return dict(edges=[fix(v, sc) for v in e], n=n)
    return dict(edges=[], n=[])


class Desk:
    def __init__(self, c, mf, d):
        self.c, self.mf, self.d, self.rng = c, mf, d, c.rng
        self.fits, self.defs = [], []

    def new(self, like=None, small=False):
        mf, rng, c = self.mf, self.rng, self.c
        n = len(self.fits)
        if like is None:
            vary = rng.choice([[1, 1, 1, 1, 0], [1, 1, 1, 0, 0], [1, 1, 0, 0, 0], [1, 0, 1, 0, 0], [1, 0, 0, 0, 0], [1, 1, 1, 1, 1], [0, 0, 1, 0, 0], [1, 0, 1, 1, 0]])
            if small:
                vary = rng.choice([[1, 0, 0, 0, 0], [1, 0, 0, 0, 0], [1, 1, 0, 0, 0], [1, 0, 1, 0, 0]])
            k = sum(vary)
            links = rng.choice([None, [[0]], ['all'], [[0, 1]], [[0, 1]], [list(range(k))]] if k > 1 else [None, [[0]], ['all']])
            rows, nw, tex = rng.choice([5, 6, 7]), rng.choice([7, 9, 11]), rng.random() < .5
            pc, ps, pd = rng.choice(ROT)
            D = dict(vary=[bool(v) for v in vary], links=links, rows=rows, nw=nw, tex=tex, turn=(pc, ps, pd), neg=rng.random() < .4,
                     re=rng.choice([.4, .6, .8]), rm=rng.choice([.4, .6, .9]), n=rng.choice([.5, 1., 2.25]), psf=rng.choice([.5, .7, .75]), pix=rng.choice([.18, .2]),
                     flat=rng.random() < .8, kind=rng.choice(['Gaussian', 'Moffat']), nburn=rng.choice([0, 3]), nsteps=rng.choice([4, 6]), walkers=rng.choice([10, 12]),
                     low=rng.choice([None, [], sorted(rng.sample(range(rows), rng.randrange(1, rows)))]),
                     sky=rng.choice([None, [], [], sorted(rng.sample(range(nw), rng.randrange(1, nw)))]),
                     nosky=sorted(rng.sample(range(nw), rng.choice([nw, rng.randrange(1, nw), rng.randrange(1, nw)]))), m0=rng.choice([0., .25, -.5]),
                     flux=[[rng.randrange(-1000, 9000) / 1000. for _ in range(nw)] for _ in range(rows)], dir=os.path.join(self.d, 'f%d' % n))
            os.makedirs(D['dir'], exist_ok=True)
            dark = [x for x in range(nw) if x not in D['nosky']]
            if dark:
                D['flux'][rng.randrange(rows)][rng.choice(dark)] = -3.
                D['flux'][rng.randrange(rows)][rng.choice(dark)] = rng.choice([1., 12.])
        else:
            D = self.defs[like]
        nice = TEX if D['tex'] else NAMES

        def go():
            g = scene.gal(mf, rows=D['rows'], nw=D['nw'], re=D['re'], n=D['n'], pa=angle(D['turn'][:2]))
            g.re_mass_arcsec = D['rm']
            if like is None and self.rng.random() < .3:
                g.maskname = 'a_b'
            g.spec2D.m0 += D['m0']
            g.pstamp = None
            scene.data(g, D['flux'], np.ones((D['rows'], D['nw'])) * 2.)
            s = g.spec2D
            s.low_snr_row_inds = None if D['low'] is None else np.array(D['low'], dtype=int)
            s.wh_sky_fit = None if D['sky'] is None else list(D['sky'])
            s.wh_nosky = np.array(D['nosky'], dtype=int)
            b = [[-300. if D['neg'] else 0., 300.], [.02, 1.], [10., 100.], [-1., 1.], [1.4995, 1.5005]]
            st = mf.Theta2DSettingsFiducial(theta=np.array([100., .3, 50., .125, 1.5]), theta_vary=np.array(D['vary']), theta_bounds=b, usetex=D['tex'],
                                            theta_linked_posteriors=D['links'], theta_names_nice=list(nice))
            opt = mf.MCMC2DOptions(nWalkers=D['walkers'], nBurn=D['nburn'], nSteps=D['nsteps'], NoThread=True, nCPUs=1, overwrite=True)
            for k in ('sampler', 'bestfit_model', 'plot_trace', 'plot_trace_burnin', 'plot_bestfit', 'plot_param_corner'):
                setattr(opt, 'filename_' + k, os.path.join(D['dir'], k + ('.png' if 'plot' in k else '.pickle')))
            opt.filename_sampler_h5 = None
            kw = dict(kinProfile=mf.model.kin_classes.KinProfile(velProfile=Flat(), dispProfile=mf.model.kin_classes.DispConstProfile(), name='own')) if D['flat'] else {}
            f = mf.FitEmissionLines2D(galaxy=g, instrument=scene.inst(mf, n=D['rows'], psf=D['psf'], pix=D['pix'], kind=D['kind']), thetaSettings=st, mcmcOptions=opt,
                                      linegroup_name='Halpha', skip_fit_prep_calcs=True, usetex=D['tex'], **kw)
            f.kinModelOptions.nSubpixels = 1
            return f
        with core.quiet():
            f, ex = attempt(go)
        self.fits.append(f)
        self.defs.append(D)
        k = sum(D['vary'])
        links = [list(range(1, k + 1)) if l == 'all' else [i + 1 for i in l] for l in D['links'] or []]
        free = [i for i, v in enumerate(D['vary']) if v]
        pc, ps, pd = D['turn']
        c.ev('new', id=n + 1, raised=ex, fit=dict(
            vary=D['vary'], nice=nice, tex=D['tex'], links=links, walkers=D['walkers'], rows=D['rows'], nw=D['nw'], low=D['low'] or [], sky=D['sky'] or [], nosky=D['nosky'],
            flux=[fix(v, 1000) for r in D['flux'] for v in r], re=fix(D['re'], 10000), fwhm=fix(D['psf'], 10000), pix=fix(D['pix'], 10000), pc=pc, pd=pd,
            m0=fix((D['rows'] - 1) / 2. + D['m0'], 1000), n100=fix(D['n'], 100), re100=fix(D['re'], 100), rm=fix(D['rm'], 10000), r22=fix(D['rm'] * 2.2 / 1.676, 10000),
            flat=bool(D['flat'] and free[0] == 0)))
        return n

    def files(self, o, kinds):
        return [k for k in kinds if os.path.exists(os.path.join(self.defs[o]['dir'], k))]

    def results(self, o):
        f, D = self.fits[o], self.defs[o]
        free = [i for i, v in enumerate(D['vary']) if v]
        sc = [SC[i] for i in free] + [1000] * 4

        def go():
            r = f.mcmc_results
            cols = np.asarray(f.sampler_dict['flatchain'])
            g = scene.gal(self.mf, rows=D['rows'], nw=D['nw'], re=D['re'], n=D['n'], pa=angle(D['turn'][:2]))
            g.re_mass_arcsec = D['rm']
            g.spec2D.m0 += D['m0']
            scene.data(g, D['flux'], np.ones((D['rows'], D['nw'])) * 2., sky=D['nosky'])
            th = np.array([100., .3, 50., .125, 1.5])
            th[free] = r.bestfit_theta[:len(free)]
            kp = self.mf.model.kin_classes.KinProfile(velProfile=Flat(), dispProfile=self.mf.model.kin_classes.DispConstProfile(), name='own') if D['flat'] else None
            o_ = self.mf.KinModel2DOptions()
            o_.nSubpixels = 1
            km = scene.kin(self.mf, g, th, D['vary'], opts=o_, no_scale=False, kp=kp)
            km.make_model(galaxy=g, instrument=scene.inst(self.mf, n=D['rows'], psf=D['psf'], pix=D['pix'], kind=D['kind']), theta_fitting=th[free])
            return dict(cols=[[fix(v, s) for v in cols[:, i]] for i, s in enumerate(sc)], best=[fix(v, s) for v, s in zip(r.bestfit_theta, sc)], sc=sc,
                        chain=self.chain(f, free),
                        theta=[fix(v, s) for v, s in zip(th, SC)], model=[fix(v, 1000) for v in np.asarray(km.model).ravel()], shift=fix(th[3], 1000), none=False)
        with core.quiet():
            r, ex = attempt(go)
        self.c.ev('results', id=o + 1, raised=ex, res=r if not ex else dict(none=True))

    def chain(self, f, free):
        return [[[fix(v, SC[k]) for v in w[:, i]] for i, k in enumerate(free)] for w in f.sampler_dict['chain']]

    def state(self, f):
        km = f.kinModel
        return sha([f.mcmc_results, f.sampler_dict and (f.sampler_dict['chain'], f.sampler_dict['flatchain']), f.galaxy, f.instrument, f.thetaSettings, f.theta_linked_posteriors,
                    km and (km.theta, km.model, km.bestfit and (km.bestfit.theta, km.bestfit.model), km.kinProfile), f.kinProfile])

    ALL = ['sampler.pickle', 'bestfit_model.pickle', 'plot_trace.png', 'plot_trace_burnin.png', 'plot_bestfit.png', 'plot_param_corner.png']

    def clean(self, o, kinds):
        for k in kinds:
            p = os.path.join(self.defs[o]['dir'], k)
            if os.path.exists(p):
                os.remove(p)

    def op(self, op, o, fn, kinds, gone=True, results=False):
        f, D = self.fits[o], self.defs[o]
        if not D['nburn']:
            kinds = [k for k in kinds if 'burnin' not in k]
        if gone:
            self.clean(o, kinds)
        before = self.state(f) if op == 'plot' else 0
        with core.quiet(), Book() as b:
            np.random.seed(self.rng.randrange(10**6))
            b.real = self.c.stats_real < (8 if self.c.thorough else 2) and op in ('plot', 'fit')
            self.c.stats_real += b.real
            _, ex = attempt(fn)
            if ex and os.environ.get('DBG'):
                import traceback, sys
                try: fn()
                except Exception: traceback.print_exc(file=sys.stderr)
            pages = {k: b.take(os.path.join(D['dir'], k)) for k in kinds if k.endswith('png')}
            left = len(b.pages)
        after = self.state(f) if op == 'plot' else 0
        stored = True
        if 'bestfit_model.pickle' in kinds and not ex:
            def read():
                with open(os.path.join(D['dir'], 'bestfit_model.pickle'), 'rb') as h:
                    return pickle.load(h)
            with core.quiet():
                r, bad = attempt(read)
            stored = not bad and sha(r.mcmc_results) == sha(f.mcmc_results)
        self.c.ev('op', op=op, id=o + 1, raised=ex, stored=stored, files=self.files(o, kinds), want=kinds, same=before == after, figs=sum(p is not None for p in pages.values()) + left, nfigs=len(pages))
        if op == 'run' and not ex:
            free = [i for i, v in enumerate(D['vary']) if v]
            self.c.ev('results', id=o + 1, raised='', res=dict(none=True, chain=self.chain(f, free)))
        if results and not ex:
            self.results(o)
        if not ex:
            for k, p in pages.items():
                if p is not None:
                    dict(plot_trace=self.trace, plot_trace_burnin=self.trace, plot_bestfit=self.spectra, plot_param_corner=self.corner)[k[:-4]](o, p, k)

    def trace(self, o, p, k):
        D = self.defs[o]
        free = [i for i, v in enumerate(D['vary']) if v]
        axes = [dict(label=a['ylabel'], lines=[[fix(v, SC[free[i]] if i < len(free) else 1) for v in y] for x, y in a['lines']]) for i, a in enumerate(p[2])]
        self.c.ev('trace', id=o + 1, main='burnin' not in k, steps=D['nburn'] if 'burnin' in k else D['nsteps'], axes=axes)

    def corner(self, o, p, k):
        D = self.defs[o]
        sc = [SC[i] for i, v in enumerate(D['vary']) if v] + [1000] * 2
        K = len(sc)
        axes = []
        for n, a in enumerate(p[2]):
            i, j = min(n // K, K - 1), n % K
            name, q = quote(a['title'])
            cur = [(c, [[fix(u, sc[j]), fix(w, sc[i])] for u, w in zip(*l)]) for c, l in zip(a['order'], a['lines']) if len(l[0]) > 10]
            cur = [x for _, x in sorted(cur, key=lambda t: t[0] in ('magenta', 'm'))]
            axes.append(dict(v=sorted(fix(x, sc[j]) for x in a['v']), y=sorted(fix(x, sc[i]) for x in a['y']), curves=cur,
                             hist=hist(a['boxes'], sc[j]) if i == j else dict(edges=[], n=[]), name=name, quote=q, xlabel=a['xlabel'], ylabel=a['ylabel']))
        t = p[3]
        shape = (near(r'\$?n=' + NUM, t)[0] + near(r'R_?E\$?=' + NUM, t)[0])
        s, _ = near(r'sigma=' + NUM + r'\^\{' + NUM + r'\}_\{' + NUM, t)
        sigma = [s[0], s[2], s[1]] if s else near(r'sigma=' + NUM + '-' + NUM + r'\+' + NUM, t)[0]
        vs, two = [[], []], ['', '']
        for x in t:
            m = re.search(r'V\(R_E\)=' + NUM + r'\^\{' + NUM + r'\}_\{' + NUM, x)
            q = cents([m.group(1), m.group(3), m.group(2)]) if m else None
            if not m:
                m = re.search(r'V\(RE\)=' + NUM + '-' + NUM + r'\+' + NUM, x)
                q = cents(m.groups()) if m else None
            if m:
                i = int('sigma' in x)
                vs[i], two[i] = q, x
        say = [('rot' if 'rot' in x else '') + ('disp' if 'disp' in x else '') for x in two]
        m = re.search(NUM + r'\$?\$? ?\\?% ?(?:\\, ?)?(?:\\mathrm\{)?opp', two[1])
        self.c.ev('corner', id=o + 1, axes=axes, shape=shape, sigma=sigma, v1=vs[0], v2=vs[1], d1=say[0], d2=say[1], opp=int(round(float(m.group(1)) * 1000)) if m else -10**6)

    def spectra(self, o, p, k):
        imgs = []
        for a in p[2]:
            for arr, lim, org in a['images'][:1]:
                imgs.append(dict(shape=list(arr.shape), data=[fix(v, 1000) for v in arr.ravel()], lim=[fix(v, 1000) for v in lim], origin=org, hl=sorted({fix(v, 1000) for v in a['y']}),
                                 vl=sorted({fix(v, 1000) for v in a['v']}), boxes=[[fix(v, 2) for v in (b[:, 0].min(), b[:, 0].max(), b[:, 1].min(), b[:, 1].max())] for b in a['boxes']],
                                 title=a['title']))
        self.c.ev('spectra', id=o + 1, imgs=imgs)

    def made_up(self, o):
        """A posterior whose velocity is 0 by 0.3 to 3 of its widths."""
        f, D, rng = self.fits[o], self.defs[o], self.rng
        free = [i for i, v in enumerate(D['vary']) if v]
        r = np.random.RandomState(rng.randrange(10**6))
        w = rng.uniform(20., 60.)
        ratio = [1.5, -1.5, .7, -.7, 2.3, -2.3, 1.3, -1.3, 1.7, -1.7][self.c.turn % 10] if self.c.turn % 3 else rng.choice([-1, 1]) * rng.choice([.3, .8, .95, 1.05, 1.95, 2.05, 2.4, 3.])
        self.c.turn += 1
        mid = [ratio * w, .4, 55., 0., 1.5]
        wid = [w, .08, 12., .2, .0001]
        ch = np.stack([mid[i] + wid[i] * r.standard_normal((D['walkers'], D['nsteps'])) for i in free], axis=-1)
        if 1 in free:
            ch[:, :, free.index(1)] = np.clip(ch[:, :, free.index(1)], .02, 1.)
        f.sampler_dict = dict(chain=ch, flatchain=ch.reshape(-1, len(free)), nWalkers=D['walkers'], nParam=len(free), nIter=D['nsteps'])

    def play(self, invent=False):
        rng = self.rng
        o = self.new(small=invent)
        f = self.fits[o]
        if f is None:
            return
        figs = self.ALL[4:]
        if invent:
            self.op('setup', o, f.setup_model, [])
            self.made_up(o)
            self.op('analyse', o, f.analyze_results, [], results=True)
            self.op('plot', o, f.plot_results, figs)
            return
        way = rng.choice(['fit', 'fit', 'steps', 'data'])
        if way == 'data':
            self.op('plot', o, f.plot_bestfit_model, figs[:1])
        if way == 'fit':
            self.op('fit', o, f.fit, self.ALL, results=True)
        else:
            self.op('setup', o, f.setup_model, [])
            self.op('run', o, f.run_mcmc, [self.ALL[0]] + self.ALL[2:4])
            self.op('analyse', o, f.analyze_results, [], results=True)
            self.op('save', o, f.save_bestfit_model, [self.ALL[1]])
        for _ in range(rng.choice([0, 1])):
            w = rng.randrange(4)
            if w == 0:
                self.op('plot', o, f.plot_results, figs)
            elif w == 1:
                self.op('plot', o, f.plot_bestfit_model, figs[:1])
            elif w == 2:
                self.op('plot', o, f.plot_param_corner, figs[1:])
            else:
                self.op('again', o, lambda: f.reload_results(doPlot=True, resave_bestfit=True), [self.ALL[1]] + figs, results=True)
        if rng.random() < .5:
            # the results read by another fit of the same data
            n = self.new(like=o)
            q = self.fits[n]
            if q is None:
                return

            def restore():
                if rng.random() < .5:
                    q.setup_model()
                q.reload_bestfit_model()
                q.reload_results(doPlot=True)
            self.op('restore', n, restore, figs, results=True)


def main(c):
    mf = core.import_misfit()
    profile(mf)
    c.stats_real, c.turn = 0, 0
    logging.disable(logging.WARNING)
    c.model('MCPlot')
    for _ in range(60 if c.thorough else 8):
        c.history()
        d = tempfile.mkdtemp()
        try:
            k = Desk(c, mf, d)
            k.play()
            for _ in range(3):
                k.play(invent=True)
        finally:
            shutil.rmtree(d)
    c.assumptions.append('without an image of the galaxy; figures are read from their artists when they are saved, a few are rendered')
    c.conform('PlotTrace', shards=4)
