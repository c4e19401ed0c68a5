"""C11 parameter vectors and model components."""
import numpy as np

import core
import scene
from core import attempt, num

U = 1024.


def q(v):
    return [num(x * U) for x in np.atleast_1d(v)]


def theta(rng, floor=.1):
    return [rng.choice([rng.randrange(-300, 300), rng.randrange(100 * 1024, 250 * 1024) / 1024.]) or 1.,
            rng.randrange(40, 700) / 1024.,
            rng.choice([0., 2., -30., -3.]) if rng.random() < .2 else float(rng.randrange(45, 120)) + rng.randrange(8) / 8.,
            rng.choice([0., 0., rng.randrange(-1500, 1500) / 1024.]),
            rng.choice([1.5, 1.5, 1.5 + rng.randrange(-4, 5) / 1024.])]


def flags(rng):
    r = rng.random()
    if r < .25:
        return [True] * 5
    if r < .45:
        return [True, True, True, False, False]
    return [rng.random() < .5 for _ in range(5)]


class World:
    def __init__(self, c, mf, rng):
        self.c, self.mf, self.rng = c, mf, rng
        from misfit.fit import fit_core
        self.fc = fit_core
        self.g = scene.gal(mf, rows=rng.choice([5, 7]), nw=5, dl=9.)
        self.i = scene.inst(mf)
        self.fit = rng.random() < .4
        if self.fit:
            sh = self.g.spec2D.shape
            x = np.arange(sh[1]) - sh[1] // 2
            scene.data(self.g, np.ones((sh[0], 1)) * np.exp(-x[None, :] ** 2 / 8.), np.ones(sh))
        self.kp = mf.KinProfileFiducial()
        self.ms = []
        self.sets = []
        self.opt = mf.KinModel2DOptions(nSubpixels=1, absvalsigma=rng.random() < .5)
        c.history()

    def obs(self):
        out = []
        for m in self.ms:
            a = m.aperModel
            free, ex = attempt(self.fc.initialize_fitting_theta, m.theta, m.theta_vary)
            out.append(dict(th=q(m.theta), vary=[bool(v) for v in m.theta_vary], nfree=int(m.n_free_param), free=q(free) if free is not None and len(free) else [],
                            made=a is not None, best=q(m.bestfit.theta) if m.bestfit is not None else [],
                            z=num(a.z * U) if a is not None else 0, shift=num(a.m0_shift * U) if a is not None else 0,
                            row=num((a.m0_fit - self.g.spec2D.m0) * U) if a is not None else 0))
        return out

    def prof(self, m):
        kp = m.kinProfile
        t = [float(v) for v in m.theta]
        d = dict(all=q(kp.theta), vel=q(kp.velProfile.theta), disp=q(kp.dispProfile.theta))
        r = np.array([t[1], 1e9])
        d['half'] = core.ppm(kp.vel(r, 0. * r), np.array([t[0] / 2., t[0]]))
        d['sig'] = core.ppm(kp.sigma(r, 0. * r), np.array([t[2], t[2]]))
        return d

    def ev(self, k, i, ex, keep, **kw):
        m = self.ms[i - 1] if i else None
        keep = keep and all(list(st.theta) == th and list(st.theta_vary) == v for st, th, v in self.sets)
        d = dict(id=i, raised=ex, inputkept=bool(keep), obs=self.obs(), **kw)
        if m is not None and not ex and k in ('new', 'make', 'eval', 'setup', 'best', 'refree', 'replace'):
            d['prof'] = self.prof(m)
        self.c.ev(k, **d)

    def new(self):
        rng, mf = self.rng, self.mf
        th, v = theta(rng), flags(rng)
        if self.sets and rng.random() < .4:
            st, th, v = rng.choice(self.sets)
        else:
            st = scene.settings(mf, th, v)
            st.theta_bounds = np.array([[-1000., 1000.]] * 5)
            self.sets.append((st, list(th), list(v)))
        kp = self.kp if rng.random() < .5 else mf.KinProfileFiducial()
        if self.fit and rng.random() < .6:
            f = mf.FitEmissionLines2D(galaxy=self.g, instrument=self.i, thetaSettings=st, kinModelOptions=self.opt, kinProfile=kp, linegroup_name='Halpha', skip_fit_prep_calcs=True, usetex=False)
            _, ex = attempt(f.setup_model)
            m, k = f.kinModel, 'setup'
            m.owner_fit = f
        else:
            m, ex = attempt(mf.KinModel2D, self.g, thetaSettings=st, kinProfile=kp, intensityProfile=mf.IntensityProfileFiducial(self.g), kinModelOptions=self.opt, no_scale=not self.fit)
            k = 'new'
        self.ms.append(m)
        self.ev(k, len(self.ms), ex, list(st.theta) == th and list(st.theta_vary) == v, th=q(th), vary=v, nv=2, nd=1)

    def step(self):
        rng = self.rng
        i = rng.randrange(len(self.ms)) + 1
        m = self.ms[i - 1]
        f = getattr(m, 'owner_fit', None)
        n = int(sum(bool(v) for v in m.theta_vary))
        full = theta(rng)
        tf = [full[j] for j in range(5) if m.theta_vary[j]]
        if rng.random() < .1 and n:       # one parameter only: the rest as they are
            tf = [float(v) for v, u in zip(m.theta, m.theta_vary) if u]
            j = rng.randrange(n)
            tf[j] = [full[a] for a in range(5) if m.theta_vary[a]][j]
        op = rng.choice(['update', 'make', 'make', 'eval', 'eval', 'refree', 'refree', 'replace', 'copy', 'best'])
        if op == 'eval' and m.aperModel is None:
            op = 'make'
        if op == 'best' and f is None:
            op = 'eval' if m.aperModel is not None else 'make'
        arg = rng.choice([list, tuple, np.array])(tf)
        keep = list(arg)
        if op == 'update':
            _, ex = attempt(m.update_parameters, arg)
            self.ev(op, i, ex, keep == list(arg), tf=q(tf) if tf else [])
        elif op in ('make', 'eval'):
            if rng.random() < .12:
                arg = list(tf) + [1.] if rng.random() < .5 or not tf else list(tf)[:-1]
                tf = keep = list(arg)
            if f is not None and rng.random() < .5:
                _, ex = attempt(f.make_model, theta_fitting=arg) if op == 'make' else attempt(f.update_model, theta_fitting=arg)
            elif op == 'make':
                _, ex = attempt(m.make_model, galaxy=self.g, instrument=self.i, theta_fitting=arg)
            else:
                _, ex = attempt(m.update_model, theta_fitting=arg)
            self.ev(op, i, ex, keep == list(arg), tf=q(tf) if tf else [])
        elif op == 'best':
            _, ex = attempt(f.set_bestfit, arg)
            self.ev(op, i, ex, keep == list(arg), tf=q(tf) if tf else [])
        elif op == 'refree':
            v = flags(rng)
            _, ex = attempt(m.setAttr, theta_vary=np.array(v))
            self.ev(op, i, ex, True, vary=v)
        elif op == 'replace':
            full = theta(rng)
            t = np.array(full)
            _, ex = attempt(m.setAttr, theta=t)
            self.ev(op, i, ex, list(t) == full, th=q(full))
        elif op == 'copy' and len(self.ms) < 4:
            m2, ex = attempt(m.copy)
            if f is not None:
                m2.owner_fit = m2.owner_fit
                m2.owner_fit.kinModel = m2
            self.ms.append(m2)
            self.ev(op, i, ex, True)


def split(c, mf, rng):
    """Profiles with any number of parameters."""
    from misfit.model import kin_classes as kc

    class V(kc.VelProfile):
        def __init__(self, n):
            kc.VelProfile.__init__(self)
            self.theta = np.zeros(n)

    class D(kc.DispProfile):
        def __init__(self, n):
            kc.DispProfile.__init__(self)
            self.theta = np.zeros(n)

    nv, nd = rng.randrange(1, 5), rng.randrange(1, 4)
    th = [rng.randrange(-4000, 4000) / 1024. for _ in range(nv + nd + rng.choice([0, 2, 2, 3, 4]))]
    kp = kc.KinProfile(velProfile=V(nv), dispProfile=D(nd))
    kp.update_theta(np.array(th))
    c.history()
    c.ev('split', th=q(th), nv=nv, nd=nd, all=q(kp.theta), vel=q(kp.velProfile.theta), disp=q(kp.dispProfile.theta))


def main(c):
    mf = core.import_misfit()
    rng = c.rng
    c.model('MCParams')
    for _ in range(40):
        split(c, mf, rng)
    st = mf.Theta2DSettingsFiducial()
    c.ev('names', names=list(st.theta_names), vary=[bool(v) for v in st.theta_vary], n=len(st.theta))
    with core.quiet():
        for _ in range(400 if c.thorough else 60):
            w = World(c, mf, rng)
            w.new()
            for _ in range(rng.randrange(3, 14)):
                if rng.random() < .15 and len(w.ms) < 4:
                    w.new()
                else:
                    w.step()
    c.conform('ParamsTrace')
