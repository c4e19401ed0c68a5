"""C22 one-dimensional line models."""
import numpy as np

import core
from core import attempt, fix

CKMS = 299792.458
REST = dict(Halpha=[6564600], Hbeta=[4862710], OIII=[5008240, 4960295], NII=[6549860, 6585270], SII=[6732673, 6718294], OII=[3727100, 3729860])


def params(lmfit, z, q, flux, cont):
    p = lmfit.Parameters()
    p.add('z', value=z / 64.)
    p.add('vel_disp', value=CKMS / q)
    for i, f in enumerate(flux):
        p.add('flux%d' % i, value=f * 1e-18)
    for i, x in enumerate(cont):
        p.add('cont_coeff%d' % i, value=x * 1e-4**i)
    return p


def grid(rng, rests, z, q, n):
    """Wavelengths near lines and away from them, in units of 0.001 Angstrom."""
    out = []
    for _ in range(n):
        at = rng.choice(rests) * (64 + z) // 64
        w = at + int(rng.choice([0., rng.gauss(0., 1.), rng.uniform(-4., 4.), rng.uniform(-40., 40.)]) * (at // q))
        out.append(w)
    return sorted(out) if rng.random() < .7 else out


def waves(w):
    return np.array(w) / 1000.


def fluxes(rng, n):
    return [rng.choice([100, 250, 400, 600, 600, 0, -200, rng.randrange(-500, 600)]) for _ in range(n)]


def scaled(a, s=1e21):
    return [fix(float(x), s) for x in np.asarray(a)]


def history(c, mod, lmfit, case):
    rng = c.rng
    c.history()
    order, names = case['order'], case['names']
    model = mod.EmissionLinesSpectrum1DModel(names_arr=list(names), cont_order=order)
    for _ in range(3 if c.thorough else 2):
        z, q = rng.choice([0, 1, 10, 65, 100, 149, rng.randrange(160)]), rng.choice([600, 900, 1500, 2500, rng.randrange(600, 2600)])
        q = min(q, min(r for n in names for r in REST[n]) * (64 + z) // 64 // 2000)
        fl, co = fluxes(rng, len(names)), [rng.randrange(-9, 10) for _ in range(order + 1)]
        p = params(lmfit, z, q, fl, co)
        w = grid(rng, [r for n in names for r in REST[n]], z, q, 14)
        if rng.random() < .6:
            v, ex = attempt(model.make1DProfile, p, waves(w))
            kept = [fix(model.z, 64), int(round(CKMS / model.vel_disp)), scaled(model.flux_arr, 1e18), [int(round(x * 1e18 / 1e-4**i)) for i, x in enumerate(model.cont_coeff)]] if not ex else []
            c.ev('profile', raised=ex, names=names, z=z, q=q, flux=fl, cont=co, wave=w, value=scaled(v) if not ex else [], kept=kept)
        else:
            n = len(w)
            truth = model.make1DProfile(p, waves(w))
            err = np.array([rng.choice([300, 1000, 4000, 10000, rng.randrange(200, 9000)]) for _ in range(n)])
            data = np.round(truth * 1e21) + np.array([rng.randrange(-40000, 40000) for _ in range(n)])
            mask = np.array([rng.choice([4, 4, 4, 0, 0, 2]) for _ in range(n)])
            d, e, bad = data * 1e-21, err * 1e-21, [False] * n
            for i in rng.sample(range(n), 3):
                bad[i] = True
                r = rng.random()
                if r < .4:
                    d[i] = rng.choice([np.nan, np.inf, -np.inf])
                elif r < .8:
                    e[i] = rng.choice([np.nan, 0.])
                else:
                    d[i], e[i] = np.nan, np.nan
            m = mask / 4.
            if rng.random() < .5:
                m = np.array(mask == 4, dtype=rng.choice([float, int, bool]))
                mask = 4 * (mask == 4)
            ins = [x.copy() for x in (d, e, m)]
            v, ex = attempt(model.residual1DProfile, p, waves(w), d, e, m)
            same = all(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in zip(ins, (d, e, m)))
            c.ev('residual', raised=ex, names=names, z=z, q=q, flux=fl, cont=co, wave=w, data=[int(x) for x in data], err=[int(x) for x in err],
                 mask=[int(x) for x in mask], bad=bad, value=[fix(float(x), 100) for x in v] if not ex else [], same=same)
    z, q = rng.randrange(160), rng.randrange(600, 1800)
    own = rng.random() < .5
    names = [rng.choice(sorted(REST))]
    rest = [rng.randrange(3500, 7000) * 1000 + 10 * rng.randrange(100) for _ in range(rng.choice([1, 2, 3]))] if own else REST[names[0]]
    ratio = [rng.choice([1000000, 250000, 333300, 700000]) for _ in rest]
    if own and rng.random() < .5:
        def go():
            calls = []

            def shape(x, mu, sig, f):
                calls.append([mu, sig, f])
                return np.ones(len(x))
            g = mod.EmissionLines1DModel(profile_function=shape, name=None, linenames_arr=['L%d' % i for i in range(len(rest))], restwave_arr=np.array(rest) / 1000., flux_ratio_arr=np.array(ratio) / 1e6)
            g.make1DProfile(waves([5000000, 6000000]), z / 64., CKMS / q, 400.)
            ok = all(abs(x[1] * q / CKMS - 1.) < 1e-9 for x in calls)
            return [[int(x[0] * 1000 + 1e-4), int(x[2] * 100 + 1e-4)] for x in calls], int(round(g.profile.sum() / 2)) if ok else -1
        v, ex = attempt(go)
        c.ev('shape', raised=ex, z=z, q=q, flux=[400], rest=rest, ratio=ratio, calls=v[0] if not ex else [], value=v[1] if not ex else 0)
        return
    fl = fluxes(rng, 1)
    w = grid(rng, rest, z, q, 10)

    def go():
        kw = dict(name=None, linenames_arr=['L%d' % i for i in range(len(rest))], restwave_arr=np.array(rest) / 1000., flux_ratio_arr=np.array(ratio) / 1e6) if own else dict(name=names[0])
        g = mod.EmissionLines1DModel(**kw)
        if rng.random() < .5:
            g.make1DProfile(waves(w) + 30., z / 64. + .01, 77., 3.)
        g.make1DProfile(waves(w), z / 64., CKMS / q, fl[0] * 1e-18)
        return scaled(g.profile)
    v, ex = attempt(go)
    c.ev('group', raised=ex, own=own, names=names, z=z, q=q, flux=fl, cont=[0], wave=w, rest=rest, ratio=ratio, value=v if not ex else [])


def main(c):
    core.import_misfit()
    import lmfit
    import misfit.model.emission_lines_model as mod
    r = c.model('MCLine1D')
    cases = c.emitted(r)
    singles = [x for x in cases if len(x['names']) == 1]
    rest = [x for x in cases if len(x['names']) > 1]
    c.rng.shuffle(rest)
    with core.quiet():
        for case in singles + rest[:len(rest) if c.thorough else 60]:
            history(c, mod, lmfit, case)
        c.history()
        for s in ('lorentzian', 'Gaussian', None):
            _, ex = attempt(mod.EmissionLinesSpectrum1DModel, names_arr=['Halpha'], cont_order=1, shape1D=s)
            c.ev('odd', raised=ex)
    c.assumptions.append('widths of at least 2 Angstrom, redshifts below 2.5')
    c.conform('Line1DTrace', shards=6)
