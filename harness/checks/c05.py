"""C05 fit weights."""
import numpy as np

import core
from core import attempt


def case(c, mf, rng, typ, s, q, dropped, g=None, nw=None, via='method'):
    """s, q: integer row signal and quadrature error on the sky-free samples."""
    c.history()
    n = len(s)
    nsky = rng.randrange(0, 3)
    nw = nw or rng.choice([1, 4, 9])
    root = int(round(nw ** .5))
    flux = np.zeros((n, nw))
    err = np.zeros((n, nw))
    for i in range(n):
        flux[i, rng.randrange(nw)] = s[i] * root
        err[i, :] = q[i]                       # quadrature sum = q * root
    sky = np.ones((n, nw + nsky))
    sky[:, nw:] = 0.
    flux = np.hstack([flux, rng.choice([5., 1000.]) * np.ones((n, nsky))])
    err = np.hstack([err, 77. * np.ones((n, nsky))])
    sp = mf.ObsSpectrum2D(wave=np.arange(nw + nsky) + 13000., flux=flux, flux_err=err, band='K', linegroup_name='Halpha')
    sp.spec_mask = np.ones(flux.shape)
    sp.spec_weight = np.ones(flux.shape)
    sp.mask_sky = sky
    sp.low_snr_row_inds = np.array(sorted(dropped), dtype=int)
    if typ == 'optimal':
        inc = np.zeros(flux.shape)
        inc[:, :nw] = np.array(g, dtype=float)[:, None] / nw * rng.choice([1, -1, 1])
        inc[:, nw:] = 500.
        sp.flux_incl_cont = inc
        sp.flux_err = np.ones(flux.shape)
    else:
        sp.flux_incl_cont = flux + 123.
    if typ != 'up-edges' or rng.random() < .5:
        sp.weighting_type = typ                # up-edges is the default
    before = [sp.flux.copy(), sp.flux_err.copy(), sp.mask_sky.copy(), sp.low_snr_row_inds.copy(), sp.flux_incl_cont.copy(), sp.spec_mask.copy()]
    with core.quiet():
        _, ex = attempt(sp.calculate_fit_weights)
    u = 10000
    d = dict(type=typ, s=[int(x) for x in s], q=[int(x) for x in q], dropped=[i + 1 for i in sorted(dropped)], g=list(g or []), u=u, raised=ex)
    if not ex:
        w = np.asarray(sp.fitting_weight_profile, dtype=float)
        m = np.asarray(sp.fitting_weight_matrix, dtype=float)
        fin = bool(w.shape == (n,) and np.isfinite(w).all() and np.isfinite(m).all())
        d['defined'] = fin
        d['w'] = [int(round(x * u)) if fin else -1 for x in (w if fin else s)]
        d['matrix'] = bool(m.shape == flux.shape and np.array_equal(m, np.tile(w[:, None], (1, flux.shape[1]))))
        after = [sp.flux, sp.flux_err, sp.mask_sky, sp.low_snr_row_inds, sp.flux_incl_cont, sp.spec_mask]
        d['untouched'] = all(np.array_equal(a, b) for a, b in zip(before, after))
    c.ev('weights', **d)


def main(c):
    mf = core.import_misfit()
    rng = c.rng
    c.model('MCWeights')
    for _ in range(1500 if c.thorough else 300):
        n = rng.randrange(1, 18)
        s = [rng.choice([1, 2, 3, 5, 8, 20, 60]) * rng.choice([1, 1, -1]) for _ in range(n)]
        q = [rng.choice([1, 2, 5, 9]) for _ in range(n)]
        p = rng.choice([0, .2, .5, 1])
        dropped = [i for i in range(n) if rng.random() < p]
        # a dropped row may have no signal or no error at all
        for i in dropped:
            if rng.random() < .2:
                s[i] = 0
                if rng.random() < .5:
                    q[i] = 0
        typ = rng.choice(['up-edges', 'up-edges', 'none'])
        if typ == 'none' and rng.random() < .5:
            dropped = []
        case(c, mf, rng, typ, s, q, dropped)
    for _ in range(300 if c.thorough else 60):
        n = rng.randrange(9, 26)
        mu = n / 2. + rng.uniform(-n / 5., n / 5.)
        sg = rng.uniform(1.3, n / 4.)
        g = [int(round(4000 * np.exp(-.5 * ((i - mu) / sg) ** 2))) for i in range(n)]
        p = rng.choice([0, .2, .4, 1])
        dropped = [i for i in range(n) if rng.random() < p]
        case(c, mf, rng, 'optimal', [1] * n, [1] * n, dropped, g=g)
    c.history()
    c.conform('WeightsTrace')
    c.assumptions.append('optimal weighting is compared with the profile the data were drawn from, to 0.2 per cent of the mean weight')
