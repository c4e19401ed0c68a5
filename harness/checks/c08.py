"""C08 continuum subtraction."""
import numpy as np

import core
from core import attempt, num


def ints(x):
    return [[num(v) for v in r] for r in np.asarray(x)]


def milli(x):
    return [[core.fix(v, 1000) for v in r] for r in np.asarray(x)]


def case(c, mf, rng, kind):
    n = rng.randrange(2, 7)
    zn, zd = rng.choice([(2, 1), (5, 2), (1, 1), (12, 5)])
    z = zn / zd - 1.
    base = rng.choice([6564600, 5008240])
    dl = rng.choice([2, 3, 5])
    lc = base * zn // zd
    hl = rng.randrange(1, 4)           # channels of the line window on each side
    nl, nr = rng.randrange(3, 9), rng.randrange(3, 9)
    # long images: linear data and no subtraction
    if kind != 'cont':
        nl, nr = rng.randrange(3, 40), rng.randrange(3, 40)
    r = rng.random()
    if r < .08:
        nl = 0
    elif r < .16:
        nr = 0
    ex0, ex1 = rng.randrange(0, 3), rng.randrange(0, 3)    # beyond the full range
    nw = ex0 + nl + 2 * hl + 1 + nr + ex1
    if nw % 2 == 0:
        ex1 += 1
        nw += 1
    ic = ex0 + nl + hl
    wave = [lc + 1000 * dl * (i - ic) + 137 for i in range(nw)]
    half = lambda k: (lc + 137 + 1000 * dl * (k - ic) + 500 * dl) * zd // zn       # rest wavelength between channels k and k+1
    lmask = [half(ic - hl - 1), half(ic + hl)]
    full = [half(ex0 - 1), half(ex0 + nl + 2 * hl + nr)]
    x0 = ic + 1
    x = np.arange(nw) - ic
    a = rng.choice([0, 1, -1, 2]) if kind == 'cont' else rng.randrange(-9, 10)
    bs = [rng.randrange(-6, 7) if kind == 'cont' else rng.randrange(-300, 300) for _ in range(n)]
    b1 = rng.randrange(-5, 6)
    flux1 = a * x + b1
    flux = np.array(bs)[:, None] + a * x[None, :] + np.zeros((n, nw), dtype=int)
    if kind == 'cont':
        flux1 = np.clip(a * x // 2 + b1 + np.array([rng.randrange(-4, 5) for _ in range(nw)]), -20, 20)
        flux = np.array(bs)[:, None] + np.array([[rng.randrange(-6, 7) for _ in range(nw)] for _ in range(n)])
    flux, flux1 = flux.astype(float), flux1.astype(float)
    err = np.array([[rng.choice([1., 2.]) for _ in range(nw)] for _ in range(n)])
    err1 = np.array([rng.choice([1., 2.]) for _ in range(nw)])
    mask, mask1 = np.ones((n, nw)), np.ones(nw)
    wt = np.ones((n, nw))
    inl = slice(ic - hl, ic + hl + 1)
    flux[:, inl] += np.array([[rng.randrange(-2000, 20000) for _ in range(2 * hl + 1)] for _ in range(n)])
    flux1[inl] += rng.randrange(0, 9000)
    p = rng.choice([0, .05, .15])
    for k in range(nw):
        if rng.random() < p:                     # bad or masked 1D sample
            t = rng.randrange(5)
            if t == 0:
                flux1[k] = np.nan
            elif t == 1:
                err1[k] = 0.
                flux1[k] += 5000
            elif t == 2:
                mask1[k] = 0.
                flux1[k] -= 7000
            elif t == 3:
                err1[k] = np.inf
            else:                                # sky line in the 1D spectrum
                err1[k] = 90.
                flux1[k] += 3000 if kind == 'linear' else 0
        for i in range(n):
            if rng.random() < p / 2:
                t = rng.randrange(4)
                if t == 0:
                    flux[i, k] = np.nan
                elif t == 1:
                    mask[i, k] = 0.
                    flux[i, k] += 4321
                elif t == 2:
                    wt[i, k] = 0.
                    flux[i, k] -= 999
                else:
                    err[i, k] = np.nan
    if rng.random() < .12:      # one side without usable 1D data
        sl = slice(0, ic - hl) if rng.random() < .5 else slice(ic + hl + 1, nw)
        mask1[sl] = 0. if rng.random() < .5 else 1.
        if mask1[sl].any():
            err1[sl] = 0.
    wv = np.array(wave) / 1000.
    s = mf.ObsSpectrum2D(wave=wv.copy(), flux=flux.copy(), flux_err=err.copy(), spec_mask=mask.copy(), spec_weight=wt.copy(), band='K', linegroup_name='Halpha')
    g = mf.Galaxy(z=z, delt_PA=1., generate_model=True)
    o = mf.ObsSpectrum1D(wave=wv.copy(), flux=flux1.copy(), flux_err=err1.copy())
    o.spec_mask = mask1.copy()
    g.set_spectrum_1D(o)
    g.set_spectrum_2D(s)
    s.initialize_lineset()
    cn, cd = rng.choice([(2, 1), (3, 1), (5, 2)])
    s.band_cutoff = cn / cd
    s.wave_full_range_rest = np.array(full) / 1000.
    s.mask_lines_wave_range_rest = np.array(lmask) / 1000.
    s.wave_line_range_rest = np.array([base - 1000, base + 1000]) / 1000.
    b4 = [o.wave.copy(), o.flux.copy(), o.flux_err.copy(), o.spec_mask.copy()]
    off = kind == 'none'
    with core.quiet():
        if kind == 'none':
            _, ex = attempt(s.subtract_continuum, g, no_cont_subtraction=True)
        else:
            _, ex = attempt(s.subtract_continuum, g)
    q = dict(wave=wave, zn=zn, zd=zd, full=full, lmask=lmask, flux=ints(flux), err=ints(err), mask=ints(mask), weight=ints(wt),
             flux1=ints([flux1])[0], err1=ints([err1])[0], mask1=ints([mask1])[0], x0=x0, cn=cn, cd=cd, a=a, b=bs)
    q['nleft'], q['nright'] = nl, nr
    d = dict(q=q, raised=ex, tol=3 if kind != 'linear' else 300)
    if not ex:
        d.update(wave=[int(round(v * 1000)) for v in s.wave], flux=milli(s.flux), cont=milli(s.cont_model), incl=ints(s.flux_incl_cont), mask=ints(s.spec_mask),
                 onedwave=[int(round(v * 1000)) for v in o.wave],
                 onedsame=bool(all(np.array_equal(u, v, equal_nan=True) for u, v in zip(b4, [o.wave, o.flux, o.flux_err, o.spec_mask]))))
    c.history()
    c.ev(kind, **d)


def main(c):
    mf = core.import_misfit()
    rng = c.rng
    c.model('MCContinuum')
    for kind, k in (('cont', 160), ('linear', 110), ('none', 40)):
        for _ in range(k * (6 if c.thorough else 1)):
            case(c, mf, rng, kind)
    c.conform('ContinuumTrace')
