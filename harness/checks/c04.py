"""C04 low signal-to-noise rows."""
import numpy as np

import core
from core import attempt, num


def ints(x):
    return [[num(v) for v in r] for r in np.asarray(x)]


def image(mf, flux, err, mask, calc, cut, preset=True):
    flux = np.array(flux, dtype=float)
    s = mf.ObsSpectrum2D(wave=np.arange(flux.shape[1]) + 13000., flux=flux, flux_err=np.array(err, dtype=float),
                         band='K', linegroup_name='Halpha')
    s.spec_mask = np.array(mask, dtype=float)
    s.mask_qual = np.array(mask, dtype=float) if preset else None
    s.mask_sky = np.array(calc, dtype=float)
    if cut is not None:
        s.row_snr_cut = cut[0] / cut[1]
    return s


def one(c, mf, rng, flux, err, mask, calc, cut):
    c.history()
    s = image(mf, flux, err, mask, calc, cut, rng.random() < .7)
    with core.quiet():
        _, ex = attempt(s.get_low_snr_mask)
    d = dict(flux=flux, err=err, mask=mask, calc=calc, n=(cut or [2, 1])[0], d=(cut or [2, 1])[1], raised=ex)
    if not ex:
        d.update(dropped=[int(v) + 1 for v in s.low_snr_row_inds], out=ints(s.mask_low_snr), qual=ints(s.mask_qual))
    c.ev('rows', **d)


def main(c):
    mf = core.import_misfit()
    rng = c.rng
    c.model('MCLowSnr')
    r = c.model('MCLowSnr', 'MCLowSnrEmit.cfg', workers=1)
    cases = c.emitted(r)
    rng.shuffle(cases)
    # every pattern of at most ten rows, realised with assorted values
    for cs in (cases if c.thorough else cases[:1300]):
        n = cs['nr']
        nw = rng.choice([1, 2, 4])
        flux, err = [], []
        for i in range(n):
            e = rng.choice([1, 2, 3])
            hi = (i + 1) in cs['H']
            # S/N = |sum|/(e sqrt(nw)); boundary 2 reached exactly for nw in {1, 4}
            root = {1: 1, 4: 2}.get(nw)
            if root and rng.random() < .5:
                tot = 2 * e * root if hi else 2 * e * root - 1
            else:
                tot = 2 * e * 2 + rng.randrange(0, 30) if hi else rng.randrange(0, 2 * e)
            tot *= rng.choice([1, 1, -1])
            row = [0] * nw
            for _ in range(1):
                row[rng.randrange(nw)] = tot
            flux.append(row)
            err.append([e] * nw)
        mask = [[1] * nw for _ in range(n)]
        one(c, mf, rng, flux, err, mask, mask, rng.choice([None, [2, 1]]))
    # arbitrary values, masks, cuts
    for _ in range(2500 if c.thorough else 400):
        n, nw = rng.randrange(1, 22), rng.randrange(1, 9)
        flux = [[rng.randrange(-4, 12) for _ in range(nw)] for _ in range(n)]
        err = [[rng.choice([0, 1, 1, 2, 3]) for _ in range(nw)] for _ in range(n)]
        p = rng.choice([1, .9, .5])
        mask = [[int(rng.random() < p) for _ in range(nw)] for _ in range(n)]
        q = rng.choice([1, .8])
        calc = [[m * int(rng.random() < q) for m in row] for row in mask]
        one(c, mf, rng, flux, err, mask, calc, rng.choice([None, [2, 1], [3, 1], [1, 2], [5, 2], [1, 1]]))
    # within the complete preparation
    for it in range(60 if c.thorough else 16):
        c.history()
        nr, nw, z1 = rng.choice([17, 21, 24]), 61, 2
        wave = np.array([6564 * z1 - 60 + 2 * i for i in range(nw)], dtype=float)
        yc = nr // 2
        amp = rng.choice([6, 12, 30])
        prof = amp * np.exp(-.5 * ((np.arange(nr) - yc) / 2.2) ** 2)
        nrng = np.random.RandomState(rng.randrange(10 ** 6))
        err = np.full((nr, nw), 10.)
        flux = np.round(prof[:, None] * 6 + nrng.randn(nr, nw) * 10.)
        mask = (nrng.rand(nr, nw) < .95).astype(float)
        gal = mf.Galaxy(z=1., delt_PA=5., generate_model=True, dither=False)
        s = mf.ObsSpectrum2D(wave=wave, flux=flux, flux_err=err, band='K', linegroup_name='Halpha', no_continuum_subtraction=True)
        s.spec_mask = mask.copy()
        s.ypos = float(yc)
        s.weighting_type = 'none'
        cut = [2, 1]
        if rng.random() < .3:
            cut = [3, 1]
            s.row_snr_cut = 3.
        gal.set_spectrum_2D(s)
        inst = mf.Spectrograph(pixscale=.18, PSF_FWHM=.6, PSF_type='gaussian', slit_width=.7, slit_length=nr * .18,
                               instrument_resolution=40.)
        with core.quiet():
            _, ex = attempt(s.fit_prep_calcs, gal, inst)
        if ex:
            c.ev('prep', raised=ex)
            continue
        a = int(np.where(wave == s.wave[0])[0][0])
        sl = slice(a, a + len(s.wave))
        c.ev('prep', raised='', flux=ints(flux[:, sl]), err=ints(err[:, sl]), calc=ints(mask[:, sl]), qual=ints(mask[:, sl]), n=cut[0], d=cut[1],
             first=s.full_l_ind + 1, omask=ints(s.spec_mask), lowmask=ints(s.mask_low_snr), dropped=[int(v) + 1 for v in s.low_snr_row_inds])
    c.assumptions.append('sample values are small integers, so that the S/N comparison is exact')
    c.conform('LowSnrTrace')
