"""C03 sky-line channels."""
import os

import numpy as np

import core
from core import attempt, num

WHOLE = ('numpy arrays hold integers', 'channel quadrature errors of the preparation runs are integers')


def spec2d(mf, err, mask, cut, med, qual=True):
    err = np.array(err, dtype=float)
    nr, nw = err.shape
    s = mf.ObsSpectrum2D(wave=np.arange(nw) + 13000., flux=np.ones((nr, nw)), flux_err=err,
                         spec_mask=np.array(mask, dtype=float), band='K', linegroup_name='Halpha')
    s.spec_mask = np.array(mask, dtype=float)
    if qual:
        s.mask_qual = np.array(mask, dtype=float)
    s.spec_weight = np.ones((nr, nw))
    s.band_cutoff = cut[0] / cut[1]
    s.median_flux_error = med[0] / med[1]
    return s


def ints(x):
    return [[num(v) for v in r] for r in np.asarray(x)]


def idx(x):
    return [int(v) + 1 for v in x]


def main(c):
    mf = core.import_misfit()
    from misfit.general import galaxy_utils as gu
    from misfit.general import general_utils as utils
    rng = c.rng
    c.model('MCSkyLines', 'MCSkyLinesBig.cfg')
    r = c.model('MCSkyLines', workers=1)
    cases = c.emitted(r)
    rng.shuffle(cases)
    cases = cases if c.thorough else cases[:600]
    for _ in range(2000 if c.thorough else 250):
        nr, nw = rng.randrange(1, 7), rng.randrange(1, 21)
        pool = rng.choice([[0, 3, 4, 5, 12], [1, 2, 3, 7], [0, 1], [6, 8, 10, 24]])
        err = [[rng.choice(pool) for _ in range(nw)] for _ in range(nr)]
        mask = [[int(rng.random() < rng.choice([1, .8, .5])) for _ in range(nw)] for _ in range(nr)]
        cases.append(dict(err=err, mask=mask, cut=rng.choice([[2, 1], [3, 1], [5, 2], [1, 1], [1, 2]]),
                          med=rng.choice([[5, 1], [1, 1], [2, 1], [5, 2], [13, 1], [0, 1], [10, 1]])))
    for cs in cases:
        c.history()
        qual = rng.random() < .7
        s = spec2d(mf, cs['err'], cs['mask'], cs['cut'], cs['med'], qual)
        with core.quiet():
            _, ex = attempt(s.get_skyline_mask) if rng.random() < .5 else attempt(s.get_skyline_mask, full=True)
        d = dict(cs)
        if not ex:
            d.update(sky=idx(s.wh_sky), clear=idx(s.wh_nosky), out=ints(s.mask_sky), qual=ints(s.mask_qual))
        c.ev('sky', raised=ex, **d)
    for _ in range(800 if c.thorough else 200):
        c.history()
        n = rng.randrange(1, 25)
        err = [rng.choice([1, 2, 3, 4, 5, 6, 10]) for _ in range(n)]
        cut, med = rng.choice([[2, 1], [3, 1], [5, 2]]), rng.choice([[1, 1], [2, 1], [6, 5]])
        full = rng.random() < .4
        out, ex = attempt(gu.wh_skylines_1D, np.array(err, dtype=float), cutoff=cut[0] / cut[1], median_err=med[0] / med[1], full=full)
        d = dict(err=err, cut=cut, med=med, full=full, raised=ex)
        if not ex:
            if full:
                d.update(clear=idx(out[0]), sky=idx(out[1]))
            else:
                d.update(clearg=[idx(g) for g in out[0]], skyg=[idx(g) for g in out[1]])
        c.ev('runs', **d)
        inds = sorted(rng.sample(range(1, 30), rng.randrange(0, 20)))
        out, ex = attempt(utils.wh_continuous, np.array(inds, dtype=int))
        c.ev('groups', inds=inds, out=[[int(v) for v in g] for g in out] if not ex else [], raised=ex)
    # thresholds
    tab = os.path.join(core.TMP, 'cut.dat')
    open(tab, 'w').write('# band  sn_cutoff   units\nQ   2.5   timesMedianErr\nK   4.25  timesMedianErr\nH   1.5 timesMedianErr\n')
    cust = dict(Q=2500, K=4250, H=1500)
    for band in ('K', 'H', 'J', 'Y', 'Q', 'Z', 'k', ''):
        for preset in (0, 1750):
            for custom in (False, True):
                c.history()
                s = spec2d(mf, [[1]], [[1]], [1, 1], [1, 1])
                s.band, s.band_cutoff = band, None
                if preset:
                    s.band_cutoff = preset / 1000.
                if custom:
                    s.band_cutoff_param_filename = tab
                _, ex = attempt(s.initialize_skylevels)
                c.ev('lookup', band=band or 'none', preset=preset,
                     custom=(cust.get(band, -1) if custom else 0), raised=ex,
                     out=num(s.band_cutoff * 1000) if s.band_cutoff is not None and not ex else 0, units=str(s.band_cutoff_units))
    c.history()
    s = spec2d(mf, [[1, 2]], [[1, 1]], [1, 1], [1, 1])
    s.band_cutoff_units = 'sigma'
    _, ex = attempt(s.get_skyline_mask)
    c.ev('refuse', what='unsupported threshold units', raised=ex)
    s = spec2d(mf, [[1, 2]], [[1, 1]], [1, 1], [1, 1])
    s.median_flux_error = None
    _, ex = attempt(s.get_skyline_mask)
    c.ev('refuse', what='missing median', raised=ex)
    # complete preparation: level and mask computed by the workflow itself
    for it in range(60 if c.thorough else 16):
        c.history()
        nr, nw = 15, 201
        z1 = 2
        wave = np.array([6564 * z1 - 200 + 2 * i for i in range(nw)], dtype=float)
        # channel errors: per channel one level on all rows, chosen so that the
        # quadrature sum over the 15+1 rows is an integer multiple of the level
        nr = 16
        lev = [rng.choice([10, 10, 10, 10, 12, 25, 19, 20, 30, 29]) for _ in range(nw)]
        err = np.tile(np.array(lev, dtype=float), (nr, 1))
        yy = np.arange(nr)[:, None]
        flux = np.round(300 * np.exp(-.5 * ((yy - 8) / 2.) ** 2) * np.ones((1, nw)))
        band = rng.choice(['K', 'H', 'J'])
        cut = [2, 1] if band == 'K' else [3, 1]
        gal = mf.Galaxy(z=1., delt_PA=5., generate_model=True, dither=False)
        s = mf.ObsSpectrum2D(wave=wave, flux=flux, flux_err=err, band=band, linegroup_name='Halpha', no_continuum_subtraction=True)
        if rng.random() < .3:
            cut = [5, 2]
            s.band_cutoff = 2.5
        s.ypos = 8.
        s.weighting_type = 'none'
        gal.set_spectrum_2D(s)
        inst = mf.Spectrograph(pixscale=.18, PSF_FWHM=.6, PSF_type='gaussian', slit_width=.7, slit_length=nr * .18,
                               instrument_resolution=40.)
        with core.quiet():
            _, ex = attempt(s.fit_prep_calcs, gal, inst)
        if ex:
            c.ev('prep', raised=ex)
            continue
        cols = [int(np.where(wave == w)[0][0]) for w in s.wave]
        z = [i + 1 for i in range(len(cols)) if not np.any(s.mask_sky[:, i] != 0)]
        c.ev('prep', raised='', full=[4 * v for v in lev], q=[4 * lev[i] for i in cols], cut=cut, sky=idx(s.wh_sky), clear=idx(s.wh_nosky),
             zerocols=z, skyfit=len(s.wh_sky_fit))
    c.assumptions.extend(WHOLE)
    c.conform('SkyLinesTrace')
