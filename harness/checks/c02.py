"""C02 bad samples are masked and never switched back on."""
import numpy as np

import core
from core import attempt, num, NAN, PINF, NINF

SENT = {NAN: np.nan, PINF: np.inf, NINF: -np.inf}


def arr(x):
    return np.array([SENT.get(v, v) for v in x], dtype=float)


def arr2(rows):
    return np.array([[SENT.get(v, v) for v in r] for r in rows], dtype=float)


def lst(x):
    return [num(v) for v in x]


def lst2(x):
    return [[num(v) for v in r] for r in np.asarray(x)]


def main(c):
    mf = core.import_misfit()
    from misfit.general import galaxy_utils as gu
    rng = c.rng
    c.model('MCBadData')

    def rv(p_bad, zero=.1):
        r = rng.random()
        if r < p_bad:
            return rng.choice([NAN, NAN, PINF, NINF])
        if r < p_bad + zero:
            return 0
        return rng.randrange(1, 60)

    # ---- 1D histories --------------------------------------------------
    for it in range(1500 if c.thorough else 350):
        n = rng.choice([1, 2, 3, 5, 8, 12, 25, 40])
        pb = rng.choice([0, .05, .3, .6])
        flux = [rv(pb) for _ in range(n)]
        if rng.random() < .15:
            err = [rng.choice([0, 0, NAN]) if rng.random() < .3 else 0 for _ in range(n)]
        else:
            err = [abs(rv(pb, .15)) if True else 0 for _ in range(n)]
        w = [rng.choice([0, 1, 1, 3]) for _ in range(n)]
        k = rng.choice(['ones', 'ones', 'rand', 'block', 'zero'])
        mask = [1] * n if k == 'ones' else [0] * n if k == 'zero' else \
            [int(rng.random() < .7) for _ in range(n)] if k == 'rand' else \
            [int(n // 4 <= i < n - n // 5) for i in range(n)]
        c.history()
        c.ev('new', flux=flux, err=err, w=w, mask=mask)
        gal = mf.Galaxy(z=1.)
        s = mf.ObsSpectrum1D(wave=np.arange(n) + 5000., flux=arr(flux), flux_err=arr(err), spec_mask=arr(mask))
        gal.set_spectrum_1D(s)
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < .5:
                usew, nf = rng.random() < .5, rng.random() < .4
                first = rng.random() < .2 and all(m == 1 for m in lst(s.spec_mask))
                out, ex = attempt(gu.spec_mask_missing, spec=s.flux, spec_err=s.flux_err,
                                  spec_weight=arr(w) if usew else None,
                                  spec_mask=None if first else s.spec_mask, nonfinite_only=nf)
                if not ex:
                    s.spec_mask = out
                c.ev('missing', usew=usew, nonfinite=nf, raised=ex, out=lst(s.spec_mask), flux=lst(s.flux), err=lst(s.flux_err))
            else:
                s.num_mask_edge = rng.choice([0, 1, 2, 3, 5, 10, 60])
                _, ex = attempt(s.mask_edges)
                c.ev('edges', num=s.num_mask_edge, raised=ex, out=lst(s.spec_mask), flux=lst(s.flux), err=lst(s.flux_err))
            if ex:
                break
    # exhaustive small edge patterns with the default width and others
    c.history()
    for n in range(1, 8):
        for bits in range(2 ** n):
            mask = [(bits >> i) & 1 for i in range(n)]
            for numb in (1, 2, 10):
                flux = [1] * n
                s = mf.ObsSpectrum1D(wave=np.arange(n) + 5000., flux=arr(flux), flux_err=arr(flux), spec_mask=arr(mask))
                if numb != 10:
                    s.num_mask_edge = numb
                c.ev('new', flux=flux, err=flux, w=flux, mask=mask)
                _, ex = attempt(s.mask_edges)
                c.ev('edges', num=numb, raised=ex, out=lst(s.spec_mask), flux=lst(s.flux), err=lst(s.flux_err))
    # ---- 1D mask to 2D columns, fill ------------------------------------
    for it in range(400 if c.thorough else 120):
        c.history()
        nr, nw = rng.randrange(1, 6), rng.randrange(1, 9)
        m2 = [[int(rng.random() < .8) for _ in range(nw)] for _ in range(nr)]
        m1 = [int(rng.random() < .7) for _ in range(nw)]
        out, ex = attempt(gu.mask_spec2D_from_1D, mask2D=arr2(m2), mask1D=arr(m1))
        c.ev('oned', mask2=m2, mask1=m1, raised=ex, out=lst2(out) if not ex else [])
        x = [rv(.3, .2) for _ in range(nw)]
        mk = [int(rng.random() < .5) for _ in range(nw)]
        zero, al = rng.random() < .4, rng.random() < .3
        fill = rng.choice([-99, -99, 7])
        # as a 2D image with one row, the way preparation uses it
        out, ex = attempt(gu.spec_nan_masking, flux=arr2([x]), spec_mask=arr2([mk]), fill_value=float(fill),
                          mask_zero=zero, mask_all_masked=al)
        c.ev('fill', x=x, mask=mk, fill=fill, zero=zero, all=al, raised=ex, out=lst(out[0]) if not ex else [])
    # ---- 2D preparation ---------------------------------------------------
    for it in range(120 if c.thorough else 36):
        c.history()
        cont = it % 3 == 0
        full = it % 4 == 1
        nr = rng.randrange(13, 17) if full else rng.randrange(1, 6)
        nw = rng.randrange(80, 110)
        z1 = rng.choice([2, 3])
        step = 4 if cont else 2
        w0 = int(6564 * z1) - step * (nw // 2)
        wave = [w0 + step * i for i in range(nw)]
        pb = rng.choice([.01, .05]) if not full else .01
        flux = [[rv(pb, 0.02) for _ in range(nw)] for _ in range(nr)]
        err = [[abs(rv(pb, .02)) for _ in range(nw)] for _ in range(nr)]
        if full:
            yc = nr // 2
            for r in range(nr):
                for i in range(nw):
                    if core_ok(flux[r][i]):
                        flux[r][i] = int(round(400 * np.exp(-.5 * ((r - yc) / 2.) ** 2 - .5 * ((wave[i] - 6564.6 * z1) / 8.) ** 2))) + rng.randrange(-3, 4)
                    if core_ok(err[r][i]) and err[r][i]:
                        err[r][i] = rng.randrange(9, 12)
        mask = [[int(rng.random() < .95) for _ in range(nw)] for _ in range(nr)]
        usew = rng.random() < .7
        w = [[rng.choice([0, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2]) for _ in range(nw)] for _ in range(nr)] if usew else []
        gal = mf.Galaxy(z=z1 - 1., delt_PA=10., generate_model=True, dither=False)
        f1 = [rng.randrange(20, 60) for _ in range(nw)]
        e1 = [rng.randrange(9, 12) for _ in range(nw)]
        m1 = [1] * nw
        for i in range(nw):
            if rng.random() < .04:
                if rng.random() < .5:
                    f1[i] = NAN
                else:
                    e1[i] = rng.choice([NAN, 0])
            if rng.random() < .03 or i < 3:
                m1[i] = 0
        s = mf.ObsSpectrum2D(wave=np.array(wave, dtype=float), flux=arr2(flux), flux_err=arr2(err), spec_mask=arr2(mask),
                             band='K', linegroup_name='Halpha', no_continuum_subtraction=not cont)
        s.spec_mask = arr2(mask)
        s.spec_weight = arr2(w) if usew else None
        gal.set_spectrum_2D(s)
        s.ypos = float(nr // 2)
        if cont:
            o = mf.ObsSpectrum1D(wave=np.array(wave, dtype=float), flux=arr(f1), flux_err=arr(e1), spec_mask=arr(m1))
            gal.set_spectrum_1D(o)
        rest = [6454.6, 6674.6]
        inp = dict(cont=cont, flux=flux, err=err, w=w, mask=mask, flux1=f1, err1=e1, mask1=m1, wave=[x * 10 for x in wave], n=z1,
                   range=[64546, 66746])
        if full:
            inst = mf.Spectrograph(pixscale=.18, PSF_FWHM=.6, PSF_type='gaussian', slit_width=.7, slit_length=nr * .18,
                                   instrument_resolution=40.)
            s.weighting_type = 'none'
            with core.quiet():
                _, ex = attempt(s.fit_prep_calcs, gal, inst)
            if ex:
                c.ev('fullprep', raised=ex, **inp)
            else:
                nn = s.flux.shape[0]
                c.ev('fullprep', raised='', omask=lst2(s.spec_mask), owave=[num(x * 10) for x in s.wave],
                     rows=[s.full_l_ind + i + 1 for i in range(nn)],
                     finite=bool(np.isfinite(s.flux).all() and np.isfinite(s.flux_err).all()), **inp)
        else:
            with core.quiet():
                s.initialize_lineset()
                s.initialize_skylevels()
                s._ensure_mask_weight()
                _, ex = attempt(s.subtract_continuum, gal, no_cont_subtraction=not cont)
            ok = not ex
            c.ev('prep', raised=ex, omask=lst2(s.spec_mask) if ok else [], oflux=lst2(s.flux_incl_cont) if ok else [],
                 oerr=lst2(s.flux_err) if ok else [], **inp)
    c.conform('BadDataTrace')
    c.assumptions.append('sample values are integers or one of NaN, +Inf, -Inf')


def core_ok(v):
    return v not in (NAN, PINF, NINF)
