"""C06 spatial trimming."""
import numpy as np

import core
from core import attempt, num

ARRS = ('flux', 'flux_err', 'flux_incl_cont', 'cont_model', 'spec_weight', 'spec_mask', 'mask_qual', 'mask_sky', 'mask_low_snr')


def gprof(x, mu, sg):
    return np.exp(-.5 * ((x - mu) / sg) ** 2)


def rnd(x):
    return int(np.floor(x / 1000. + .5))


def case(c, mf, rng, n, mu, sep, ypos, dither, pix=.18):
    """positions in units of 1/1000 row"""
    nw = 9
    x = np.arange(n)
    sg = rng.uniform(1.3, 2.2)
    p = gprof(x, mu / 1000., sg)
    if dither:
        p = p - gprof(x, (mu - sep) / 1000., sg) - gprof(x, (mu + sep) / 1000., sg)
    lam = gprof(np.arange(nw), nw // 2, 1.5)
    flux = np.round(3000 * p[:, None] * lam[None, :])
    err = np.full((n, nw), float(rng.choice([40, 100, 200])))
    wave = 13000. + 2 * np.arange(nw)
    s = mf.ObsSpectrum2D(wave=wave, flux=flux.copy(), flux_err=err.copy(), band='K', linegroup_name='Halpha')
    i = np.arange(n)[:, None]
    j = np.arange(nw)[None, :]
    orig = dict(flux=flux, flux_err=err)
    # every other array carries its own row pattern; masks are 0/1 patterns
    bits = ((i >> (j % 6)) & 1).astype(float)
    orig['flux_incl_cont'] = 5000. + 100 * i + j
    orig['cont_model'] = 7000. + 100 * i + j
    orig['spec_weight'] = 20000. + 100 * i + j
    orig['spec_mask'] = bits
    orig['mask_qual'] = 1. - ((i + 3 >> (j % 6)) & 1) * 1.
    orig['mask_low_snr'] = ((i + 5 >> (j % 6)) & 1) * 1.
    sky = np.ones((n, nw))
    orig['mask_sky'] = sky
    for a in ARRS:
        setattr(s, a, orig[a].copy())
    s.restwave_arr = np.array([wave[nw // 2] / 2.])
    s.linenames_arr = ['HA6565']
    s.ypos = ypos / 1000.
    s.wh_sky = np.array([], dtype=int)
    s.low_snr_row_inds = np.array([], dtype=int)
    gal = mf.Galaxy(z=1., delt_PA=5., generate_model=True, dither=dither)
    hasprof = rng.random() < .5
    o = None
    if hasprof:
        o = mf.ObsSpectrum1D(wave=wave.copy(), flux=np.ones(nw), flux_err=np.ones(nw))
        o.extraction_spatial_profile = 300. + np.arange(n)
        gal.set_spectrum_1D(o)
    elif rng.random() < .5:
        o = mf.ObsSpectrum1D(wave=wave.copy(), flux=np.ones(nw), flux_err=np.ones(nw))
        gal.set_spectrum_1D(o)
    s.calculate_restwave(gal)
    gal.spec2D = s
    inst = mf.Spectrograph(pixscale=pix, PSF_FWHM=.6, PSF_type='gaussian', slit_width=.7, slit_length=n * pix, instrument_resolution=40.)
    with core.quiet():
        _, ex = attempt(s.trim_spectrum_spatial, gal, inst)
    # configurations in which the documented centring procedure (a Gaussian fit
    # started at the brightest row) is bound to find the true object row
    m = int(np.floor(mu / 1000. + .5))
    far = abs(ypos - 1000 * m) >= 3000
    pixm = int(round(pix * 1000))
    if dither:
        cut = -(-(abs(m - rnd(mu - sep)) + abs(m - rnd(mu + sep))) // 4)
        inside = min(mu - sep, (n - 1) * 1000 - mu - sep) >= 3000 and 8000 <= sep <= 9600
    else:
        cut = int(np.ceil(1.5 / pix / 2))
        inside = min(mu, (n - 1) * 1000 - mu) >= 7000
    wid = min(n - 1, m + cut) - max(0, m - cut)
    plain = wid * pixm <= 3750 and 2 * cut >= 5
    good = inside and n >= 16 and (far or (plain and abs(ypos - mu) <= 1500 and abs(ypos - 1000 * m) <= 1800))
    d = dict(good=bool(good), n=n, mu=int(mu), sep=int(sep), ypos=int(ypos), dither=bool(dither), pix=int(round(pix * 1000)), raised=ex, hasprof=hasprof, cn=2, cd=1)
    if not ex:
        l = int(s.full_l_ind)

        def rowmap(a):
            got, src = np.asarray(getattr(s, a)), orig[a]
            out = []
            for k in range(got.shape[0]):
                m = [r for r in range(n) if np.array_equal(got[k], src[r])]
                # rows with identical content: prefer the one in sequence
                out.append(k + l if k + l in m else (m[0] if m else -1))
            return out
        d.update(l=l, r=int(s.full_r_ind), fullm0=num(s.full_m0), m0=num(s.m0), newypos=int(round(s.ypos * 1000)),
                 shift=int(round(float(s.m0_shift_fit) * 1000)), lims=[int(v) for v in s.m_lims], nspatial=int(s.n_spatial),
                 rows={a: rowmap(a) for a in ARRS}, prof=[num(v - 300) for v in o.extraction_spatial_profile] if hasprof else [],
                 dropped=[int(v) for v in s.low_snr_row_inds],
                 flux=[[num(v) for v in r] for r in flux], err=[[num(v) for v in r] for r in err], sky=[[num(v) for v in r] for r in sky])
    c.ev('strim', **d)


def main(c):
    mf = core.import_misfit()
    rng = c.rng
    c.history()
    r = c.model('MCSpatial', workers=1)
    cases = c.emitted(r)
    rng.shuffle(cases)
    k = 0
    for cs in cases:
        n, mu, sep, ypos = cs['n'], cs['mu'], cs['sep'], cs['ypos']
        # keep the negative images partly on the image and away from rounding ties
        if n < 24 or not (4000 <= mu <= (n - 5) * 1000):
            continue
        if abs((mu % 1000) - 500) < 60 or abs((mu + sep) % 1000 - 500) < 60:
            continue
        if abs(abs(ypos - 1000 * int(round(mu / 1000.))) - 2000) < 50:
            continue
        if abs(ypos % 1000 - 500) < 60:
            continue
        case(c, mf, rng, n, mu, sep, ypos, True, rng.choice([.18, .18, .15, .2, .25]))
        k += 1
        if k >= (400 if c.thorough else 70):
            break
    c.ev('close')
    c.history()
    done = 0
    while done < (400 if c.thorough else 70):
        n = rng.randrange(22, 44)
        dither = rng.random() < .6
        sep = rng.randrange(8000, 9600) if rng.random() < .7 else rng.randrange(6000, 12000)
        mu = rng.randrange(7000, (n - 8) * 1000)
        if dither:
            mu = int(n * 500 + rng.uniform(-.2, .2) * n * 1000)
        if any(abs(v % 1000 - 500) < 60 for v in (mu, mu + sep, mu - sep)):
            continue
        m = rnd(mu)
        ypos = rng.choice([1000 * m, mu, 1000 * m + rng.randrange(-1500, 1500), 1000 * m + rng.choice([-1, 1]) * 4000])
        if not (4000 <= ypos <= (n - 5) * 1000) or abs(ypos % 1000 - 500) < 60:
            continue
        done += 1
        case(c, mf, rng, n, mu, sep, ypos, dither, rng.choice([.18, .15, .12, .2, .25]))
    c.ev('close')
    c.assumptions.append('object profiles are Gaussians fitted without noise; positions away from rounding ties')
    c.conform('SpatialTrace')
