"""C07 preparation for fitting: once, complete, in order."""
import hashlib

import numpy as np

import core
from core import attempt, num

U = 1000
UNSET = 999999
TWO = ('flux', 'flux_err', 'flux_incl_cont', 'cont_model', 'spec_weight', 'spec_mask', 'mask_qual', 'mask_sky', 'mask_low_snr', 'fitting_weight_matrix')
TAB = dict(Halpha=('HA6565', 6564.6, (6454600, 6674600), (6555600, 6573600), (6533600, 6599600)),
           Hbeta=('HB4863', 4862.71, (4787710, 4932710), (4856710, 4868710), (4852710, 4872710)),
           OIII=('OIII5008', 5008.24, (4880240, 5118240), (5002290, 5015240), (4928240, 5038240)))


def ints(x):
    return [[num(v) for v in r] for r in np.asarray(x)]


def digest(s):
    h = hashlib.sha1()
    for a in TWO + ('wave', 'obswave', 'restwave', 'fitting_weight_profile', 'wh_sky', 'wh_nosky', 'wh_sky_fit', 'low_snr_row_inds', 'm_lims', 'restwave_arr', 'flux_ratio_arr',
                    'wave_full_range_rest', 'wave_line_range_rest', 'mask_lines_wave_range_rest'):
        v = getattr(s, a, None)
        h.update(a.encode())
        h.update(np.ascontiguousarray(np.asarray(v, dtype=float)).tobytes() if v is not None else b'none')
    for a in ('m0', 'm0_shift', 'm0_shift_fit', 'full_m0', 'full_l_ind', 'full_r_ind', 'ypos', 'n_spatial', 'lam0', 'dlam', 'median_flux_error', 'linenames_arr', 'prepared_for_fitting'):
        v = getattr(s, a, None)
        h.update(('%s=%s' % (a, repr(float(v)) if np.isscalar(v) and not isinstance(v, (str, bool)) else v)).encode())
    return h.hexdigest()[:16]


def q(x):
    return UNSET if x is None else int(round(float(x) * U))


def galaxy(mf, rng, z, dither):
    model = rng.random() < .4
    delt = rng.randrange(-200 * U, 200 * U) if model or rng.random() < .4 else None
    sp, img = rng.randrange(-180 * U, 180 * U), rng.randrange(-180 * U, 180 * U)
    g = mf.Galaxy(z=z, generate_model=model, sersicPA=sp / U, delt_PA=None if delt is None else delt / U, dither=dither)
    g.generate_model = model
    g.set_pstamp(mf.Pstamp(img_PA=img / U))
    return g, model, UNSET if delt is None else delt, sp, img


def inst(mf, n):
    return mf.Spectrograph(pixscale=.18, PSF_FWHM=.6, PSF_type='gaussian', slit_width=.7, slit_length=n * .18, instrument_resolution=40.)


def common(s, g, q0, raw):
    nsp, nw = s.flux.shape
    bad = [a for a in TWO if np.shape(getattr(s, a)) != (nsp, nw)]
    bad += [a for a in ('wave', 'obswave', 'restwave') if np.shape(getattr(s, a)) != (nw,)]
    bad += [a for a in ('fitting_weight_profile',) if np.shape(getattr(s, a)) != (nsp,)]
    if s.n_spatial != nsp or list(s.m_lims) != [0, nsp]:
        bad.append('n_spatial/m_lims')
    w = s.copy()
    p0, m0 = np.array(s.fitting_weight_profile), np.array(s.fitting_weight_matrix)
    with core.quiet():
        w.calculate_fit_weights()
    weq = bool(np.allclose(w.fitting_weight_profile, p0, atol=1e-9) and np.allclose(w.fitting_weight_matrix, m0, atol=1e-9)
               and (abs(p0.sum() - 1) < 1e-6 or not p0.any()))
    mm = lambda x: [int(round(float(v) * 1000)) for v in x]
    return dict(holds=g.spec2D is s, flag=s.prepared_for_fitting is True, delt=q(g.delt_PA), shapes=bad, weq=weq,
                lines=[list(map(str, s.linenames_arr)), mm(s.restwave_arr), mm(s.flux_ratio_arr)],
                cutoff=int(round(s.band_cutoff * 1000)), lam0init=int(round(float(getattr(s, 'lam0_init', s.lam0)) * 1000)),
                ranges=[mm(s.wave_full_range_rest), mm(s.wave_line_range_rest), mm(s.mask_lines_wave_range_rest)],
                dlamok=bool(abs(s.dlam - raw['dlam']) < 1e-6),
                posok=bool(s.full_m0 == s.m0 + s.full_l_ind and abs(s.ypos + s.full_l_ind - raw['ypos']) < 1e-9 and np.isfinite(s.m0_shift)
                           and abs(s.m0 + s.m0_shift - s.ypos) <= 4.6 and s.wave.min() <= s.lam0 <= s.wave.max()),
                digest=digest(s))


def life(c, mf, rng, tabulated, cont):
    dither = rng.random() < .6
    n = rng.randrange(28, 38)
    zn, zd = rng.choice([(2, 1), (5, 2), (12, 5), (31, 10)])
    z = zn / zd - 1.
    grp = rng.choice(sorted(TAB))
    line, base, full, lin, msk = TAB[grp]
    dl = rng.choice([4, 5]) if not tabulated else rng.choice([6, 8])
    lc = base * zn / zd
    if not tabulated:
        b = int(round(base * 1000))
        hw = rng.choice([9000, 12000, 15500])
        lin = (b - hw, b + hw + rng.randrange(0, 3000))
        full = (b - rng.choice([30000, 40000]), b + rng.choice([30000, 40000]))
        msk = (b - hw - 2000, b + hw + 2000)
        if cont:                 # a usable amount of continuum
            full = (b - 60000, b + 62000)
    lo, hi = full[0] * zn / zd / 1000 - rng.choice([-6, 2, 3]) * dl, full[1] * zn / zd / 1000 + rng.choice([-6, 2, 3]) * dl
    nw = int((hi - lo) // dl)
    nw += 1 - nw % 2
    w0 = int(lo * 1000) + rng.choice([0, 37, 501])
    wave = [w0 + 1000 * dl * i for i in range(nw)]
    if any(zd * w == zn * e for w in wave for e in full + lin):
        return False
    wv = np.array(wave) / 1000.
    mu = n / 2. + rng.uniform(-3, 3)
    x = np.arange(n)
    sg = rng.uniform(1.3, 2.2)
    gp = lambda m: np.exp(-.5 * ((x - m) / sg) ** 2)
    sep = rng.uniform(8, 9.5)
    p = gp(mu) - (gp(mu - sep) + gp(mu + sep) if dither else 0)
    A = rng.choice([300., 100., 40., 1000.])
    flux = A * p[:, None] * np.exp(-.5 * ((wv[None, :] - lc) / 6.) ** 2)
    flux = np.round(flux + np.array([[rng.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(nw)] for _ in range(n)]))
    err = np.full((n, nw), float(rng.choice([5, 10])))
    for k in range(nw):
        if rng.random() < .15:
            err[:, k] *= rng.choice([2, 3, 10])
    mask = np.ones((n, nw))
    wt = np.ones((n, nw))
    if rng.random() < .75:
        for arr, val, pr in ((flux, np.nan, .01), (flux, np.inf, .004), (err, np.nan, .01), (err, 0., .01), (mask, 0., .02), (wt, 0., .01), (err, np.inf, .003)):
            for r in range(n):
                for k in range(nw):
                    if rng.random() < pr:
                        arr[r, k] = val
        if rng.random() < .3:
            mask[rng.randrange(n), :] = 0.
        if rng.random() < .3:
            mask[:, rng.randrange(nw)] = 0.
    nomask, nowt = rng.random() < .2, rng.random() < .3
    if nomask:
        mask[:] = 1.
    if nowt:
        wt[:] = 1.
    c1, c2 = rng.choice([(2, 1), (3, 1), (5, 2)])
    s1, s2 = rng.choice([(2, 1), (2, 1), (5, 2), (4, 1)])
    g, model, delt, gpa, img = galaxy(mf, rng, z, dither)
    slit = rng.randrange(-180 * U, 180 * U)
    ypos = round(mu + rng.uniform(-1.2, 1.2), 2)
    kw = dict(wave=wv.copy(), flux=flux.copy(), flux_err=err.copy(), band='K', slit_PA=slit / U, ypos=ypos)
    if not nomask:
        kw['spec_mask'] = mask.copy()
    if not nowt:
        kw['spec_weight'] = wt.copy()
    lines0 = [[line], [int(round(base * 1000))], [1000000 // 1000]]
    explicit = rng.random()
    if explicit < .5:
        kw['linegroup_name'] = grp
        if grp == 'OIII':
            lines0 = [['OIII5008', 'OIII4960'], [5008240, 4960295], [1000, 333]]
    else:
        kw['linenames_arr'] = [line, 'XX'] if explicit < .75 else [line]
        if explicit < .75:
            kw['restwave_arr'] = np.array([base, base + 5.5])
            kw['flux_ratio_arr'] = np.array([1., .125])
            lines0 = [[line, 'XX'], [int(round(base * 1000)), int(round(base * 1000)) + 5500], [1000, 125]]
    s = mf.ObsSpectrum2D(**kw)
    preset = c1 != 3 or rng.random() < .5
    if preset:
        s.band_cutoff = c1 / c2
    else:
        c1, c2 = 2, 1           # band K
    if (s1, s2) != (2, 1) or rng.random() < .5:
        s.row_snr_cut = s1 / s2
    if not tabulated:
        s.wave_full_range_rest, s.wave_line_range_rest, s.mask_lines_wave_range_rest = np.array(full) / 1000., np.array(lin) / 1000., np.array(msk) / 1000.
    else:
        # now and then one of them is explicit
        if rng.random() < .3:
            lin = (lin[0] - 3100, lin[1] + 2700)
            s.wave_line_range_rest = np.array(lin) / 1000.
            if any(zd * w == zn * e for w in wave for e in lin):
                return False
    lam0 = 0
    if rng.random() < .3:
        lam0 = int(round(lc * 1000)) + 1500
        s.lam0 = lam0 / 1000.
    s.no_continuum_subtraction = not cont
    if rng.random() < .25:
        s.weighting_type = rng.choice(['none', 'optimal'])
    g.set_spectrum_2D(s)
    sp1 = None
    if cont:
        f1 = 20. + np.zeros(nw)
        e1 = np.full(nw, 2.)
        sp1 = mf.ObsSpectrum1D(wave=wv.copy(), flux=f1, flux_err=e1)
        g.set_spectrum_1D(sp1)
        s.flux = s.flux + 2.
    twin, gt = s.copy(), None
    gt = g.copy() if hasattr(g, 'copy') else None
    raw = dict(dlam=np.average(wv[1:] - wv[:-1]), ypos=ypos)
    req = dict(wave=wave, zn=zn, zd=zd, full=list(full), line=list(lin), flux=ints(flux), err=ints(err), mask=ints(mask), weight=ints(wt),
               cn=c1, cd=c2, sn=s1 if s.row_snr_cut == s1 / s2 else 2, sd=s2 if s.row_snr_cut == s1 / s2 else 1)
    early = rng.random() < .5
    st = dict(rs=s.row_snr_cut)
    kwp = {}
    if rng.random() < .2:          # settings may come with the call
        if preset:
            kwp['band_cutoff'] = s.band_cutoff
            s.band_cutoff = None
        kwp['row_snr_cut'] = s.row_snr_cut
        s.row_snr_cut = 77.
        twin = s.copy()
        twin.setAttr(**kwp)
    c.history()
    with core.quiet():
        _, ex = attempt(s.fit_prep_calcs, g, inst(mf, n), **kwp)
    d = dict(raised=ex, dither=dither, model=model, delt0=delt, gal=gpa, slit=slit, img=img, lines0=lines0, cutoff0=int(round(1000 * c1 / c2)),
             lam0given=lam0, ranges0=[list(full), list(lin), list(msk)], ypos=int(ypos * 1000))
    if not ex:
        d.update(common(s, g, req, raw))
        d['l'], d['r'] = int(s.full_l_ind), int(s.full_r_ind)
        if not cont:
            d['contzero'] = bool(not np.any(s.cont_model))
            d['incl'] = bool(np.array_equal(s.flux, s.flux_incl_cont))
            d['out'] = dict(wave=[int(round(v * 1000)) for v in s.wave], flux=ints(s.flux), err=ints(s.flux_err), qual=ints(s.mask_qual), msky=ints(s.mask_sky),
                            low=ints(s.mask_low_snr), mask=ints(s.spec_mask), weight=ints(s.spec_weight), dropped=[int(v) for v in s.low_snr_row_inds],
                            sky=[int(v) + 1 for v in s.wh_sky], skyfit=len(s.wh_sky_fit))
        else:
            cols = [int(np.argmin(abs(wv - v))) for v in s.wave]
            l, r = int(s.full_l_ind), int(s.full_r_ind)
            cut = lambda a: a[l:r][:, cols]
            badraw = ~np.isfinite(cut(flux)) | ~np.isfinite(cut(err)) | (cut(wt) == 0) | (cut(mask) == 0)
            d['badvalid'] = int(np.sum(badraw & (s.spec_mask != 0)))
            d['dropvalid'] = int(np.sum(s.spec_mask[[i for i in s.low_snr_row_inds if not s.mask_low_snr[i].any()], :] != 0))
            d['inrange'] = bool(all(zn * lin[0] <= zd * wave[k] <= zn * lin[1] for k in cols) and len(cols) == sum(zn * lin[0] <= zd * w <= zn * lin[1] and zn * full[0] <= zd * w <= zn * full[1] for w in wave))
            o = g.spec1D
            want = [w for w in wave if zn * full[0] <= zd * w <= zn * full[1]]
            d['onedok'] = bool([int(round(v * 1000)) for v in o.wave] == want and len(o.flux) == len(want) and len(o.flux_err) == len(want) and len(o.spec_mask) == len(want)
                               and len(o.obswave) == len(want))
    if not cont:
        d['q'] = req
    c.ev('generic' if cont else 'prep', **d)
    if ex:
        return True
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        gg = g
        kw2 = {}
        if r < .25:
            pass
        elif r < .5:
            kw2 = rng.choice([dict(band_cutoff=.1), dict(row_snr_cut=500.), dict(weighting_type='none'), dict(no_continuum_subtraction=cont), dict(linegroup_name='NII'), dict(debugging=1)])
        elif r < .75:
            a = rng.choice(['z', 'cut', 'line', 'dither'])
            if a == 'z':
                g.z += .01
            elif a == 'cut':
                s.row_snr_cut *= 3
            elif a == 'line':
                s.linegroup_name = 'SII'
            else:
                g.dither = not g.dither
        else:
            gg = mf.Galaxy(z=1.7, delt_PA=rng.choice([None, 12.5]), generate_model=False, sersicPA=10.)
            gg.set_pstamp(mf.Pstamp(img_PA=3.))
        d0 = q(gg.delt_PA)
        with core.quiet():
            _, ex = attempt(s.fit_prep_calcs, gg, inst(mf, n), **kw2)
        c.ev('again', raised=ex, digest=digest(s), holds=gg.spec2D is s, flag=s.prepared_for_fitting is True, delt=q(gg.delt_PA), delt0=d0)
    if gt is not None:
        # the copy taken before is prepared independently, by its own galaxy copy
        gt.spec2D = twin
        with core.quiet():
            _, ex = attempt(twin.fit_prep_calcs, gt, inst(mf, n))
        c.ev('twin', raised=ex, digest=digest(twin) if not ex else '')
    return True


def main(c):
    mf = core.import_misfit()
    rng = c.rng
    c.model('MCPrep')
    k = 0
    N = 260 if c.thorough else 45
    while k < N:
        k += life(c, mf, rng, k % 9 == 0, False)
    k = 0
    while k < N // 3:
        k += life(c, mf, rng, k % 5 == 0, True)
    c.assumptions.append('the centring optimiser is nondeterministic: rows kept are read from the recorded bounds')
    c.conform('PrepTrace')
