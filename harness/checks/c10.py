"""C10 line sets, wavelengths and ratios."""
import os

import numpy as np

import core
from core import attempt, num

STRONG = ('Halpha', 'Hbeta', 'OIII')


def mw(x):
    return [int(round(float(v) * 1000)) for v in x]


def mr(x):
    return [int(round(float(v) * 1e6)) for v in x]


def custom(rng):
    """A table of its own, entries in arbitrary order."""
    names = ['L%d' % i for i in range(4)] + ['L1B', 'XL2', 'HA6565']      # names contained in others too
    wave = {n: 4000000 + 250 * rng.randrange(8000) for n in names}
    ratio = {n: rng.choice([1000000, 500000, 250000, 125000]) for n in names}
    rng.shuffle(names)
    groups = {}
    pool = list(names)
    for g in ('GA', 'GB', 'Halpha'):
        k = rng.randrange(1, 3)
        groups[g] = [pool.pop() for _ in range(k)]
    p1 = os.path.join(core.TMP, 'names_%d.dat' % rng.randrange(10**9))
    p2 = p1 + '.w'
    order = list(groups)
    rng.shuffle(order)
    open(p1, 'w').write('# name  lineset\n' + ''.join('%s  %s\n' % (g, ','.join(groups[g])) for g in order))
    open(p2, 'w').write('# linename restwave strength\n' + ''.join('%s %.3f %.6f\n' % (n, wave[n] / 1000., ratio[n] / 1e6) for n in names))
    return p1, p2, dict(groups=groups, wave=wave, ratio=ratio)


def kw(q, form):
    d = {}
    if q['names']:
        d['linenames_arr'] = list(q['names'])
    if q['waves']:
        d['restwave_arr'] = np.array(q['waves']) / 1000.
    if q['ratios']:
        d['flux_ratio_arr'] = np.array(q['ratios']) / 1e6
    return d


def raw(mf, **k):
    nw = 60
    return mf.ObsSpectrum2D(wave=13000. + 4 * np.arange(nw), flux=np.ones((14, nw)), flux_err=np.ones((14, nw)), band='K', **k)


def inst(mf):
    return mf.Spectrograph(pixscale=.18, PSF_FWHM=.6, PSF_type='gaussian', slit_width=.7, slit_length=3., instrument_resolution=40.)


def main(c):
    mf = core.import_misfit()
    from misfit.model.emission_lines_model import EmissionLines1DModel
    from misfit.general import io as mio
    from misfit.fit import fit1D
    rng = c.rng
    r = c.model('MCLines', workers=1)
    cases = c.emitted(r)
    jobs = [(q, None) for q in cases]
    for _ in range(120 if c.thorough else 30):
        tab = custom(rng)
        for g in ('GA', 'GB', 'Halpha', 'OIII', 'L0'):
            nm = rng.choice([[], [], [tab[2]['groups']['GA'][0]], ['L0', 'L1'], ['OIII5008'], ['HA6565', 'L3']])
            n = len(nm) or len(tab[2]['groups'].get(g, [0]))
            jobs.append((dict(group=g, names=nm, waves=rng.choice([[], [5000000 + i for i in range(n)]]),
                              ratios=rng.choice([[], [100000 * (i + 1) for i in range(n)]])), tab))
    for q, tab in jobs:
        c.history()
        s = raw(mf, linegroup_name=q['group'], **kw(q, 0))
        if tab:
            s.linenames_param_filename, s.restwave_param_filename = tab[0], tab[1]
        _, ex = attempt(s.initialize_lineset)
        d = dict(q=q, custom='c' if tab else '', raised=ex)
        if tab:
            d['tab'] = tab[2]
        if not ex:
            d.update(names=list(map(str, s.linenames_arr)), waves=mw(s.restwave_arr), ratios=mr(s.flux_ratio_arr))
        c.ev('resolve2', **d)
        if not ex:
            s.linegroup_name = rng.choice(['Halpha', 'OIII', 'nonsense', None])
            _, ex = attempt(s.initialize_lineset)
            c.ev('again', raised=ex, names=list(map(str, s.linenames_arr)), waves=mw(s.restwave_arr), ratios=mr(s.flux_ratio_arr))
        if tab:
            continue
        # 1D line-set model
        c.history()
        m, ex = attempt(EmissionLines1DModel, name=q['group'], **kw(q, 1))
        d = dict(q=q, custom='', raised=ex)
        if not ex:
            d.update(names=list(map(str, m.linenames_arr)), waves=mw(m.restwave_arr), ratios=mr(m.flux_ratio_arr))
        c.ev('resolve1', **d)
        # 2D fit object: lines explicit on the fit, the spectrum, or by group
        for where in ('fit', 'spec', 'group'):
            if where == 'group' and (q['names'] or q['waves'] or q['ratios']):
                continue
            if where == 'fit' and not q['names']:
                continue
            if where == 'spec' and not q['names']:
                continue
            c.history()
            s = raw(mf, **(kw(q, 0) if where == 'spec' else {}))
            g = mf.Galaxy(z=1., delt_PA=3., generate_model=True, n=1., re_arcsec=.6, q=.5, re_mass_arcsec=.6, q_mass=.5)
            g.set_spectrum_2D(s)
            f, ex = attempt(mf.FitEmissionLines2D, galaxy=g, instrument=inst(mf), skip_fit_prep_calcs=True,
                            **dict(linegroup_name=q['group'], **(kw(q, 0) if where == 'fit' else {})))
            if not ex:
                _, ex = attempt(s.initialize_lineset)
            d = dict(q=q, custom='', raised=ex)
            if not ex:
                d.update(names=list(map(str, g.spec2D.linenames_arr)), waves=mw(g.spec2D.restwave_arr), ratios=mr(g.spec2D.flux_ratio_arr))
            c.ev('fit2', **d)
    # 1D fits: several groups at once
    for _ in range(100 if c.thorough else 25):
        c.history()
        gs = [rng.choice(['Halpha', 'Hbeta', 'OIII'])] + [rng.choice(['NII', 'SII', 'OII', 'Hbeta', 'OIII', 'Halpha', 'bogus' if rng.random() < .2 else 'NII'])
                                                          for _ in range(rng.randrange(0, 3))]
        s = mf.ObsSpectrum1D(wave=9000. + 5 * np.arange(1200), flux=np.ones(1200), flux_err=np.ones(1200))
        g = mf.Galaxy(z=1., delt_PA=3.)
        g.set_spectrum_1D(s)
        f, ex = attempt(fit1D.FitEmissionLines1D, galaxy=g, instrument=inst(mf), names_arr=gs)
        d = dict(groups=gs, raised=ex)
        if not ex:
            d.update(names=[list(map(str, x)) for x in f.linenames_arr], waves=[mw(x) for x in f.restwave_arr])
        c.ev('fit1', **d)
    # central wavelength and ranges through preparation
    for _ in range(200 if c.thorough else 40):
        c.history()
        zn, zd = rng.choice([(2, 1), (5, 2), (12, 5), (31, 10)])
        z = zn / zd - 1.
        mode = rng.random()
        k = {}
        if mode < .45:
            grp = rng.choice(['Halpha', 'Hbeta', 'OIII', 'Halpha', 'NII', 'SII'])
            k['linegroup_name'] = grp
            base = dict(Halpha=6564.6, Hbeta=4862.71, OIII=5008.24, NII=6549.86, SII=6732.673)[grp]
        elif mode < .75:
            grp = rng.choice([['OIII4960', 'OIII5008'], ['HA6565'], ['HB4863'], ['NII6585', 'HA6565']])
            k['linenames_arr'] = list(grp)
            base = dict(OIII4960=4960.295, HA6565=6564.6, HB4863=4862.71, NII6585=6585.27)[grp[0]]
        else:
            k['linenames_arr'] = ['MYLINE']
            base = 6000. + rng.randrange(100)
            k['restwave_arr'] = np.array([base])
            k['flux_ratio_arr'] = np.array([1.])
        gl = {}
        explicit = rng.random() < .5
        for nm, a, b in (('full', -100, 100), ('line', -9, 9), ('mask', -30, 30)):
            if explicit or (rng.random() < .3):
                gl[nm] = [int(round((base + a) * 1000)), int(round((base + b) * 1000))]
        nw = 150
        wave = (base * (1 + z)) + 4. * (np.arange(nw) - nw // 2)
        x = np.arange(25)
        flux = 300 * np.exp(-.5 * ((x[:, None] - 12) / 1.7) ** 2) * np.exp(-.5 * ((wave[None, :] - base * (1 + z)) / 5.) ** 2)
        s = mf.ObsSpectrum2D(wave=wave, flux=flux, flux_err=np.ones(flux.shape), band='K', ypos=12., **k)
        names = {'full': 'wave_full_range_rest', 'line': 'wave_line_range_rest', 'mask': 'mask_lines_wave_range_rest'}
        for nm in gl:
            setattr(s, names[nm], np.array(gl[nm]) / 1000.)
        s.no_continuum_subtraction = True
        glam = 0
        if rng.random() < .3:
            glam = int(round((base * (1 + z) + 2.) * 1000))
            s.lam0 = glam / 1000.
        g = mf.Galaxy(z=z, delt_PA=3., generate_model=True, dither=False)
        g.set_spectrum_2D(s)
        with core.quiet():
            s2 = s.copy()
            _, ex0 = attempt(s2.initialize_lineset)
            _, ex = attempt(s.fit_prep_calcs, g, inst(mf))
        if ex0:
            continue
        d = dict(names=list(map(str, s2.linenames_arr)), waves=mw(s2.restwave_arr), gfull=gl.get('full', []), gline=gl.get('line', []), gmask=gl.get('mask', []),
                 glam0=glam, zn=zn, zd=zd, raised=ex)
        if not ex:
            d.update(names2=list(map(str, s.linenames_arr)), waves2=mw(s.restwave_arr), full=mw(s.wave_full_range_rest), line=mw(s.wave_line_range_rest),
                     mask=mw(s.mask_lines_wave_range_rest), lam0=int(round(s.lam0_init * 1000)))
        c.ev('prep', **d)
    lib = os.path.join(core.REPO, 'misfit', 'lib')
    files = dict(full='full_range_restwave_2D.param', line='line_range_restwave_2D.param', mask='mask_lines_range_restwave_2D.param', trim1d='trim_wavelengths_1D.param')
    c.history()
    for t, fn in files.items():
        for nm in ('HA6565', 'HB4863', 'OIII5008', 'OIII4960', 'Halpha', 'Hbeta', 'OIII', 'HA', '', 'ha6565'):
            out, ex = attempt(mio.read_wave_range, os.path.join(lib, fn), linename=nm)
            c.ev('lookup', table=t, name=nm, raised=ex, out=mw(out) if not ex else [])
    c.conform('LinesTrace')
