"""C24 mock observations."""
import math

import numpy as np

import core
import scene
from core import attempt, fix
from checks.c14 import ROT, INC, Poly, angle, GROUPS, grid

C = 299792.458
LAM = dict(Halpha=6564.60, OII=3728.5, SII=6725., OIII=5008.24, Hbeta=4862.68, NII=6585.27)
PIX = [.1799, .25, .12, .1, .2, .18, .15]


def ask(rng, case=None):
    """A request in the specification's units; the settings of the same mock."""
    ns = case['ns'] if case else rng.choice([1, 2, 2, 3])
    L8 = case['L8'] if case else rng.choice([8 * rng.randrange(1, 7), rng.randrange(1, 48)])
    least = case['least'] if case else rng.choice([2, 3, 4, 5] if ns < 3 else [2, 3])
    if ns == 3:
        L8 = min(L8, 32)
    rows = max(least, -(-L8 // 8))
    trivial = ns == 3 or rng.random() < .4 or rows > 6
    pc, ic = (rng.choice(ROT[:4]), rng.choice(INC[:2])) if trivial else (rng.choice(ROT), rng.choice(INC))
    W = 4 * rng.randrange(1, 6)
    if trivial and ns < 3:
        W += rng.randrange(4)
    elif ns == 3:
        W += rng.choice([0, 2])
    r = dict(L8=L8, least=least, ns=ns, W=W, ysh4=rng.choice([0, 0, 1, -2, 4]), pc=pc[0], ps=pc[1], pd=pc[2], ic=ic[0], id=ic[2],
             a=rng.randrange(3), b=rng.randrange(3), c=rng.randrange(3), d=0)
    r['is'] = ic[1]
    if not r['a'] + r['b'] + r['c']:
        r['a'] = 1
    pix = rng.choice(PIX)
    d = pix / ns
    sini = ic[1] / ic[2]
    if sini == 1.:
        q, q0 = rng.choice([(0., .25), (.2, .25), (0., 0.)])
    elif sini == 0.:
        q, q0 = 1., rng.choice([0., .19])
    else:
        q0 = rng.choice([0., .3])
        q = math.sqrt(1 - sini ** 2 * (1 - q0 ** 2))
    vel = rng.random() < .2
    z, h = rng.choice([(.5, 2.), (1.5, 2.), (1., 3.)])
    group = rng.choice(list(GROUPS) if rng.random() < .5 else ['Halpha'])
    if vel:
        h, nw = 20., 2 * rng.randrange(18, 24) + 1
        wave = rng.uniform(-9., 9.) + h * (np.arange(nw) - (nw - 1) / 2.)
        sig, ratio = rng.uniform(.9, 2.) * h, 1.
    else:
        nw, lam = grid(group, z, h), LAM[group] * (1 + z)
        wave = lam + rng.uniform(-1., 1.) + h * (np.arange(nw) - (nw - 1) / 2.)
        sig, ratio = rng.choice([rng.uniform(.9, 2.), rng.uniform(.3, .4)]) * h / lam * C, None
    kw = dict(z=z, ID=rng.choice([7, 'x']), Va=rng.choice([0., 120., -80.]), rt=rng.choice([.05, .3, 2.]), sigma0=sig, yshift=r['ysh4'] / 4., n=rng.choice([1., 2.]), re_arcsec=.4, q=q, q0=q0,
              delt_PA=angle(pc), wave=wave, instrument_name='MOSFIRE', pixscale=pix, instrument_resolution=0., slit_width=W * d / 4. * (1 - 1e-9), slit_length=L8 * pix / 8., nymin=least,
              PSF_FWHM=1e-6, PSF_type=rng.choice(['Gaussian', 'Moffat']), band='K', linegroup_name=None if vel else group, spec_type='velocity' if vel else 'wave', nSubpixels=ns)
    if rng.random() < .3:
        kw['pad_factor'] = rng.choice([.5, 1., 2.])
    if rng.random() < .2:
        kw['dither'] = True
    return r, kw, h, pix / ns


def basis(mock, r, kw):
    wave = kw['wave'].copy()
    out, ex = attempt(mock.generate_mock_basis, **kw)
    same = np.array_equal(wave, kw['wave'])
    e = dict(raised=ex, same=same, rows=0, m4=-1)
    if not ex:
        s = out[1].spec2D
        e.update(rows=int(s.shape[0]), m4=fix(s.m0, 4))
    return out, e


def polynomials(c, mf, rng, cases):
    """Requests set up and carried out in any order, sharing profiles or not."""
    mock = mf.mock.generate_basic
    kp = mf.KinProfileFiducial()
    held, shared = [], None
    for _ in range(len(cases) or rng.choice([1, 2, 3])):
        r, kw, h, d = ask(rng, cases.pop() if cases else None)
        if held and rng.random() < .4:
            # the same galaxy again on another detector, or the same twice
            r2, kw2, h, d = held[-1][:4]
            r, kw = dict(r2), dict(kw2)
            if rng.random() < .7:
                r['L8'] = rng.choice([9, 17, 24, 32])
                kw['slit_length'] = r['L8'] * kw['pixscale'] / 8.
        elif rng.random() < .5:
            kw['kinProfile'] = kp
        if 'intensityProfile' not in kw:
            kw['intensityProfile'] = Poly(r['a'], r['b'], r['c'], d)
        out, e = basis(mock, r, kw)
        c.ev('ask', r=r, **e)
        held.append((r, kw, h, d, out))
        if e['raised']:
            return
    todo = [(i, rng.random() < .3) for i in range(len(held)) for _ in range(rng.choice([1, 1, 2]))]
    rng.shuffle(todo)
    for i, cube in todo:
        r, kw, h, d, out = held[i]
        rows = max(r['least'], -(-r['L8'] // 8))
        if cube and (rows * r['ns'] > 10 or (rows > 4 and r['pd'] * r['id'] > 5)):
            cube = False
        how = rng.random() < .5
        wave = kw['wave'].copy()
        if how:       # through the generator
            a, ex = attempt((mock.generate_mock_IFU_cube if cube else mock.generate_mock_slit_obs), **kw)
        else:         # from what was set up before
            m, g, inst = out

            def go():
                if cube:
                    m.make_3D_int_model(galaxy=g, instrument=inst, theta_fitting=[])
                    return m.model_cube
                m.make_model(galaxy=g, instrument=inst, theta_fitting=[])
                return m.model
            a, ex = attempt(go)
        same = np.array_equal(wave, kw['wave'])
        s = out[1].spec2D
        ratio = 1. if kw['spec_type'] == 'velocity' else float(np.sum(s.flux_ratio_arr))
        f = 1000. * h / (d * ratio)
        if ex:
            img = []
        elif cube:
            img = [[fix(x * f, 1) for x in b] for b in np.asarray(a, dtype=float).sum(axis=0)]
        else:
            dx = kw['slit_width'] / math.ceil(r['W'] / 4.)
            img = [fix(x * f / dx, 1) for x in np.asarray(a, dtype=float).sum(axis=1)]
        c.ev('cube' if cube else 'slit', id=i + 1, how=how, img=img, same=same, raised=ex)


def real(rng):
    """A request for a real galaxy."""
    r, kw, h, d = ask(rng)
    pix = kw['pixscale']
    ns = kw['nSubpixels'] = r['ns'] = rng.choice([1, 2])
    r['least'] = kw['nymin'] = rng.choice([4, 6, 7])
    r['L8'] = rng.choice([20, 48, 56, 53])
    kw['slit_length'] = r['L8'] * pix / 8.
    kw['slit_width'] = rng.choice([.3, .45, .7])
    kw.update(q=rng.choice([.2, .5, .9]), q0=rng.choice([.1, .19]), delt_PA=rng.choice([0., 25., -70., 110.]), re_arcsec=rng.choice([.2, .5]), n=rng.choice([1., 2., .5]),
              Va=rng.choice([150., -120.]), rt=rng.choice([.1, .4]), PSF_FWHM=rng.choice([1e-6, .41, .64]), instrument_resolution=rng.choice([0., 35.]) if kw['spec_type'] == 'wave' else 0.)
    return r, kw, h, pix / ns


def pair(c, mf, rng):
    """The mock is the model made directly for the same galaxy and detector."""
    mock = mf.mock.generate_basic
    r, kw, h, d = real(rng)
    if rng.random() < .25 and kw['spec_type'] == 'wave':
        kw['do_position_wave_shift'] = True
        kw['instrument_resolution'] = 35.
        kw['slit_width'] = max(kw['slit_width'], 4.5 * d)       # a position needs a few columns
    if rng.random() < .3:
        mock.generate_mock_basis(**real(rng)[1])
    kp, ip = None, None
    if rng.random() < .4:      # profiles used elsewhere before
        o = mf.Galaxy(z=1., ID='o', n=4., re_arcsec=1., q0=.3, delt_PA=5., q=.3, generate_model=True)
        ip = kw['intensityProfile'] = mf.IntensityProfileFiducial(o)
        kp = kw['kinProfile'] = mf.KinProfileFiducial()
        kp.update_theta(np.array([1., 2., 3., 4., 5.]))
    wave = kw['wave'].copy()
    _, e = basis(mock, r, kw)
    a, ex = attempt(mock.generate_mock_slit_obs, **kw)
    e['same'] = e['same'] and np.array_equal(wave, kw['wave'])
    nw = len(wave)

    def direct():
        g = mf.Galaxy(z=kw['z'], ID='d', n=kw['n'], re_arcsec=kw['re_arcsec'], delt_PA=kw['delt_PA'], q=kw['q'], q0=kw['q0'], generate_model=True)
        s = mf.ObsSpectrum2D(band='K', wave=wave.copy(), linegroup_name=kw['linegroup_name'], no_continuum_subtraction=True, spec_type=kw['spec_type'])
        s.shape = [e['rows'], nw]
        if kw['spec_type'] == 'wave':
            s.initialize_lineset()
        s.m0 = s.ypos = e['m4'] / 4.
        g.set_spectrum_2D(s)
        i = scene.inst(mf, res=kw['instrument_resolution'], slit=kw['slit_width'], psf=kw['PSF_FWHM'], pix=kw['pixscale'], kind=kw['PSF_type'], n=e['rows'])
        m = mf.model.AperModel2D(galaxy=g, instrument=i, theta=np.array([kw['Va'], kw['rt'], kw['sigma0'], kw['yshift'], kw['z']]), kinProfile=mf.KinProfileFiducial(),
                                 intensityProfile=mf.IntensityProfileFiducial(g), nSubpixels=kw['nSubpixels'], pad_factor=kw.get('pad_factor', .5),
                                 do_position_wave_shift=kw.get('do_position_wave_shift', False), spec_type=kw['spec_type'])
        return np.asarray(m.model, dtype=float)
    b = direct()
    unit = 1e6 / np.abs(b).max()
    e['raised'] = e['raised'] or ex
    c.ev('pair', r=r, nw=nw, mock=[fix(x * unit, 1) for x in np.asarray(a, dtype=float).ravel()] if not ex else [], model=[fix(x * unit, 1) for x in b.ravel()], **e)


def through(c, mf, rng):
    """The slit observation against the cube behind it, in the same seeing."""
    mock = mf.mock.generate_basic
    r, kw, h, d = real(rng)
    kw['instrument_resolution'], kw['pad_factor'] = 0., rng.choice([1., 1.5])
    rows = max(r['least'], -(-r['L8'] // 8))
    n = rng.choice([x for x in range(1, rows) if (rows - x) % 2 == 0])
    kw['slit_width'] = n * kw['nSubpixels'] * (kw['pixscale'] / kw['nSubpixels']) * (1 - 1e-9)
    a, ex = attempt(mock.generate_mock_slit_obs, **kw)
    q, x = attempt(mock.generate_mock_IFU_cube, **kw)
    if ex or x:
        c.ev('through', r=r, n=n, seen=False, slit=[], cube=[], raised=ex or x)
        return
    unit = 1e6 / np.abs(a).max()
    order = np.argsort(-np.abs(a).max(axis=0), kind='stable')
    keep = np.sort(np.concatenate([order[:10], order[10::9]]))
    c.ev('through', r=r, n=n, seen=kw['PSF_FWHM'] > .1, slit=[[fix(v * unit, 1) for v in row[keep]] for row in a],
         cube=[[[fix(v * unit * d, 1) for v in px] for px in q[keep, j, :]] for j in range(q.shape[1])], raised='')


def main(c):
    mf = core.import_misfit()
    import misfit.mock.generate_basic
    mc = c.model('MCMock')
    cases = [x for x in c.emitted(mc)]
    c.rng.shuffle(cases)
    cases = cases if c.thorough else cases[:36]
    with core.quiet():
        while cases:
            c.history()
            take = [cases.pop() for _ in range(min(3, len(cases)))]
            polynomials(c, mf, c.rng, take)
        for _ in range(250 if c.thorough else 25):
            c.history()
            polynomials(c, mf, c.rng, [])
        for _ in range(60 if c.thorough else 8):
            c.history()
            pair(c, mf, c.rng)
        for _ in range(60 if c.thorough else 7):
            c.history()
            through(c, mf, c.rng)
    c.conform('MockTrace', shards=6)
