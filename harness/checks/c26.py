"""C26 the image of the galaxy and its slit."""
import os
import re
import shutil
import tempfile

import numpy as np

import core
import scene
from checks.c13 import sha
from checks.c25 import Book
from core import attempt, fix

QUARTER = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)]
TURN = QUARTER + [(3, 4, 5), (4, -3, 5), (-3, 4, 5), (5, 12, 13), (-12, -5, 13), (15, 8, 17), (24, 7, 25), (-4, -3, 5)]
HIDE = 1 << 30


def deg(t):
    return float(np.degrees(np.arctan2(t[1], t[0])))


def px(v):
    return fix(float(np.ravel(v)[0]), 1000)


def case(rng, way=None, blob=False):
    """One galaxy and one way of showing it."""
    w = way or dict(rot=rng.random() < .6, conv=rng.random() < .5, down=rng.random() < .5, show=rng.random() < .8, n=rng.choice([0, 5]), hasm0=rng.random() < .6, a=rng.choice(TURN if blob else QUARTER))
    C = dict(rot=w['rot'], conv=w['conv'], down=w['down'], show=w['show'], hasm0=w['hasm0'], n=rng.choice([5, 7, 9]) if w['n'] else 0)
    C['pc'], C['ps'], C['pd'] = w['a']
    if not way and not blob and not C['rot']:
        C['pc'], C['ps'], C['pd'] = rng.choice(TURN)
    C['qc'], C['qs'], C['qd'] = rng.choice(TURN)
    odd = C['ps'] != 0 and C['rot']
    while True:
        C['W'] = rng.choice([25, 26, 27]) if blob else rng.choice([9, 10, 11, 12])
        C['H'] = C['W'] if odd and not blob else rng.choice([C['W'], C['W'] + rng.choice([-1, 1, 2])])
        if blob and odd:
            C['H'] = C['W'] + rng.choice([0, 0, 1, -1])
        C['p'] = rng.choice([6000, 8000]) if blob else rng.choice([6000, 10000, 15000])
        C['b'] = rng.choice([18000, 20000, 14000, 15300])
        if (C['H'] * C['p']) % C['b'] > 300 and (C['H'] * C['p']) // C['b'] >= 3 and C['b'] > C['p']:
            break
    off = 2000 if blob else 1500
    C['ser'] = [(n - 1) * 500 + rng.randint(-off, off) for n in (C['W'], C['H'])]
    C['sci'] = [v + rng.choice([0, rng.randint(-900, 900)]) for v in C['ser']]
    C['m0'] = rng.choice([5000, 4870, 5310] if blob else [2000, 2370, 1500, 3120]) if C['hasm0'] else 0
    if blob and C['hasm0'] and C['down']:
        C['m0'] = ((C['H'] * C['p']) // C['b'] - 1) * 500 + rng.randint(-400, 400)
    C['yoff'] = rng.choice([0, 11000, -23000])
    C['wid'], C['len'] = rng.choice([70000, 100000]), rng.choice([300000, 150000])
    C['re'], C['q'] = rng.choice([30000, 42000, 60000]), rng.choice([300, 500, 755, 1000])
    C['kpc'] = rng.choice([0, 4 * C['re'], 8 * C['re'] + 1000])
    C['label'] = rng.choice([None, None, .25])
    C['psf'] = 30000 if blob else rng.choice([30000, 45000])
    C['fimg'] = rng.choice([16000, 20000])
    C['kind'] = rng.choice(['Gaussian', 'Gaussian', 'Moffat'])
    C['explicit'] = rng.random() < .4
    C['fw'] = rng.choice([25000] if blob else [25000, 40000]) if C['explicit'] else int(round(np.sqrt(C['psf'] ** 2 - C['fimg'] ** 2)))
    C['s1'], C['s2'], C['flux'] = 0, 0, 0
    if blob:
        C['s1'], C['s2'] = rng.choice([(4840, 1960), (5290, 2560), (4000, 4000)])
        c, s = C['qc'] / C['qd'], C['qs'] / C['qd']
        yy, xx = np.mgrid[:C['H'], :C['W']]
        at = C['ser'] if C['show'] else C['sci']
        dx, dy = xx - at[0] / 1000., yy - at[1] / 1000.
        u, v = -s * dx + c * dy, c * dx + s * dy
        img = 10. * np.exp(-.5 * (u ** 2 * 1000. / C['s1'] + v ** 2 * 1000. / C['s2']))
        C['flux'] = int(round(img.sum() * 100))
        img = img + .02
    else:
        img = np.array([[rng.randint(200, 3000) for _ in range(C['W'])] for _ in range(C['H'])])
        for _ in range(rng.choice([1, 3])):
            img[rng.randrange(C['H']), rng.randrange(C['W'])] = rng.choice([9000, 20000, 5000, -400, -4000])
        img = img / 1000.
    C['stamp'] = [] if blob else [fix(v, 1000) for v in img.ravel()]
    C['own'], C['save'] = rng.random() < .6, False
    C['name'], C['mask'] = rng.choice([('ab', 'ab'), ('a_b', r'a\_{}b'), ('x_1_y', r'x\_{}1\_{}y')])
    C['field'] = rng.random() < .4
    C['verbose'], C['dither'], C['flat'] = rng.random() < .2, rng.random() < .2, rng.random() < .15
    if C['flat']:
        C['yoff'] = 0
    C['title'] = C['mask'] + '.H.' + ('7' if C['own'] else '')
    return C, img


def header(C, turn):
    from astropy.io import fits
    from astropy.wcs import WCS
    h = fits.Header()
    h['NAXIS'], h['NAXIS1'], h['NAXIS2'] = 2, C['W'], C['H']
    h['CTYPE1'], h['CTYPE2'], h['CRVAL1'], h['CRVAL2'] = 'RA---TAN', 'DEC--TAN', 150.1, 2.2
    h['CRPIX1'], h['CRPIX2'] = 1 + (C['W'] - 1) / 2., C['H'] / 2. - 1.
    d, t = C['p'] / 1e5 / 3600., np.radians(turn)
    h['CD1_1'], h['CD1_2'], h['CD2_1'], h['CD2_2'] = -d * np.cos(t), d * np.sin(t), d * np.sin(t), d * np.cos(t)
    w = WCS(h)
    return h, [[float(v) for v in w.wcs_pix2world(p[0] / 1000. + 1, p[1] / 1000. + 1, 1)] for p in (C['sci'], C['ser'])]


def build(mf, rng, C, img, rows=9):
    turn = rng.choice([0, 0, 30, -57, 90])
    h, (sci, ser) = header(C, turn)
    g = scene.gal(mf, rows=rows, nw=11, re=C['re'] / 1e5)
    g.q, g.ID, g.maskname, g.field = C['q'] / 1000., 7, None if C['field'] else C['name'], C['name'] if C['field'] else None
    g.RA, g.DEC, g.sersicRA, g.sersicDEC = sci[0], sci[1], ser[0], ser[1]
    g.sersicPA = deg((C['qc'], C['qs'])) + rng.choice([0., 180., -180.])
    g.re_kpc = C['kpc'] / 1e5 if C['kpc'] else None
    pa = deg((C['pc'], C['ps'])) + turn
    g.spec2D.slit_PA, g.spec2D.yoffset = pa, C['yoff'] / 1e5
    if C['flat']:
        g.spec2D = None
        g.spec1D = mf.ObsSpectrum1D(slit_PA=pa)
        g.spec1D.slit_PA = pa
    g.set_pstamp(mf.Pstamp(pstamp=np.array(img, dtype=float), pstamp_hdr=h, img_PA=float(turn)))
    i = scene.inst(mf, psf=C['psf'] / 1e5, pix=C['b'] / 1e5, slit=C['wid'] / 1e5, length=C['len'] / 1e5, kind=C['kind'])
    if C['dither']:
        i.PSF.yspace_dither_arc = .7
    m = mf.Imager(pixscale=C['p'] / 1e5, PSF_FWHM=C['fimg'] / 1e5, PSF_type='Gaussian', instrument_name='HST', band='H')
    return g, i, m


def read(ax, fig, C):
    """What one pair of axes shows."""
    im = ax.images[0]
    arr = np.asarray(np.ma.filled(im.get_array(), np.nan), dtype=float)
    lo, hi = im.get_clim()
    dark = 10 ** lo / 2.
    v = 10 ** arr - 3. * dark
    o = dict(shape=list(v.shape), origin=im.origin, dark=fix(dark, 1000), light=fix(10 ** hi / 103., 1000), img=[(HIDE if dark > 0. else 0) if not np.isfinite(x) else fix(x, 1000) for x in v.ravel()],
             xlim=[px(x) for x in ax.get_xlim()], ylim=[px(x) for x in ax.get_ylim()], slit=[], segs=[], ell=[], title=ax.get_title(), ba=[], blob=[0] * 6)
    for l in ax.lines:
        pts = [[px(a), px(b)] for a, b in zip(l.get_xdata(), l.get_ydata())]
        if len(pts) == 5:
            o['slit'] = pts
        elif len(pts) == 2:
            o['segs'].append(pts)
    from matplotlib.patches import Ellipse
    for p in list(ax.patches) + list(ax.artists):
        if isinstance(p, Ellipse):
            a = np.radians(float(np.ravel(p.get_angle())[0]))
            x, y = p.get_center()
            o['ell'] = [px(x), px(y), px(p.width), px(p.height), fix(np.cos(a), 10000), fix(np.sin(a), 10000)]
    o['notes'] = []
    for t in ax.texts:
        s = t.get_text()
        if s.startswith('b/a'):
            o['ba'] = [int(round(float(x) * 10000)) for x in re.findall(r'=([\d.]+)', s)]
        else:
            x, y = t.xy
            o['notes'].append(dict(text=s, x=px(x), y=px(y)))
    return o, v


def blob(o, v, C):
    """Flux, distance from the marked place and second moments of the one source."""
    if C['stamp']:
        return
    f = C['b'] / C['p'] if C['down'] else 1.
    at = [(o['ell'][0] / 1000., o['ell'][1] / 1000.)] if o['ell'] else [(sum(o['xlim']) / 2000., None)]
    x0, y0 = at[0]
    yy, xx = np.mgrid[:v.shape[0], :v.shape[1]]
    if y0 is None:
        y0 = (C['m0'] + 500) / 1000. * C['b'] / (C['b'] if C['down'] else C['p']) + o['ylim'][0] / 1000. if C['hasm0'] else sum(o['ylim']) / 2000.
    w = np.where((xx - x0) ** 2 + (yy - y0) ** 2 < (10. / f) ** 2, v - .02, 0.)
    w = np.where(np.isfinite(w), w, 0.)
    s = w.sum()
    cx, cy = (w * xx).sum() / s, (w * yy).sum() / s
    o['blob'] = [fix(s * f * f, 100), px(cx - x0), px(cy - y0)] + [fix((w * a).sum() / s, 1000) for a in ((xx - cx) ** 2, (xx - cx) * (yy - cy), (yy - cy) ** 2)]


KEEP = ('rot', 'conv', 'down', 'show', 'hasm0', 'n', 'pc', 'ps', 'pd', 'qc', 'qs', 'qd', 'W', 'H', 'p', 'b', 'ser', 'sci', 'm0', 'yoff', 'wid', 'len', 're', 'q', 'kpc', 'psf', 'kind', 'fw',
        's1', 's2', 'flux', 'stamp', 'own', 'save', 'title')


def said(C, label):
    return dict({k: C[k] for k in KEEP}, label=fix(label or 0, 1000))


def show(c, mf, C, img, d):
    import matplotlib.pyplot as plt
    from misfit.plot import plot_image_slit
    rng = c.rng
    got = {}

    def go():
        got['g'], got['i'], got['m'] = g, i, m = build(mf, rng, C, img)
        before = sha([g, i, m])
        kw = dict(galaxy=g, instrument=i, instrument_img=m, rotate=C['rot'], convolve=C['conv'], downsample=C['down'], show_galfit=C['show'], verbose=C['verbose'], shift_label=C['label'])
        if C['explicit'] and C['conv']:
            kw['conv_sigma'] = C['fw'] / 1e5 / (2. * np.sqrt(2. * np.log(2.)))
        if C['hasm0']:
            kw['m0'] = C['m0'] / 1000.
        if C['n']:
            kw['n_spatial_pixels'] = C['n']
        path = os.path.join(d, 'a.png')
        if C['own']:
            C['save'] = rng.random() < .8
            if C['save']:
                kw.update(saveToFile=True, fileout=path)
        else:
            fig, ax = plt.subplots(1)
            kw['ax'] = ax
        with Book() as b:
            grabbed = {}
            real = plt.subplots

            def subplots(*a, **k):
                r = real(*a, **k)
                grabbed['ax'] = r[1]
                return r
            plt.subplots, hold = subplots, plt.show
            plt.show = lambda *a, **k: None
            try:
                plot_image_slit(**kw)
            finally:
                plt.subplots, plt.show = real, hold
            if C['own']:
                ax = grabbed['ax']
            o, v = read(ax, ax.figure, C)
            blob(o, v, C)
            o['saved'] = os.path.exists(path)
        if os.path.exists(path):
            os.remove(path)
        o['same'] = sha([g, i, m]) == before
        if C['own']:
            C['title'] = C['mask'] + '.H.7'
        return o
    with core.quiet():
        o, ex = attempt(go)
        if ex and os.environ.get('DBG'):
            import traceback, sys
            try: go()
            except Exception: traceback.print_exc(file=sys.stderr)
    c.ev('shown', raised=ex, C=said(C, C['label']), out=o if not ex else {})


def whole(c, mf, d):
    """The images of the figure of a fit."""
    rng = c.rng
    C, img = case(rng, way=dict(rot=True, conv=False, down=False, show=True, n=1, hasm0=True, a=rng.choice(QUARTER)))
    C.update(flat=False, dither=False, own=False, label=None, explicit=False, fw=int(round(np.sqrt(C['psf'] ** 2 - C['fimg'] ** 2))), n=rng.choice([5, 6, 7]))
    shift = rng.choice([0., .5, -.75])
    model = rng.random() < .7
    out = []

    def go():
        g, i, m = build(mf, rng, C, img, rows=C['n'])
        g.delt_PA = 20.
        scene.data(g, np.random.RandomState(1).rand(C['n'], 11), np.ones((C['n'], 11)))
        st = mf.Theta2DSettingsFiducial(theta=np.array([100., .3, 50., 0., 1.5]), theta_vary=np.array([True, True, True, True, False]),
                                        theta_bounds=[[0., 300.], [.02, 1.], [10., 100.], [-1., 1.], [1.4995, 1.5005]], usetex=False)
        f = mf.FitEmissionLines2D(galaxy=g, instrument=i, instrument_img=m, thetaSettings=st, linegroup_name='Halpha', skip_fit_prep_calcs=True, usetex=False)
        f.kinModelOptions.nSubpixels = 1
        if model:
            f.setup_model()
            f.set_bestfit([100., .3, 50., shift])
        f.mcmcOptions.filename_plot_bestfit = os.path.join(d, 'w.png')
        before = sha([g, i, m])
        with Book() as b:
            f.plot_bestfit_model()
            fig = b.pages[-1][1]
            for ax, both in ((fig.axes[0], False), (fig.axes[1], True)):
                D = dict(C, conv=both, down=both, m0=fix(g.spec2D.m0 + (shift if model else 0.), 1000))
                o, v = read(ax, fig, D)
                blob(o, v, D)
                o.update(saved=False, same=sha([g, i, m]) == before)
                out.append((D, o))
        os.remove(os.path.join(d, 'w.png'))
    with core.quiet():
        _, ex = attempt(go)
        if ex and os.environ.get('DBG'):
            import traceback, sys
            try: go()
            except Exception: traceback.print_exc(file=sys.stderr)
    if ex:
        c.ev('shown', raised=ex, C=said(C, None), out={})
    for D, o in out:
        c.ev('shown', raised='', C=said(D, None), out=o)


def mean(c):
    from misfit.plot import box_integrate
    rng = c.rng
    n, k = rng.randrange(2, 14), rng.randrange(2, 9)
    p, b = rng.choice([1000, 6000, 10000, 15000]), rng.choice([3000, 6000, 9000, 12000, 20000])
    o, q = rng.choice([0, 500, (n - 1) * 500, rng.randint(-2000, 9000)]), rng.choice([0, 500, (k - 1) * 500, rng.randint(-3000, 9000)])
    v = [rng.randint(-3000, 20000) for _ in range(n)]
    r, ex = attempt(box_integrate, (np.arange(n) - o / 1000.) * p / 1e5, np.array(v) / 1000., (np.arange(k) - q / 1000.) * b / 1e5)
    c.ev('mean', raised=ex, v=v, o=o, p=p, n=k, c=q, b=b, got=[fix(x, 1000) for x in r] if not ex else [])


def angles(c, mf):
    import misfit.plot.plot_utils as pu
    from astropy.coordinates import SkyCoord
    from astropy.io import fits
    rng = c.rng
    gal, slit, img = rng.choice([rng.randint(-1800, 1800), rng.randrange(-1800, 1801, 450)]), rng.choice([rng.randint(-3600, 3600), rng.randrange(-3600, 3601, 450)]), rng.choice([0, rng.randint(-1800, 1800)])
    cd = rng.choice([[0, 0], [1, 0], [0, 1], [0, -1], [-1, 0], [3, 4], [3, -4], [-3, 4], [-5, -12]])
    sep = rng.choice([[1, 0], [0, 1], [-1, 0], [0, -1], [3, 4], [4, -3], [-12, 5], [-2, -7]])
    pas = [rng.choice([rng.randint(-1799, 3600), rng.randrange(-900, 3601, 900)]) for _ in range(4)]

    def go():
        g = scene.gal(mf, rows=5, nw=5, generate=False)
        g.sersicPA, g.spec2D.slit_PA = gal / 10., slit / 10.
        g.set_pstamp(mf.Pstamp(img_PA=img / 10.))
        g.calculate_slit_object_delta_PA()
        h = fits.Header()
        if cd != [0, 0] or rng.random() < .5:
            for k, v in zip(('CD2_2', 'CD2_1'), cd):
                if v or rng.random() < .5:
                    h[k] = v * 1e-5
        a = np.radians(pu.pstamp_position_angle(h))
        p1, p2 = SkyCoord(10., 0.001, unit='deg'), SkyCoord(10. + sep[1] * 1e-4, .001 + sep[0] * 1e-4, unit='deg')
        b = pu.pos_angle(p1, p2, units='radians')
        d = np.radians(pu.pos_angle(p1, p2))
        assert abs(np.exp(1j * b) - np.exp(1j * d)) < 1e-9
        kind = rng.choice([float, np.float64])
        s = [dict(pa=p, x=int(pu.x_sign_pos_angle(kind(p / 10.))), y=int(pu.y_sign_pos_angle(kind(p / 10.)))) for p in pas]
        return fix(g.delt_PA, 10), fix(g.delt_PA_abs, 10), [fix(np.cos(a), 10000), fix(np.sin(a), 10000)], [fix(np.cos(b), 10000), fix(np.sin(b), 10000)], s
    r, ex = attempt(go)
    if ex:
        r = 0, 0, [], [], []
    c.ev('angles', raised=ex, gal=gal, slit=slit, img=img, delt=r[0], abs=r[1], cd=cd, pa=r[2], sep=sep, dir=r[3], signs=r[4])


def main(c):
    mf = core.import_misfit()
    mc = c.model('MCStamp')
    ways = c.emitted(mc)
    c.rng.shuffle(ways)
    d = tempfile.mkdtemp()
    try:
        for n in range(260 if c.thorough else 26):
            c.history()
            ws = [ways.pop() for _ in range(min(len(ways), 1))]
            for w in ws:
                C, img = case(c.rng, way=w)
                show(c, mf, C, img, d)
            C, img = case(c.rng, blob=True)
            show(c, mf, C, img, d)
            C, img = case(c.rng)
            show(c, mf, C, img, d)
            if n % 4 == 0:
                whole(c, mf, d)
            for _ in range(8):
                mean(c)
                angles(c, mf)
    finally:
        shutil.rmtree(d)
    c.assumptions.append('images turned by other angles than quarters are compared through flux, place and second moments of one source')
    c.conform('StampTrace', shards=4)
