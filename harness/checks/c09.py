"""C09 misalignment angle."""
import numpy as np

import core
from core import attempt

U = 1000
UNSET = 999999


def build(mf, gal, slit, img, model, delt):
    g = mf.Galaxy(z=1., generate_model=model, sersicPA=gal / U, delt_PA=None if delt == UNSET else delt / U)
    g.generate_model = model
    g.set_pstamp(mf.Pstamp(img_PA=img / U))
    s = mf.ObsSpectrum2D(wave=np.arange(5.) + 13000, flux=np.ones((3, 5)), flux_err=np.ones((3, 5)), slit_PA=slit / U)
    g.set_spectrum_2D(s)
    return g


def q(x):
    x = float(x)
    if x != x or abs(x) > 1e5:
        return 888888
    return int(round(x * U))


def calc(c, g, via):
    _, ex = attempt(g.calculate_slit_object_delta_PA)
    d = dict(raised=ex, tol=2)
    if not ex:
        d.update(out=q(g.delt_PA), outabs=q(g.delt_PA_abs), attrs=[q(g.sersicPA), q(g.spec2D.slit_PA), q(g.pstamp.img_PA)])
    c.ev('calc', **d)


def setev(c, g, delt=UNSET + 1):
    c.ev('set', gal=q(g.sersicPA), slit=q(g.spec2D.slit_PA), img=q(g.pstamp.img_PA), model=bool(g.generate_model), delt=delt)


def main(c):
    mf = core.import_misfit()
    rng = c.rng
    c.model('MCAngles')
    step = 15 if not c.thorough else 5
    for gal in range(-180, 181, step):
        for slit in range(-180, 361, step if c.thorough else 45):
            for img in ((0, 37, -90) if not c.thorough else (0, 37, -90, 180, 301)):
                c.history()
                g = build(mf, gal * U, slit * U, img * U, False, UNSET)
                setev(c, g, UNSET)
                calc(c, g, 'm')
    for _ in range(3000 if c.thorough else 500):
        c.history()
        pick = lambda: rng.choice([rng.randrange(-400 * U, 400 * U), U * rng.randrange(-24, 25) * 15, U * rng.choice([0, 90, -90, 45, 180])])
        model = rng.random() < .3
        delt = rng.choice([UNSET, rng.randrange(-200 * U, 200 * U)]) if not model else rng.randrange(-200 * U, 200 * U)
        g = build(mf, pick(), pick(), pick(), model, delt)
        setev(c, g, delt)
        calc(c, g, 'm')
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r < .25:                       # rotate image and slit together
                a = rng.randrange(-360 * U, 360 * U) / U
                g.pstamp.img_PA += a
                g.spec2D.slit_PA += a
            elif r < .5:                      # half turns
                if rng.random() < .5:
                    g.sersicPA += 180 * rng.choice([-1, 1, 2])
                else:
                    g.spec2D.slit_PA += 180 * rng.choice([-1, 1, 2])
            elif r < .65:
                g.sersicPA = pick() / U
            elif r < .8:
                g.setAttr(sersicPA=pick() / U)
            elif r < .9:
                g = g.copy() if hasattr(g, 'copy') else g
            # keep the exact attribute values on the integer grid
            g.sersicPA, g.spec2D.slit_PA, g.pstamp.img_PA = q(g.sersicPA) / U, q(g.spec2D.slit_PA) / U, q(g.pstamp.img_PA) / U
            setev(c, g)
            calc(c, g, 'm')
    c.conform('AnglesTrace')
