"""Small galaxies, instruments and fits for driving the 2D model."""
import numpy as np


def inst(mf, res=39., slit=.7, psf=.7, pix=.1799, length=None, kind='Gaussian', dither=None, n=9, **kw):
    i = mf.Spectrograph(instrument_name='MOSFIRE', PSF_type=kind, PSF_FWHM=psf, pixscale=pix, slit_width=slit,
                        slit_length=length or n * pix, yspace_dither_arc=dither, **kw)
    i.instrument_resolution = res
    i.band = 'K'
    return i


def gal(mf, z=1.5, n=1., re=.6, q=.5, q0=.19, pa=0., rows=9, nw=11, dl=4., lam=None, group='Halpha', m0=None, generate=True, **kw):
    g = mf.Galaxy(z=z, ID='g', n=n, re_arcsec=re, delt_PA=pa, q=q, q0=q0, re_mass_arcsec=re, q_mass=q, generate_model=generate, **kw)
    lc = (lam or dict(Halpha=6564.60, OII=3728.5, SII=6725., OIII=5008.24, Hbeta=4862.68, NII=6585.27)[group]) * (1. + z)
    wave = lc + dl * (np.arange(nw) - (nw - 1) / 2.)
    s = mf.ObsSpectrum2D(band='K', wave=wave, linegroup_name=group, no_continuum_subtraction=True)
    s.shape = [rows, nw]
    s.initialize_lineset()
    s.m0 = (rows - 1) / 2. if m0 is None else m0
    s.ypos = s.m0
    g.set_spectrum_2D(s)
    return g


def data(g, flux, err, mask=None, sky=None, weight=None):
    """Attach fit-ready arrays to a galaxy's spectrum."""
    g.generate_model = False
    s = g.spec2D
    s.flux, s.flux_err = np.array(flux, dtype=float), np.array(err, dtype=float)
    s.spec_mask = np.ones(s.flux.shape) if mask is None else np.array(mask, dtype=float)
    s.wh_nosky = np.arange(s.flux.shape[1]) if sky is None else np.array(sky)
    s.fitting_weight_matrix = np.ones(s.flux.shape) if weight is None else np.array(weight, dtype=float)
    return g


def settings(mf, theta, vary, bounds=None, **kw):
    return mf.Theta2DSettingsFiducial(theta=np.array(theta, dtype=float), theta_vary=np.array(vary), theta_bounds=bounds, usetex=False, **kw)


def kin(mf, g, theta, vary, opts=None, no_scale=True, kp=None, ip=None, bounds=None, **kw):
    return mf.KinModel2D(g, thetaSettings=settings(mf, theta, vary, bounds), kinProfile=kp or mf.KinProfileFiducial(),
                         intensityProfile=ip or mf.IntensityProfileFiducial(g), kinModelOptions=opts or mf.KinModel2DOptions(), no_scale=no_scale, **kw)
