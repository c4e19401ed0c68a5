"""C01 wavelength trimming."""
import os

import numpy as np

import core
from core import attempt, num, TMP


def rows(x):
    if x is None:
        return []
    x = np.asarray(x)
    if x.ndim == 1:
        x = x[None, :]
    return [[num(v) for v in r] for r in x]


def proj(s, opz, dim):
    d = dict(none={})
    for name, at in (('wave', 'wave'), ('flux', 'flux'), ('err', 'flux_err'), ('mask', 'spec_mask'),
                     ('weight', 'spec_weight')):
        v = getattr(s, at, None)
        d['none'][name] = v is None
        if name == 'wave':
            d['wave'] = [num(x * 1000) for x in v] if v is not None else []
        else:
            d[name] = rows(v)
    ow, rw = getattr(s, 'obswave', None), getattr(s, 'restwave', None)
    d['obs'] = [num(x * 1000) for x in ow] if ow is not None else []
    d['rest'] = [num(x * opz * 1000) for x in rw] if rw is not None else []
    d['incl'] = rows(getattr(s, 'flux_incl_cont', None))
    d['cont'] = rows(getattr(s, 'cont_model', None))
    return d


class World:
    def __init__(self, c, mf, dim, wave, opz, nrow=3, with_cont=False, rng=None):
        """wave in units of 0.001 A; arrays carry their own coordinates."""
        self.c, self.mf, self.dim, self.opz = c, mf, dim, opz
        self.z = opz[0] / opz[1] - 1.
        nw = len(wave)
        w = np.array(wave, dtype=float) / 1000.
        self.gal = mf.Galaxy(z=self.z)
        base = dict(wave=[int(x) for x in wave])
        if dim == 1:
            nrow = 1
        j = np.arange(nw)[None, :]
        i = np.arange(nrow)[:, None]
        flux = 100. * i + j + 1
        err = 10000. + 100 * i + j
        mask = ((i + j * 7 + rng.randrange(3)) % 3 > 0).astype(float)
        weight = 20000. + 100 * i + 3 * j
        if dim == 1:
            s = mf.ObsSpectrum1D(wave=w, flux=flux[0], flux_err=err[0], spec_mask=mask[0])
            self.gal.set_spectrum_1D(s)
        else:
            s = mf.ObsSpectrum2D(wave=w, flux=flux, flux_err=err, spec_mask=mask, spec_weight=weight,
                                 linegroup_name='Halpha', band='K')
            # the weight/mask arrays are (re)initialised by the class itself
            s.spec_weight, s.spec_mask = weight, mask
            self.gal.set_spectrum_2D(s)
        base.update(flux=rows(flux), err=rows(err), mask=rows(mask), weight=rows(weight), incl=[], cont=[])
        if dim == 2:
            if with_cont:
                s.flux_incl_cont = 30000. + flux
                s.cont_model = 40000. + flux
                base.update(incl=rows(30000. + flux), cont=rows(40000. + flux))
            else:
                base.update(incl=[], cont=[])
        self.objs = {1: s}
        c.history()
        c.ev('new', dim=dim, base=base)

    def alive(self, o):
        return self.objs[o] is not None and self.objs[o].wave is not None

    def trim(self, q, custom=None):
        s = self.objs[q['o']]
        kw = {}
        f = 1000.
        if q['obs']:
            kw['trim_obswave_range'] = [q['obs'][0] / f, q['obs'][1] / f]
        if q['rest']:
            kw['trim_restwave_range'] = [q['rest'][0] / f, q['rest'][1] / f]
        if q['line']:
            kw['linename'] = q['line']
        if custom:
            kw['param_restwave_filename'] = custom
        if self.dim == 2:
            kw['inplace'] = q['inplace']
        with core.quiet():
            r, ex = attempt(s.trim_spectrum_wavelength, self.gal, **kw)
        op = self.opz[0] / self.opz[1]
        if not ex and r is None:
            ex = 'ReturnedNothing'
        self.c.ev('trim', q=q, raised=ex, orig=proj(s, op, self.dim),
                  out=proj(r, op, self.dim) if not ex else proj(s, op, self.dim))
        if not ex:
            if self.dim == 2 and q['inplace']:
                # in place: the object itself must have been trimmed
                self.objs[q['o']] = s
            else:
                self.objs[q['res']] = r
        return not ex


def main(c):
    mf = core.import_misfit()
    rng = c.rng
    c.model('MCTrim')
    r = c.model('MCTrim', 'MCTrimEmit.cfg', workers=1)
    cases = c.emitted(r)
    if not cases:
        raise core.MachineryError('no cases emitted')
    rng.shuffle(cases)
    n = len(cases) if c.thorough else 700
    wave = [10000, 20000]
    for case in cases[:n]:
        w = World(c, mf, case['dim'], wave, (2, 1), nrow=2, with_cont=rng.random() < .5, rng=rng)
        for q in case['ops']:
            if q['o'] in w.objs and w.alive(q['o']):
                if not w.trim(q):
                    pass
    # long random histories on larger grids
    for _ in range(1500 if c.thorough else 160):
        dim = rng.choice([1, 2, 2])
        opz = rng.choice([(1, 1), (2, 1), (4, 1), (3, 2), (7, 2)])
        nw = rng.randrange(1, 25)
        step = rng.choice([1, 2, 5]) * 1000 * opz[0]
        start = rng.randrange(1, 9) * 10000 * opz[0]
        wv = [start + step * i for i in range(nw)]
        if rng.random() < .3:      # uneven grid
            wv = sorted(rng.sample(range(start // 1000, start // 1000 + 6 * nw), nw))
            wv = [x * 1000 for x in wv]
        w = World(c, mf, dim, wv, opz, nrow=rng.randrange(1, 5), with_cont=rng.random() < .6, rng=rng)
        for k in range(rng.randrange(1, 7)):
            live = [o for o in w.objs if w.alive(o)]
            if not live:
                break
            o = rng.choice(live)

            def edge():
                return rng.choice(wv) + rng.choice([0, 0, 0, 500, -500, 12000, -12000])
            a, b = edge(), edge()
            if rng.random() < .9:
                a, b = min(a, b), max(a, b)
            if rng.random() < .3:
                a = min(a, wv[0])
            if rng.random() < .3:
                b = max(b, wv[-1])
            q = dict(o=o, res=100 + k, inplace=rng.random() < .5, line='', n=opz[0], d=opz[1], obs=[], rest=[])
            kind = rng.choice(['obs', 'rest', 'rest', 'obs', 'both', 'none'])
            if kind in ('obs', 'both'):
                q['obs'] = [a, b]
            if kind in ('rest', 'both'):
                ra, rb = rng.choice(wv), rng.choice(wv)
                g = opz[0]
                ra, rb = [(x // (1000 * g)) * 1000 * opz[1] + rng.choice([0, 0, 500]) for x in (min(ra, rb), max(ra, rb))]
                q['rest'] = [ra, rb]
            if kind == 'none':
                q['line'] = rng.choice(['', 'NoSuchLine'])
                if q['line'] == '' and dim == 1:
                    q['line'] = 'NoSuchLine'
            w.trim(q)
    # tabulated line ranges
    for dim, names in ((1, ['HA6565', 'HB4863', 'OIII5008', 'Halpha', 'Hbeta', 'OIII', 'NII6585', 'Nothing']),
                       (2, ['HA6565', 'HB4863', 'OIII5008', 'OIII4960', 'Nothing'])):
        for name in names:
            for opz in ((1, 1), (7, 2)):
                for inp in (True, False):
                    for prefer in ('', 'obs', 'rest'):
                        lo = 4700 if 'HA' not in name and name != 'Halpha' else 6400
                        hi = lo + 480
                        wv = [int((x * 1000 + 137) * opz[0] // opz[1]) for x in np.arange(lo, hi, 7)]
                        w = World(c, mf, dim, wv, opz, nrow=2, rng=rng)
                        q = dict(o=1, res=2, inplace=inp, line=name, n=opz[0], d=opz[1], obs=[], rest=[])
                        if prefer:
                            a, b = wv[5], wv[30]
                            if prefer == 'obs':
                                q['obs'] = [a, b]
                            else:
                                q['rest'] = [(lo + 50) * 1000, (lo + 90) * 1000]
                        w.trim(q)
    c.assumptions.append('wavelengths are multiples of 0.001 A, 1+z is a small rational')
    c.conform('TrimTrace')
