"""Shared machinery: environment, TLC runner, event log, verdicts, evidence.

Exit codes: 0 = property held on everything explored, 1 = violation (with the
VIOLATION line), 2 = the machinery itself failed.
"""
import copy
import json
import os
import random
import re
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
TMP = os.environ.get('VERIF_TMP') or '/tmp'
EVID = os.path.join(VERIF, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


OUTSIDE = r'Overflow when computing|out of domain|not in the domain|outside the domain|which is out of bounds|Attempted to (apply|access|select|compare|check equality|compute)|non-existent|second argument of %|must be a positive'


class MachineryError(Exception):
    pass


class Hang(BaseException):
    pass


def import_misfit():
    """Import misfit from /repo's working tree (never stale bytecode)."""
    import warnings
    warnings.filterwarnings('ignore')
    import numpy, scipy.stats, lmfit, emcee, astropy.io.ascii, h5py, matplotlib  # noqa
    numpy.seterr(all='ignore')
    sys.pycache_prefix = os.path.join(TMP, 'pyc')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import misfit
    f = os.path.realpath(misfit.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise MachineryError('misfit imported from %s' % f)
    return misfit


def tlc(module, cfg=None, env=None, workers='auto', extra=(), timeout=600, dump=None):
    """Run TLC on SPEC/module.tla; returns the stdout text and the counters."""
    cfg = cfg or module + '.cfg'
    meta = os.path.join(TMP, 'tlc_%s_%d_%d' % (module, os.getpid(), random.Random().randrange(10**9)))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-Xmx6g', '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC']
    if workers == 1:
        cmd.append('-XX:TieredStopAtLevel=1')
    cmd += ['-cp', CP, 'tlc2.TLC', '-config', cfg, '-metadir', meta, '-noGenerateSpecTE',
            '-workers', str(workers), '-deadlock']
    cmd += list(extra) + [module + '.tla']
    t = time.time()
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    out = p.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    mm = None
    for mm in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
        pass
    st = (int(mm.group(1)), int(mm.group(2))) if mm else (0, 0)
    return dict(rc=p.returncode, out=out, transitions=st[0], states=st[1], wall=time.time() - t)


class Check:
    """One property's run."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(seed * 7919 + 17)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.violations = []     # (clause, replay record)
        self.samples = []
        self.log = []            # current trace (list of dicts)
        self.h = 0
        self.explain = []
        self.assumptions = []
        self.kinds = {}
        self.distinct = set()
        self.tag = ''

    # ----- recording real executions ------------------------------------
    def history(self):
        self.h += 1
        return self.h

    def ev(self, k, **kw):
        d = dict(h=self.h, k=k)
        d.update(kw)
        self.log.append(d)
        self.kinds[k] = self.kinds.get(k, 0) + 1
        return d

    def violation(self, clause, rec):
        self.violations.append((clause, rec))

    # ----- design model checking -----------------------------------------
    def model(self, module, cfg=None, workers='auto', timeout=600, env=None, extra=()):
        """Exhaustive check of a design model.  A failure is a machinery error:
        the specification does not satisfy its own invariants."""
        r = tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra)
        if r['rc'] != 0:
            raise MachineryError('TLC on %s failed (rc %d):\n%s' % (module, r['rc'], r['out'][-6000:]))
        self.states += r['states']
        self.transitions += r['transitions']
        self.explain.append('%s[%s]: %d distinct states, %d transitions, %.1fs'
                            % (module, cfg or '', r['states'], r['transitions'], r['wall']))
        return r

    def emitted(self, r, tag='CASE'):
        """Values printed by PrintT(<<tag, ToJson(x)>>) during a TLC run."""
        res = []
        for line in r['out'].splitlines():
            if line.startswith('<<"%s", ' % tag):
                s = line[len('<<"%s", ' % tag):-2]
                res.append(json.loads(json.loads(s)))
        return res

    # ----- conformance ----------------------------------------------------
    def conform(self, module, cfg=None, timeout=800, what='', retry=3, shards=1):
        """Check the recorded trace against the specification (its histories in parallel)."""
        hs = sorted({d['h'] for d in self.log})
        if shards > 1 and len(hs) > 1:
            k = min(shards, len(hs))
            part = {h: i % k for i, h in enumerate(hs)}
            subs = []
            for i in range(k):
                sub = copy.copy(self)
                sub.log = [d for d in self.log if part[d['h']] == i]
                sub.violations, sub.explain, sub.samples, sub.distinct = [], [], [], set()
                sub.states = sub.transitions = sub.traces = sub.events = 0
                sub.tag = '%s.%d' % (self.tag, i)
                subs.append(sub)
            self.log = []
            with ThreadPoolExecutor(k) as ex:
                list(ex.map(lambda x: x.conform(module, cfg, timeout, what, retry), subs))
            for sub in subs:
                self.violations += sub.violations
                self.explain += sub.explain
                self.samples += sub.samples[:1]
                self.distinct |= sub.distinct
                for a in ('states', 'transitions', 'traces', 'events'):
                    setattr(self, a, getattr(self, a) + getattr(sub, a))
            return None
        if not self.log:
            raise MachineryError('no events recorded for %s' % module)
        tf = os.path.join(TMP, 'trace_%s_%s%s.ndjson' % (self.pid, module, self.tag))
        vf = os.path.join(TMP, 'verdict_%s_%s%s.json' % (self.pid, module, self.tag))
        with open(tf, 'w') as f:
            for d in self.log:
                f.write(json.dumps(d) + '\n')
        if os.path.exists(vf):
            os.remove(vf)
        r = tlc(module, cfg, env=dict(TRACE_FILE=tf, VERDICT_FILE=vf), workers=1, timeout=timeout)
        if not os.path.exists(vf):
            # the specification cannot even evaluate the recorded event: a value
            # or shape outside anything it allows (never so on conforming events)
            at = re.findall(r'^/\\ tkl = (\d+)', r['out'], re.M)
            if not at or not re.search(OUTSIDE, r['out']):
                raise MachineryError('trace validation of %s gave no verdict:\n%s' % (module, errors(r['out'])))
            line = int(at[-1])
            rec = self.log[line - 1]
            self.violation('outside the specification', dict(module=module, line=line, event=rec, text=errors(r['out'])[:3000],
                                                             history=[d for d in self.log if d['h'] == rec['h']]))
            self.log = [d for d in self.log if d['h'] != rec['h']]
            if retry and self.log:
                return self.conform(module, cfg, timeout, what, retry - 1)
            self.log = []
            return None
        v = json.load(open(vf))
        if v['consumed'] != len(self.log) or r['rc'] != 0:
            raise MachineryError('trace of %s not consumed: %s of %d\n%s'
                                 % (module, v['consumed'], len(self.log), r['out'][-4000:]))
        self.states += r['states']
        self.transitions += r['transitions']
        nh = len({d['h'] for d in self.log})
        self.traces += nh
        self.events += len(self.log)
        self.explain.append('%s: %d recorded events in %d histories validated, %.1fs'
                            % (module, len(self.log), nh, r['wall']))
        for d in self.log[:: max(1, len(self.log) // 4)][:5]:
            s = json.dumps(d)
            self.samples.append(s if len(s) < 1500 else s[:1500] + '...')
        for b in v['bad']:
            line = b['line']
            rec = self.log[line - 1]
            hist = [d for d in self.log if d['h'] == rec['h']]
            for c in sorted(b['clauses']):
                self.violations.append((c, dict(module=module, line=line, event=rec, history=hist)))
        for d in self.log:
            self.distinct.add(json.dumps({k: x for k, x in d.items() if k != 'h'}, sort_keys=True))
        self.log = []
        return v

    # ----- verdict ----------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        real, hit = [], {}
        for clause, rec in self.violations:
            k = match_known(known, clause, rec)
            if k is not None:
                hit.setdefault(k, 0)
                hit[k] += 1
            else:
                real.append((clause, rec))
        for k in hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]['what']))
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events,
                                distinct_events=len(self.distinct),
                                events_by_kind=self.kinds,
                                samples=self.samples[:12] or ['(none)'],
                                explanation='; '.join(self.explain)),
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(real))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        path = os.path.join(EVID, '%s.replay.json' % self.pid)
        if os.path.exists(path):
            os.remove(path)
        if not real:
            print('OK property=%s states=%d traces=%d events=%d wall=%.1fs'
                  % (self.pid, self.states, self.traces, self.events, time.time() - self.t0))
            return 0
        seen = {}
        for clause, rec in real:
            seen[clause] = seen.get(clause, 0) + 1
        first = {}
        for clause, rec in real:
            first.setdefault(clause, rec)
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, clauses=seen,
                           first=first), f, indent=1, default=str)
        print('failing clauses: ' + ', '.join('%s x%d' % (c, n) for c, n in sorted(seen.items())))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1


def errors(out):
    """The telling part of a TLC failure."""
    L = [x for x in out.splitlines() if not x.startswith(('Parsing', 'Semantic', 'Linting', '/\\', 'State '))]
    k = [i for i, x in enumerate(L) if 'Error' in x or 'rror:' in x]
    return '\n'.join(L[max(0, k[0] - 2):][:40] if k else L[-30:])


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def match_known(known, clause, rec):
    for i, k in enumerate(known):
        if k['clause'] == clause and all(rec.get('event', {}).get(a) == b for a, b in k.get('match', {}).items()):
            return i
    return None


# --------------------------------------------------------------------------
class Raised:
    """The outcome of a call that raised."""
    def __init__(self, e, tb):
        self.name = type(e).__name__
        self.text = str(e)[:200]
        self.tb = tb


def attempt(fn, *a, **kw):
    """Call into the code under test; returns (result, '') or (None, 'ExcName')."""
    try:
        return fn(*a, **kw), ''
    except Hang:
        raise
    except Exception as e:  # noqa
        return None, type(e).__name__


class quiet:
    """Silence the code under test's prints."""
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        return self

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o
        return False


NAN, PINF, NINF = 999999, 999998, -999998


def num(x):
    """Exact integer or sentinel of a float that is meant to hold an integer."""
    x = float(x)
    if x != x:
        return NAN
    if x == float('inf'):
        return PINF
    if x == float('-inf'):
        return NINF
    r = int(round(x))
    if abs(x - r) > 1e-6 * max(1., abs(x)) or abs(r) > 2**30:
        return 777777      # not an integer: never equal to a specified value
    return r


def fix(x, scale=1000000, cap=2**30):
    """Fixed point integer of x; NaN/Inf/too large -> sentinels above cap."""
    x = float(x)
    if x != x:
        return cap + 1
    v = x * scale
    if v > cap:
        return cap + 2
    if v < -cap:
        return -cap - 2
    return int(round(v))


def ppm(a, b, scale=None):
    """Largest |a-b| relative to the scale of b, in parts per million (capped)."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 10**9
    if a.size == 0:
        return 0
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    if not np.array_equal(na, nb):
        return 10**9
    if na.all():
        return 0
    s = scale if scale is not None else np.abs(b[~nb]).max()
    d = np.abs(a[~na] - b[~nb]).max()
    if d == 0:
        return 0
    if s == 0:
        return 10**9
    return int(min(10**9, np.ceil(d / s * 1e6)))


def run(pid, fn, tier, seed):
    import signal
    c = Check(pid, tier, seed)
    limit = int(os.environ.get('VERIF_LIMIT', '820' if tier == 'quick' else '12000'))

    def onalarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        try:
            fn(c)
        except MachineryError:
            raise
        except Hang:
            if not c.violations:
                c.violation('terminates', dict(event={}, text='no answer within %d s' % limit))
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out')
        except Exception as e:
            tb = traceback.format_exc()
            sys.stderr.write(tb)
            # an exception leaving the code under test (or its results being
            # unusable by a driver that runs on the specified behaviour)
            c.violation('raises:' + type(e).__name__, dict(event={}, traceback=tb))
        signal.alarm(0)
        return c.finish()
    except MachineryError as e:
        sys.stderr.write('MACHINERY ERROR: %s\n' % e)
        return 2
