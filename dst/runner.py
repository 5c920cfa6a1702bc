"""Seeded search driver: forks one child per simulated run, collects results,
confirms, minimises and records violations, writes evidence."""
import gc
import hashlib
import importlib
import io
import json
import os
import random
import re
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DST_REPO', '/repo')
ROOT = os.path.join(REPO, 'falco')
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')

RT = time.time      # captured before the simulator patches the clock


class Violation(Exception):
    """The property under check does not hold in this run."""

    def __init__(self, sig, detail=''):
        super().__init__(sig + ': ' + str(detail))
        self.sig = sig
        self.detail = str(detail)


class Ctx:
    """What a scenario may use while it runs."""

    def __init__(self, cfg, scratch):
        self.cfg = cfg
        self.scratch = scratch
        self.h = hashlib.sha256()
        self.faults = {}
        self.stats = {}
        self.traces = []
        self.keys = []
        self.steps = 0
        self.switches = 0
        self.simtime = 0.0
        self.evals = 0
        self.nontrivial = False

    # ---- bookkeeping
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def digest(self, *objs):
        import numpy as np
        for o in objs:
            if isinstance(o, np.ndarray):
                self.h.update(repr((o.shape, str(o.dtype))).encode())
                if o.dtype == object:
                    self.h.update(repr(o.tolist()).encode())
                else:
                    self.h.update(np.ascontiguousarray(o).tobytes())
            else:
                self.h.update(repr(o).encode())

    def key(self, *parts):
        self.keys.append(repr(parts))

    def fail(self, sig, detail=''):
        raise Violation(sig, detail)

    # ---- simulated execution
    def sim(self, fn, sched=None, **kw):
        """Run fn under the simulator; cfg['sched'] decides the schedule."""
        import sim as S
        sched = sched if sched is not None else self.cfg.get('sched')
        k = len(self.traces)
        if sched is None:
            ch = S.Chooser(0)
        elif 'traces' in sched:
            tr = sched['traces']
            ch = S.Chooser(trace=tr[k] if k < len(tr) else [])
        else:
            ch = S.Chooser('%s/%d' % (sched['seed'], k), sched['strategy'])
        kw.setdefault('granularity', (sched or {}).get('gran', 'line'))
        s = S.Sim(ch, (ROOT,), **kw)
        self.traces.append(ch.trace)
        self.last = s
        try:
            return s.run(fn)
        finally:
            self.steps += s.steps
            self.switches += ch.switches
            self.simtime += s.now - s.t0
            self.stat('max_parallel', 0)
            self.stats['max_parallel'] = max(self.stats['max_parallel'],
                                             s.max_parallel)
            self.stat('decisions', ch.n)
            self.key('sched', ch.hist)
            if ch.switches > 1:
                self.nontrivial = True
            self.digest(ch.hist, s.steps, ch.n)

    def close(self, a, b, sig, what='', rtol=1e-9, atol=0.0):
        """Numerical equality relative to the largest reference value."""
        import numpy as np
        self.evals += 1
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail(sig, '%s: shape %r, expected %r' % (what, a.shape, b.shape))
        if a.size == 0:
            return
        if not (np.all(np.isfinite(b)) == np.all(np.isfinite(a))):
            self.fail(sig, '%s: non-finite values' % what)
        scale = float(np.max(np.abs(b))) if b.size else 0.0
        d = float(np.max(np.abs(a - b)))
        if d > rtol*scale + atol + 1e-300:
            self.fail(sig, '%s: max difference %.6g, scale %.6g' % (what, d, scale))

    def same(self, a, b, sig, what=''):
        import numpy as np
        self.evals += 1
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape or not np.array_equal(a, b):
                self.fail(sig, '%s: %s, expected %s' % (
                    what, _short(a), _short(b)))
        elif a != b:
            self.fail(sig, '%s: %s, expected %s' % (what, _short(a), _short(b)))


def _short(x):
    r = repr(x).replace('\n', ' ')
    return r if len(r) < 200 else r[:200] + '...'


def H(*parts):
    return int(hashlib.sha256(':'.join(map(str, parts)).encode())
               .hexdigest()[:15], 16)


# --------------------------------------------------------------------------
def setup_imports():
    """Import everything heavy, then patch the seams, then import falco."""
    import numpy, scipy.ndimage, scipy.optimize, scipy.interpolate  # noqa
    import scipy.io, scipy.signal, scipy.fftpack, scipy.linalg  # noqa
    import astropy.io.fits  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    import numpy.ma, numpy.random, pickle, yaml  # noqa
    import concurrent.futures.thread, concurrent.futures.process  # noqa
    import multiprocessing.pool  # noqa
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import sim
    sim.install_primitives()
    import faults
    faults.install()
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        import falco
    finally:
        sys.stdout = so
    if not os.path.abspath(falco.__file__).startswith(ROOT):
        raise SystemExit('falco imported from ' + falco.__file__)
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        if f and '/site-packages/falco' in f:
            raise SystemExit('falco imported from ' + f)


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='dst_', dir=base)


def blame(e):
    """Where an exception came from: the code under test, or the harness."""
    tb = e.__traceback__
    frames = traceback.extract_tb(tb)
    where = None
    own = False
    for f in frames:
        if f.filename.startswith(ROOT):
            where = f
            own = True
        elif f.filename.startswith(HERE):
            # a harness frame below the code under test is still "in" it when
            # it is one of the simulator's stand-ins
            if os.path.basename(f.filename) not in (
                    'sim.py', 'simpresc.py', 'faults.py'):
                own = False
    return where if own else None


def execute(prop, cfg, scratch):
    """One simulated run, in this process.  Returns a JSON-able result."""
    ctx = Ctx(cfg, scratch)
    ctx.prop = prop.ID
    r = {}
    so, se = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    try:
        try:
            prop.run(cfg, ctx)
            r['status'] = 'ok'
        except Violation as v:
            r.update(status='violation', sig=v.sig, detail=v.detail)
        except BaseException as e:
            w = blame(e)
            tb = ''.join(traceback.format_exception(e))[-3000:]
            name = type(e).__name__
            if name in ('SimDeadlock', 'SimHang'):
                r.update(status='violation', sig=name, detail=str(e) + tb)
            elif w is not None and not isinstance(e, (MemoryError, SystemExit)):
                r.update(status='violation',
                         sig='exception:%s:%s' % (name, w.name),
                         detail=str(e) + '\n' + tb)
            else:
                r.update(status='error', sig=name, detail=tb)
    finally:
        sys.stdout, sys.stderr = so, se
    if r.get('sig'):
        ctx.digest(r['sig'])
    r.update(digest=ctx.h.hexdigest()[:24], faults=ctx.faults, stats=ctx.stats,
             traces=ctx.traces, keys=[H(k) for k in ctx.keys] or [H(r['status'])],
             steps=ctx.steps, switches=ctx.switches, simtime=ctx.simtime,
             evals=ctx.evals, nontrivial=ctx.nontrivial)
    return r


class Pool:
    """Forks one child per run; results come back over a pipe."""

    def __init__(self, prop, workers, limit):
        self.prop = prop
        self.workers = workers
        self.limit = limit
        self.live = {}
        self.scratch = scratch_root()
        self.n = 0

    def start(self, tag, cfg):
        self.n += 1
        d = os.path.join(self.scratch, 'r%d' % self.n)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                # one fixed path name for every run: scratch paths must not
                # make runs differ
                os.makedirs(d)
                os.chdir(d)
                gc.disable()
                res = execute(self.prop, cfg, d)
                blob = json.dumps(res).encode()
                with os.fdopen(w, 'wb') as f:
                    f.write(blob)
            except BaseException:
                code = 3
                try:
                    traceback.print_exc()
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        self.live[r] = [pid, tag, cfg, RT(), b'', d]

    def _finish(self, fd, timeout=False):
        pid, tag, cfg, t0, buf, d = self.live.pop(fd)
        os.close(fd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
        if timeout:
            return tag, cfg, dict(status='timeout', sig='no-progress',
                                  detail='wall limit', digest='timeout')
        try:
            return tag, cfg, json.loads(buf)
        except ValueError:
            return tag, cfg, dict(status='error', sig='child-died',
                                  detail='child process died', digest='died')

    def poll(self):
        """Yield finished (tag, cfg, result)."""
        if not self.live:
            return []
        out = []
        rd, _, _ = select.select(list(self.live), [], [], 0.5)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                self.live[fd][4] += b
            else:
                out.append(self._finish(fd))
        now = RT()
        for fd in [fd for fd, v in self.live.items() if now - v[3] > self.limit]:
            out.append(self._finish(fd, timeout=True))
        return out

    def one(self, cfg):
        """Run a single configuration to completion."""
        return self.many([cfg])[0]

    def many(self, cfgs):
        res = [None]*len(cfgs)
        i = 0
        assert not self.live
        while i < len(cfgs) or self.live:
            while i < len(cfgs) and len(self.live) < self.workers:
                self.start(i, cfgs[i])
                i += 1
            for tag, cfg, r in self.poll():
                res[tag] = r
        return res

    def close(self):
        for fd in list(self.live):
            self._finish(fd, timeout=True)
        shutil.rmtree(self.scratch, ignore_errors=True)


# --------------------------------------------------------------------------
def load_known(pid):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get('findings', []) if k['property'] == pid]


def match_known(known, cfg, r):
    for k in known:
        if not re.fullmatch(k['sig'], r['sig']):
            continue
        ok = True
        for name, want in k.get('where', {}).items():
            v = cfg
            for part in name.split('.'):
                v = v.get(part) if isinstance(v, dict) else None
            if isinstance(want, list):
                ok = ok and v in want
            else:
                ok = ok and v == want
        if ok:
            return k
    return None


def with_traces(cfg, traces):
    c = json.loads(json.dumps(cfg))
    g = (c.get('sched') or {}).get('gran')
    c['sched'] = {'traces': traces}
    if g:
        c['sched']['gran'] = g
    return c


def minimise(pool, prop, cfg, res, budget, known):
    """Shrink configuration, faults and schedule while the same violation
    (same signature) still shows."""
    t0 = RT()
    sig = res['sig']

    def bad(r):
        return r['status'] == 'violation' and r['sig'] == sig

    def tryset(cands):
        """First candidate that still fails, with its result."""
        for k in range(0, len(cands), pool.workers):
            if RT() - t0 > budget:
                return None
            part = cands[k:k + pool.workers]
            for c, r in zip(part, pool.many(part)):
                if bad(r):
                    return c, r
        return None

    best, bres = cfg, res
    # 1. the scenario (schedules are re-derived from the seed)
    shrink = getattr(prop, 'shrink', None)
    while shrink is not None and RT() - t0 < budget*0.5:
        cands = []
        for c in shrink(json.loads(json.dumps(best))):
            if c == best:
                continue
            cands.append(c)
            s = c.get('sched')
            if s and 'seed' in s:
                for k in range(3):
                    c2 = json.loads(json.dumps(c))
                    c2['sched']['seed'] = '%s+%d' % (s['seed'].split('+')[0], k)
                    cands.append(c2)
        got = tryset(cands)
        if got is None:
            break
        best, bres = got
    # 2. freeze the schedule as an explicit trace
    if best.get('sched') and 'seed' in best['sched']:
        c = with_traces(best, bres['traces'])
        r = pool.one(c)
        if bad(r):
            best, bres = c, r
    # 3. fewest context switches
    if best.get('sched') and 'traces' in best['sched']:
        n_sims = len(best['sched']['traces'])
        for k in range(n_sims):
            chunk = max(1, (len(best['sched']['traces'][k]) + 1)//2)
            while chunk >= 1 and RT() - t0 < budget:
                tr = best['sched']['traces'][k]
                cands = []
                for a in range(0, len(tr), chunk):
                    new = tr[:a] + tr[a+chunk:]
                    trs = list(best['sched']['traces'])
                    trs[k] = new
                    c = json.loads(json.dumps(best))
                    c['sched']['traces'] = trs
                    cands.append(c)
                got = tryset(cands[:256])
                if got is not None:
                    best, bres = got
                    chunk = min(chunk, max(1, len(best['sched']['traces'][k])))
                    if not best['sched']['traces'][k]:
                        break
                elif chunk == 1:
                    break
                else:
                    chunk //= 2
    return best, bres


def write_replay(prop, cfg, res, first_cfg):
    os.makedirs(REPLAYS, exist_ok=True)
    body = dict(property=prop.ID, sig=res['sig'], detail=res['detail'],
                digest=res['digest'], cfg=cfg, found_in=first_cfg)
    name = '%s_%012x.json' % (prop.ID, H(json.dumps(cfg, sort_keys=True)) & (2**48-1))
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def check(pid, tier, seed, nruns=None, workers=None, budget=None, keep=False):
    t0 = RT()
    prop = importlib.import_module('props.' + pid.lower())
    workers = workers or min(8, max(2, len(os.sched_getaffinity(0))))
    n = nruns or (prop.QUICK if tier == 'quick' else 10**9)
    cap = budget or (getattr(prop, 'CAP', 420) if tier == 'quick' else
                     float(os.environ.get('DST_THOROUGH_S', '1500')))
    limit = getattr(prop, 'LIMIT', 200)
    if hasattr(prop, 'warm'):
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            prop.warm()
        finally:
            sys.stdout = so
    gc.collect()
    gc.freeze()
    pool = Pool(prop, workers, limit)
    known = load_known(pid)
    hits = {}
    agg = dict(runs=0, faults={}, stats={}, keys=set(), nontriv=set(), steps=0,
               switches=0, simtime=0.0, evals=0, samples=[], redo=0)
    viol = None
    errors = []
    slow = []

    def cfg_for(i):
        rng = random.Random(H(seed, pid, i))
        c = prop.gen(rng, i)
        c = json.loads(json.dumps(c))
        return c

    def absorb(i, cfg, r):
        agg['runs'] += 1
        for k, v in r.get('faults', {}).items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in r.get('stats', {}).items():
            if k.startswith('max_'):
                agg['stats'][k] = max(agg['stats'].get(k, 0), v)
            else:
                agg['stats'][k] = agg['stats'].get(k, 0) + v
        ck = {k: v for k, v in cfg.items() if k != 'sched'}
        base = H(json.dumps(ck, sort_keys=True))
        key = H(base, *r.get('keys', []))
        agg['keys'].add(key)
        if r.get('nontrivial'):
            agg['nontriv'].add(key)
        for k in ('steps', 'switches', 'simtime', 'evals'):
            agg[k] += r.get(k, 0)
        if len(agg['samples']) < 6 and r.get('nontrivial'):
            agg['samples'].append(json.dumps(dict(run=i, cfg=cfg))[:600])

    try:
        i = 0
        bad = []
        stop = False
        while (i < n and not stop) or pool.live:
            while i < n and not stop and len(pool.live) < workers:
                if RT() - t0 > cap:
                    stop = True
                    break
                pool.start(i, cfg_for(i))
                i += 1
            for tag, cfg, r in pool.poll():
                absorb(tag, cfg, r)
                if r['status'] == 'ok':
                    continue
                if r['status'] == 'error':
                    errors.append((tag, cfg, r))
                    stop = len(errors) > 3
                    continue
                if r['status'] == 'timeout':
                    slow.append((tag, cfg, r))
                    stop = len(slow) > 2
                    continue
                k = match_known(known, cfg, r)
                if k is not None:
                    hits.setdefault(k['id'], [k, 0])[1] += 1
                    continue
                bad.append((tag, cfg, r))
                stop = True
        # a run that did not come back: only believed if it repeats
        for tag, cfg, r in slow:
            r2 = pool.one(cfg)
            if r2['status'] == 'timeout':
                bad.append((tag, cfg, dict(r2, status='violation', traces=[])))
                break
        bad.sort(key=lambda x: x[0])
        for tag, cfg, r in bad:
            r2 = pool.one(cfg) if r['sig'] != 'no-progress' else r
            if r2['status'] == r['status'] and r2['sig'] == r['sig'] \
                    and r2['digest'] == r['digest']:
                viol = (tag, cfg, r)
                break
            errors.append((tag, cfg, dict(
                status='error', sig='not-reproducible',
                detail='%r then %r' % (r, r2))))
        if viol is not None:
            tag, cfg, r = viol
            if r['sig'] == 'no-progress':
                best, bres = cfg, r
            else:
                best, bres = minimise(
                    pool, prop, cfg, r,
                    float(os.environ.get('DST_MIN_S', '90')), known)
            path = write_replay(prop, best, bres, dict(run=tag, seed=seed, cfg=cfg))
        else:
            # determinism self-check: the first runs again, same digests
            m = min(4, agg['runs'])
            again = pool.many([cfg_for(j) for j in range(m)])
            first = pool.many([cfg_for(j) for j in range(m)])
            for a, b in zip(again, first):
                if a['digest'] != b['digest']:
                    errors.append((-1, {}, dict(sig='nondeterminism',
                                                detail='%r %r' % (a, b))))
            agg['redo'] = m
    finally:
        pool.close()
    wall = RT() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=agg['runs'],
            distinct_nontrivial=len(agg['nontriv']),
            rule=prop.RULE,
            samples=agg['samples'] or ['none'],
            simulated_runs=agg['runs'],
            seeds_per_hour=round(agg['runs']/max(wall, 1e-3)*3600),
            simulated_seconds=round(agg['simtime'], 3),
            scheduler_steps=agg['steps'],
            context_switches=agg['switches'],
            oracle_comparisons=agg['evals'],
            distinct_executions=len(agg['keys']),
            faults_injected=agg['faults'],
            counters=agg['stats'],
            determinism_rechecked_runs=agg['redo'],
            real_components=getattr(prop, 'REAL', ''),
            stub_components=getattr(prop, 'STUB', ''),
            known_findings_hit={k: v[1] for k, v in hits.items()},
        ),
        wall_s=round(wall, 2), violations=0 if viol is None else 1)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, (kf, cnt) in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (pid, kf['what'], cnt))
    print('%s: %d runs, %d distinct non-trivial, %d switches, faults %r, %.1f s'
          % (pid, agg['runs'], len(agg['nontriv']), agg['switches'],
             agg['faults'], wall))
    if viol is not None:
        print('  signature: ' + bres['sig'])
        print('  ' + bres['detail'].replace('\n', '\n  ')[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for tag, cfg, r in errors[:3]:
            print('HARNESS ERROR run %s %s\n%s\ncfg=%s' % (
                tag, r.get('sig'), r.get('detail'), json.dumps(cfg)))
        return 3
    return 0


def replay(path):
    with open(path) as f:
        b = json.load(f)
    prop = importlib.import_module('props.' + b['property'].lower())
    if hasattr(prop, 'warm'):
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            prop.warm()
        finally:
            sys.stdout = so
    gc.collect()
    gc.freeze()
    pool = Pool(prop, 2, getattr(prop, 'LIMIT', 200))
    try:
        r = pool.one(b['cfg'])
    finally:
        pool.close()
    same = r.get('sig') == b['sig'] and r.get('digest') == b['digest']
    print('status %s signature %s' % (r['status'], r.get('sig')))
    print(r.get('detail', ''))
    print('reproduced exactly' if same else
          'NOT reproduced (recorded %s %s)' % (b['sig'], b['digest']))
    if r['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (b['property'], path))
        return 1
    return 0
