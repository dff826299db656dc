"""The seeded search: runs, judging, shrinking, replay files and evidence."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time

from . import env, rng as R

PROPS = ['C%02d' % i for i in range(1, 16)]
HARD_GUARD = 840.       # seconds; a check never runs longer
RUN_LIMIT = 90.         # seconds; one run (they take well below 2 s)


class Skip(BaseException):
    """The run cannot decide anything (for instance: untrainable input)."""


class Stop(BaseException):
    """End the run now (a violation was recorded)."""


class Ctx(object):
    """What a run records."""

    def __init__(self):
        self.log_ = []
        self.faults = collections.Counter()
        self.states = set()
        self.violations = []
        self.counts = collections.Counter()
        self.skip = None
        self.sim_time = 0.

    def log(self, *parts):
        self.log_.append(' '.join(str(p) for p in parts))

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log('fault', kind)

    def state(self, *parts):
        self.states.add(hashlib.md5(repr(parts).encode()).hexdigest()[:12])

    def count(self, what, n=1):
        self.counts[what] += n

    def violate(self, kind, detail, stop=True):
        """kind: a stable class of violation; detail: what was seen"""
        self.violations.append((kind, str(detail)[:600]))
        self.log('VIOLATION', kind, str(detail)[:600])
        if stop:
            raise Stop()

    def record(self):
        return dict(log=self.log_, faults=dict(self.faults),
                    states=sorted(self.states), violations=self.violations,
                    counts=dict(self.counts), skip=self.skip,
                    sim_time=self.sim_time,
                    digest=R.digest(self.log_))


def prop(pid):
    return importlib.import_module('simfit.props.' + pid.lower())


def prepare(mod):
    if getattr(mod, 'ZYGOTES', None):
        from . import zygote
        zygote.start(mod.ZYGOTES)


def _quiet():
    """Runs never write to the real terminal."""
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, 'w')


def execute(pid, scenario):
    """One run, in this process."""
    import numpy as np
    ctx = Ctx()
    np.random.seed(R.seed_int(json.dumps(scenario, sort_keys=True)) %
                   (2 ** 32))
    try:
        prop(pid).run(scenario, ctx)
    except Stop:
        pass
    except Skip as e:
        ctx.skip = str(e) or 'skip'
    return ctx.record()


def spawn(pid, scenario):
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            _quiet()
            try:
                out = execute(pid, scenario)
            except BaseException:
                import traceback
                out = dict(error=traceback.format_exc()[-3000:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f, protocol=4)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return p, r


def kill(p):
    for f in (os.killpg, os.kill):
        try:
            f(p, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


class Pool(object):
    """Runs scenarios in forked children, several at a time. The outcome of a
    run depends on its scenario only."""

    def __init__(self, pid, workers, limit=RUN_LIMIT):
        self.pid, self.workers, self.limit = pid, workers, limit

    def map(self, scenarios, deadline=None):
        """Yields (key, record) for an iterable of (key, scenario)."""
        live = {}
        it = iter(scenarios)
        done = False
        while live or not done:
            while not done and len(live) < self.workers:
                if deadline and time.monotonic() > deadline:
                    done = True
                    break
                try:
                    key, sc = next(it)
                except StopIteration:
                    done = True
                    break
                p, r = spawn(self.pid, sc)
                live[r] = [key, p, [], time.monotonic()]
            if not live:
                break
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    live[r][2].append(b)
                    continue
                key, p, chunks, t0 = live.pop(r)
                os.close(r)
                os.waitpid(p, 0)
                try:
                    rec = pickle.loads(b''.join(chunks))
                except Exception:
                    rec = dict(error='the run died without a record')
                yield key, rec
            now = time.monotonic()
            for r in list(live):
                key, p, chunks, t0 = live[r]
                if now - t0 > self.limit:
                    kill(p)
                    live.pop(r)
                    os.close(r)
                    os.waitpid(p, 0)
                    yield key, dict(error='timeout after %ds' % self.limit,
                                    timeout=True)

    def one(self, scenario):
        for _, rec in self.map([(0, scenario)]):
            return rec


def signature(rec):
    return rec['violations'][0][0] if rec.get('violations') else None


# ---------------------------------------------------------------- shrinking

def _variants(sc, mod):
    """Simpler scenarios: fewer operations first, then simpler ones."""
    for name in ('ops', 'probes', 'events', 'faults'):
        ops = sc.get(name)
        if not isinstance(ops, list) or not ops:
            continue
        n = len(ops)
        least = 1 if name == 'probes' else getattr(mod, 'MIN_OPS', 0)
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                if n - len(ops[i:i + size]) < least:
                    continue
                c = dict(sc)
                c[name] = ops[:i] + ops[i + size:]
                yield c
            size //= 2
        for i, o in enumerate(ops):
            if isinstance(o, dict):
                for k in ('fault', 'extra', 'gt', 'costs', 'max_iters'):
                    if o.get(k):
                        c = json.loads(json.dumps(sc))
                        c[name][i].pop(k)
                        yield c
    if hasattr(mod, 'simplify'):
        for c in mod.simplify(json.loads(json.dumps(sc))):
            yield c


def shrink(pool, mod, sc, sig, budget=160, deadline=None):
    tried = 0
    seen = set()
    improved = True
    while improved and tried < budget:
        improved = False
        batch = []
        for c in _variants(sc, mod):
            k = json.dumps(c, sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            batch.append(c)
        # several at a time; the first (simplest) that still fails wins
        for i in range(0, len(batch), pool.workers):
            if tried >= budget or (deadline and time.monotonic() > deadline):
                return sc, tried
            part = batch[i:i + pool.workers]
            tried += len(part)
            recs = dict(pool.map(list(enumerate(part))))
            good = [j for j in sorted(recs) if signature(recs[j]) == sig]
            if good:
                sc = part[good[0]]
                improved = True
                break
    return sc, tried


# --------------------------------------------------------------------- check

def known_findings(pid):
    """{signature: text} of the listed (unrepaired) findings."""
    out = {}
    p = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                sig, text = rest.split(' ', 1)
                out[sig.replace('signature=', '')] = text
    return out


def check(pid, seed, tier, workers=None, runs=None, out=sys.stdout,
          dump=None):
    t0 = time.monotonic()
    mod = prop(pid)
    prepare(mod)
    n = runs or mod.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    guard = HARD_GUARD if tier == 'quick' else 6 * 3600.
    deadline = t0 + guard * 0.7
    pool = Pool(pid, workers, getattr(mod, 'RUN_LIMIT', RUN_LIMIT))
    known = known_findings(pid)

    def scenarios():
        for i in range(n):
            yield i, mod.gen(R.make(seed, pid, i), i)

    faults, counts = collections.Counter(), collections.Counter()
    states, logs, skips = set(), set(), collections.Counter()
    errors, bad, digests = [], {}, {}
    sim_time, done = 0., 0
    samples = []
    for i, rec in pool.map(scenarios(), deadline):
        done += 1
        if 'error' in rec:
            errors.append((i, rec['error']))
            continue
        digests[i] = rec['digest']
        if rec['skip']:
            skips[rec['skip'][:60]] += 1
            continue
        faults.update(rec['faults'])
        counts.update(rec['counts'])
        states.update(rec['states'])
        logs.add(rec['digest'])
        sim_time += rec['sim_time']
        if rec['violations']:
            bad[i] = rec
        if i < 4:
            samples.append(dict(run=i, scenario=_brief(
                mod.gen(R.make(seed, pid, i), i)), log=rec['log'][:12]))
    search_wall = time.monotonic() - t0

    sigs = collections.OrderedDict()
    for i in sorted(bad):
        sigs.setdefault(signature(bad[i]), []).append(i)
    new = [s for s in sigs if s not in known]
    lines = []
    for s in sigs:
        if s in known:
            lines.append('KNOWN-FINDING: property=%s %s (%s, %d runs)' % (
                pid, known[s], s, len(sigs[s])))
    rdir = os.path.join(env.VERIF, 'replays')
    for k, s in enumerate(new[:4]):
        i = sigs[s][0]
        sc = mod.gen(R.make(seed, pid, i), i)
        small, tried = shrink(pool, mod, sc, s,
                              deadline=t0 + guard * 0.9 - 20)
        rec = pool.one(small)
        if signature(rec) != s:
            small, rec = sc, bad[i]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d-%d.json' % (pid, seed, i))
        json.dump(dict(property=pid, seed=seed, run=i, signature=s,
                       detail=rec['violations'][0][1], scenario=small,
                       log=rec['log'], log_digest=rec['digest'],
                       original_ops=len(sc.get('ops', [])),
                       shrink_runs=tried), open(path, 'w'), indent=1)
        lines.append('# run %d (%d runs alike): %s: %s' % (
            i, len(sigs[s]), s, rec['violations'][0][1]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    wall = time.monotonic() - t0
    decided = done - sum(skips.values()) - len(errors)
    cov = dict(
        evaluations=done, distinct_nontrivial=len(logs),
        rule=mod.RULE, samples=samples,
        runs_planned=n, runs_decided=decided, runs_skipped=dict(skips),
        harness_errors=len(errors),
        simulated_runs_per_hour=int(done / search_wall * 3600),
        seeds_per_hour=int(done / search_wall * 3600),
        simulated_time=getattr(mod, 'SIM_TIME', 'none of the code this '
                               'property depends on reads a clock'),
        simulated_seconds=round(sim_time, 3),
        faults_injected=dict(sorted(faults.items())),
        events=dict(sorted(counts.items())),
        distinct_states=len(states),
        state_measure=mod.STATES,
        real_components=mod.REAL, stub_components=mod.STUB,
        workers=workers)
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough')
              else 'quick', seed=seed, level='exploration', coverage=cov,
              assumptions=mod.ASSUMES, wall_s=round(wall, 2),
              violations=sum(len(sigs[s]) for s in new))
    edir = os.path.join(env.VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(edir, pid + '.json'))
    if dump:
        json.dump({str(k): digests[k] for k in sorted(digests)},
                  open(dump, 'w'))
    for l in lines:
        print(l, file=out)
    print('%s: %d runs (%d decided, %d skipped, %d errors) seed %d, %.1f s, '
          '%d distinct states, faults: %s' % (
              pid, done, decided, sum(skips.values()), len(errors), seed,
              wall, len(states), dict(sorted(faults.items()))), file=out)
    if new:
        return 1
    for i, e in errors[:3]:
        print('ERROR in run %d: %s' % (i, e), file=out)
    if len(errors) > 0.02 * done:
        return 2
    if done < n * 0.25:
        print('ERROR: only %d of %d runs' % (done, n), file=out)
        return 2
    if decided < 0.5 * done:
        print('ERROR: only %d of %d runs decided anything: %s' % (
            decided, done, dict(skips)), file=out)
        return 2
    return 0


def _brief(sc):
    s = json.dumps(sc)
    return sc if len(s) < 2500 else s[:2500] + '...'


def replay(path, out=sys.stdout):
    d = json.load(open(path))
    pid = d['property']
    prepare(prop(pid))
    rec = Pool(pid, 1).one(d['scenario'])
    if rec.get('error'):
        print('ERROR', rec['error'], file=out)
        return 2
    for l in rec['log']:
        print(l, file=out)
    if signature(rec) == d['signature']:
        print('reproduced: %s' % (rec['violations'][0],), file=out)
        print('log digest %s' % ('identical' if rec['digest'] ==
                                 d['log_digest'] else 'DIFFERS'), file=out)
        print('VIOLATION property=%s replay=%s' % (pid, path), file=out)
        return 1
    print('not reproduced on this tree (%s)' % (signature(rec),), file=out)
    return 0
