"""C08: the cache of pretrained fitters survives crashes and faults."""
import functools
import os
import pickle

from .. import cachesim, rng as R, world, zoo

RUNS = {'quick': 2500, 'thorough': 12000}
RULE = ('a run plays a random history of rounds on one cache directory: '
        'loaders (one to three processes that are scheduled at every system '
        'call, network call or line) under faults, crashes and server '
        'behaviours, damage of the cache file, new publications; it ends '
        'with fault free loads; non trivial: at least one load was judged; '
        'distinct by event log')
STATES = ('distinct (cache content, server, faults, points at which loaders '
          'were interleaved, outcomes) tuples')
REAL = ['menpofit.io (download, cache, loading)', 'menpofit.base',
        'menpo.io.import_pickle', 'the file system (a scratch directory)',
        'processes and their deaths']
STUB = ['the server and the network (urlopen)', 'the scheduler of the '
        'processes', 'errors of system calls', 'most published fitters are '
        'small objects that verify their bytes; some are real fitters']
ASSUMES = ['a killed process leaves what it had written so far; renames are '
           'atomic; power failures (loss of written data) are not simulated',
           'servers that silently alter the bytes of a fitter without '
           'breaking its pickle are not simulated: nothing is published that '
           'would allow to notice']
MIN_OPS = 0
SIM_TIME = ('no clock is involved; time outs of the network are raised by '
            'the simulated server')
NAME = 'balanced_frontal_face_aam'
SERVER = ['ok'] * 6 + ['down', '404', 'html', 'empty', 'truncated', 'reset',
                       'timeout', 'nolength', 'badpickle']
DAMAGE = ['empty', 'half', 'garbage', 'html', 'uncallable', 'unlucky',
          'zeros', 'gone', 'tail']


def gen(rng, i):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.choice(['round'] * 6 + ['damage', 'publish'])
        if k == 'round':
            n = rng.choice([1, 1, 2, 2, 3])
            ops.append(dict(op='round', seed=rng.randrange(10 ** 6),
                            loaders=[gen_loader(rng) for _ in range(n)],
                            fine=n > 1 and rng.random() < 0.3))
        elif k == 'damage':
            ops.append(dict(op='damage', how=rng.choice(DAMAGE)))
        else:
            ops.append(dict(op='publish'))
    return dict(initial=rng.choice(['nothing'] * 5 + ['good', 'good'] +
                                   DAMAGE[:7] + ['nodir', 'leftover']),
                size=rng.choice([10, 3000, 600 * 1024, 1300 * 1024]),
                actual=rng.random() < 0.04,
                ops=ops)


def gen_loader(rng):
    d = dict(server=rng.choice(SERVER), frac=round(rng.random(), 3))
    x = rng.random()
    if x < 0.35:
        d['fault'] = dict(at=rng.randrange(0, 12), kind=rng.choice(
            ['crash', 'crash', 'crash', 'interrupt', 'enospc', 'eio',
             'eacces', 'emfile', 'memory']))
    elif x < 0.5:
        d['line'] = [rng.randrange(1, 40), rng.choice(
            ['die', 'die', 'interrupt', 'memory'])]
    elif x < 0.6:
        d['full'] = round(rng.random() * 1.1, 3)
    return d


_ACTUAL = []


def actual_fitter():
    """A real pretrained fitter, and what it does."""
    if not _ACTUAL:
        import menpofit.aam as A
        from menpofit.io import PickleWrappedFitter
        m = A.HolisticAAM(world.images(dict(seed=3, n=4)), group='PTS',
                          diagonal=20, scales=[1.0])
        f = functools.partial(
            PickleWrappedFitter, A.LucasKanadeAAMFitter, (m,), {}, {},
            dict(max_iters=3), image_preprocess=None)
        b = pickle.dumps(f, protocol=2)
        _ACTUAL.append((b, cachesim.describe(pickle.loads(b)())))
    return _ACTUAL[0]


def body_of(sc, version):
    if sc.get('actual'):
        return actual_fitter()[0]
    return pickle.dumps(cachesim.Published(version, sc['size']), protocol=2)


def damaged(how, good):
    return {'empty': b'', 'half': good[:len(good) // 2],
            'garbage': b'\x80\x02garbage' * 50,
            'html': b'<html>Please log in</html>' * 9,
            'uncallable': pickle.dumps(cachesim.NotAFitter()),
            'unlucky': pickle.dumps(cachesim.unlucky),
            'zeros': b'\0' * len(good), 'tail': good[:-1]}[how]


def run(sc, ctx):
    if sc.get('actual'):
        actual_fitter()
    w = cachesim.World(ctx, NAME)
    try:
        _run(sc, ctx, w)
    finally:
        w.close()


def _run(sc, ctx, w):
    version = [1]
    bodies = {1: body_of(sc, 1)}

    def good():
        return bodies[version[0]]

    def state():
        c = w.content()
        if c is None:
            return 'absent'
        for v in bodies:
            if c == bodies[v]:
                return 'good'
        return 'damaged'
    k = sc['initial']
    if k == 'good':
        w.put(good())
    elif k in DAMAGE:
        w.put(damaged(k, good()))
    elif k == 'leftover':
        d = os.path.dirname(w.path)
        os.makedirs(d, exist_ok=True)
        for n in ('.part', '.tmp', '.0f.part'):
            with open(w.path + n, 'wb') as f:
                f.write(good()[:100])
    ctx.log('initial', k, state())

    def start(spec):
        srv = dict(mode=spec.get('server', 'ok'), body=good(),
                   frac=spec.get('frac', 0.5),
                   bad=damaged('unlucky', good()))
        fs = None
        if spec.get('full') is not None:
            fs = int(spec['full'] * len(good()))
        return w.spawn(srv, fs, spec.get('fine'), spec.get('line'))

    def judge(ld, spec, what):
        """Safety of one load, however it was disturbed."""
        o = ld.done
        if o[0] == 'hang':
            ctx.violate('hang', '%s: the load never ends' % what)
        if o[0] == 'escape':
            ctx.violate('escape', '%s: touches %s' % (what, o[1:]))
        if o[0] == 'ok':
            if sc.get('actual'):
                ok = o[1] == actual_fitter()[1]
            else:
                ok = any(o[1] == v and o[2] == cachesim.Published(
                    v, sc['size'])().digest for v in bodies)
            if not ok:
                ctx.violate('wrong fitter', '%s: returns %s, which was never '
                            'published' % (what, str(o[1:])[:200]))

    rounds = 0
    for op in sc['ops']:
        if op['op'] == 'damage':
            if op['how'] == 'gone':
                if os.path.exists(w.path):
                    os.remove(w.path)
            else:
                w.put(damaged(op['how'], good()))
            ctx.fault('cache file: ' + op['how'])
            ctx.log('damage', op['how'])
            continue
        if op['op'] == 'publish':
            if not sc.get('actual'):
                version[0] += 1
                bodies[version[0]] = body_of(sc, version[0])
                ctx.log('publish', version[0])
            continue
        rounds += 1
        r = R.make('schedule', op['seed'])
        before = state()
        specs = [dict(l, fine=op.get('fine')) for l in op['loaders']]
        lds = [start(s) for s in specs]
        counts = [0] * len(lds)
        inter = []
        peak = 0
        while True:
            live = [i for i, l in enumerate(lds) if l.done is None]
            if not live:
                break
            i = r.choice(live)
            l, s = lds[i], specs[i]
            f = s.get('fault')
            at = counts[i]
            if l.where[0] != 'line':
                inter.append((i, l.where[0]))
            peak += 1
            if peak > 20000:
                ctx.violate('hang', 'no end after 20000 steps')
            if f and at == f['at']:
                ctx.log('loader', i, 'at', *l.where, ':', f['kind'])
                if f['kind'] == 'crash':
                    l.order('die')
                elif f['kind'] in ('interrupt', 'memory'):
                    l.order(f['kind'])
                else:
                    l.order('error', f['kind'])
            else:
                if l.where[0] != 'line':
                    ctx.log('loader', i, 'at', *l.where)
                l.order('go')
            counts[i] += 1
        disturbed = False
        for i, (l, s) in enumerate(zip(lds, specs)):
            srv = s.get('server', 'ok')
            if l.nets and srv != 'ok':
                ctx.fault('server: ' + srv)
                l.hit.append(srv)
            for h in l.hit:
                if h not in SERVER:
                    ctx.fault(h)
            if s.get('full') is not None and l.nets:
                l.hit.append('full')
                ctx.fault('full disk')
            disturbed = disturbed or bool(l.hit)
            ctx.log('loader', i, 'ends', *[str(x)[:60] for x in l.done])
            ctx.count('loads')
            judge(l, s, 'round %d, loader %d (%s, cache %s)' % (
                rounds, i, srv, before))
        ctx.state(before, [s.get('server') for s in specs],
                  sorted(h for l in lds for h in l.hit), inter[:40],
                  [l.done[0] for l in lds])
        after = state()
        # loads that nothing disturbed
        how = 'round %d (%d loaders, cache %s)' % (rounds, len(lds), before)
        if not disturbed and before != 'damaged':
            for i, l in enumerate(lds):
                if l.done[0] != 'ok':
                    ctx.violate('undisturbed load fails', '%s: loader %d: %s'
                                % (how, i, l.done))
            if after != 'good':
                ctx.violate('not cached', '%s: the cache is %s afterwards' % (
                    how, after))
        if before == 'good' and not any(
                h for l in lds for h in l.hit) and any(l.nets for l in lds):
            ctx.violate('downloads again', '%s: although cached' % how)
        if before in ('good', 'absent') and after == 'damaged' and not any(
                l.nets and s.get('server') in ('html', 'empty', 'badpickle')
                for l, s in zip(lds, specs)):
            ctx.violate('partial file cached', '%s: faults %s; the cache '
                        'file is neither absent nor what was published' % (
                            how, [l.hit for l in lds]))
        if before == 'damaged' and len(lds) == 1 and not lds[0].hit and \
                lds[0].done[0] != 'ok' and after == 'damaged':
            ctx.violate('damage kept', '%s: the damaged cache file is still '
                        'there' % how)

    # the faults stop: at most one more failure
    st = state()
    fails = 0
    for attempt in range(3):
        l = start(dict(server='ok'))
        while l.done is None:
            l.order('go')
        ctx.log('clean load', state(), *[str(x)[:40] for x in l.done])
        ctx.count('clean loads')
        judge(l, {}, 'clean load')
        if l.done[0] == 'ok':
            if attempt and l.nets and state() == 'good' and fails == 0:
                ctx.violate('downloads again', 'a clean load uses the network'
                            ' although an earlier one succeeded')
            if attempt == 0 and st == 'good' and l.nets:
                ctx.violate('downloads again', 'a clean load uses the network'
                            ' although the cache is good')
            if attempt - fails >= 1:
                break
            continue
        fails += 1
        if st != 'damaged':
            ctx.violate('no recovery', 'without faults and with a cache that '
                        'is %s, a load fails: %s' % (st, l.done))
        if fails > 1:
            ctx.violate('no recovery', 'without faults, the load fails again:'
                        ' %s' % (l.done,))


def simplify(sc):
    import json
    out = []
    for f in (dict(actual=False), dict(size=10), dict(initial='nothing')):
        if any(sc[k] != v for k, v in f.items()):
            out.append(dict(sc, **f))
    for i, o in enumerate(sc['ops']):
        if o['op'] != 'round':
            continue
        if o.get('fine'):
            c = json.loads(json.dumps(sc))
            c['ops'][i]['fine'] = False
            out.append(c)
        for j in range(len(o['loaders'])):
            if len(o['loaders']) > 1:
                c = json.loads(json.dumps(sc))
                del c['ops'][i]['loaders'][j]
                out.append(c)
            for k in ('fault', 'line', 'full'):
                if k in o['loaders'][j]:
                    c = json.loads(json.dumps(sc))
                    del c['ops'][i]['loaders'][j][k]
                    out.append(c)
            if o['loaders'][j].get('server') != 'ok':
                c = json.loads(json.dumps(sc))
                c['ops'][i]['loaders'][j]['server'] = 'ok'
                out.append(c)
    return out
