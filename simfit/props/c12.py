"""C12: independent fitters can work concurrently."""
import collections
import json

import numpy as np

from .. import common, env, faults, feats, sched, snap, world, zoo
from ..engine import Skip

RUNS = {'quick': 600, 'thorough': 9000}
RULE = ('a run has two or three real threads under a seeded line level '
        'scheduler; each one uses (or trains) its own model and fitter, on '
        'image and shape objects that they share; every outcome is compared '
        'with that of the same thread alone (in a forked process image); non '
        'trivial: threads really were switched and at least one outcome was '
        'compared; distinct by event log (which contains the switches)')
STATES = ('distinct (configurations, function in which a thread was paused) '
          'tuples')
REAL = ['all of menpofit', 'menpo', 'numpy', 'threading', 'dlib (Dlib runs)']
STUB = ['the choice of the running thread (baton passed at line events)',
        'images are synthetic', 'failures are raised at seeded lines']
ASSUMES = ['threads switch between Python lines of menpofit and menpo; calls '
           'into numpy, scipy and dlib are atomic',
           'trainings that draw from the global random generator are given '
           'perturbations of their own', 'differences of a fit that rounding '
           'level changes of the image reproduce as well are not judged']
RUN_LIMIT = 150.


FAMILIES = [('LKAAM', 7), ('SDAAM', 2), ('ATM', 4), ('CLM', 3), ('APS', 3),
            ('LK', 5), ('SDM', 4), ('Unified', 2), ('Dlib', 1)]


def _align(s, w):
    """Let the spec fit the images of another one."""
    t = s['model']['world'] if 'model' in s else s['world']
    for k in ('size', 'channels', 'masked'):
        t[k] = w[k]


def gen(rng, i):
    kind = rng.choice(['fit'] * 5 + ['train'] * 3 + ['mixed'])
    n = rng.choice([2, 2, 2, 3])
    threads = []
    first = None
    for j in range(n):
        job = {'fit': 'fit', 'train': 'train',
               'mixed': 'fit' if j == 0 else 'train'}[kind]
        t = dict(job=job, ops=[])
        if job == 'fit':
            if first is not None and rng.random() < 0.7:
                s = zoo.gen_fitter(rng, first['family'],
                                   first.get('alg')
                                   if rng.random() < 0.7 else None)
                if rng.random() < 0.5:
                    s = json.loads(json.dumps(first))
            else:
                s = zoo.gen_fitter(rng, zoo.wchoice(rng, FAMILIES))
            t['fitter'] = s
        else:
            if rng.random() < 0.6:
                if first is not None and 'model' in first \
                        and rng.random() < 0.7:
                    m = json.loads(json.dumps(first['model']))
                    if rng.random() < 0.5 and m['family'] == 'CLM':
                        m['patch_shape'] = rng.choice([[7, 7], [9, 7]])
                    elif rng.random() < 0.5:
                        m['features'] = zoo.gen_features(
                            rng, len(m['scales']))
                        m['diagonal'] = rng.choice([None, world.DIAGONAL])
                else:
                    m = zoo.gen_model(rng)
                s = dict(family='model', model=m)
                t['model'] = m
                t['grow'] = rng.random() < 0.4
            else:
                if first is not None and 'model' not in t and \
                        first['family'] != 'model' and rng.random() < 0.75:
                    s = zoo.gen_fitter(rng, first['family'],
                                       first.get('alg'))
                else:
                    s = zoo.gen_fitter(rng, rng.choice(
                        ['SDM', 'SDAAM', 'SDM', 'Dlib', 'LK', 'LKAAM',
                         'LKAAM', 'ATM', 'CLM', 'CLM', 'APS', 'Unified']))
                s.pop('perturb', None)
                t['fitter'] = s
        first = first or s
        threads.append(t)
    w = zoo.world_of(threads[0].get('fitter') or threads[0])
    if any((t.get('fitter') or t).get('family') in ('SDM', 'Dlib')
           for t in threads):
        w['channels'] = 1
    for t in threads:
        _align(t.get('fitter') or t, w)
        if kind != 'fit' and t['job'] == 'train':
            # everybody trains on the very same images
            x = zoo.world_of(t.get('fitter') or t)
            for k in w:
                x[k] = w[k]
            x['n'] = max(x['n'], 6)
    for t in threads:
        if t['job'] == 'fit':
            t['ops'] = [zoo.gen_fit(rng, t['fitter'])
                        for _ in range(rng.choice([1, 1, 2]))]
    fits = [t for t in threads if t['job'] == 'fit']
    share = rng.random() < 0.75
    if share and len(fits) > 1:
        # the same image, often even the same initial shape object
        for t in fits[1:]:
            t['ops'][0]['im'] = fits[0]['ops'][0]['im']
            if rng.random() < 0.6:
                t['ops'][0]['init'] = dict(fits[0]['ops'][0]['init'])
    for t in threads:
        if rng.random() < 0.25:
            t['fault'] = dict(op=rng.randrange(3), frac=round(rng.random(), 4),
                              exc=rng.choice(['interrupt', 'memory',
                                              'linalg']))
    return dict(kind=kind, threads=threads, share=share, schedules=[
        gen_schedule(rng, kind) for _ in range(6 if kind == 'fit' else 3)])


def gen_schedule(rng, kind):
    """Where threads are paused. Lines are counted in menpofit only, or in
    menpo as well (ten times as many)."""
    scope = rng.choice(['menpofit', 'menpofit', 'all'])
    hi = {'menpofit': 7.5, 'all': 9.}[scope] + (0. if kind == 'fit' else 1.)
    how = rng.choice(['few', 'nest', 'many', 'dense', 'steps', 'meet',
                      'meet', 'at', 'at', 'at', 'at'])
    ev = []

    def who():
        return rng.randrange(6)
    if how in ('few', 'nest'):
        # a thread is paused somewhere, and others run far or to their end
        for _ in range(rng.choice([1, 2, 3, 5]) if how == 'few' else 1):
            ev.append([int(np.exp(rng.uniform(1., hi)))
                       if rng.random() < 0.6 else
                       rng.randrange(1, int(np.exp(hi))), who()])
    elif how == 'many':
        for _ in range(60):
            ev.append([int(np.exp(rng.uniform(0., hi - 2.))), who()])
    elif how == 'dense':
        top = rng.choice([4, 10, 30])
        for _ in range(600):
            ev.append([rng.randint(1, top), who()])
    elif how == 'at':
        # both in the same place, which is any line with equal chance
        for _ in range(rng.choice([3, 10, 30])):
            ev.append(['at', round(rng.random(), 5),
                       rng.choice([1, 1, 1, 2, 3]), who(),
                       rng.choice([1, 1, 1, 2, 5]) if rng.random() < 0.85
                       else 10 ** 6, rng.choice([0, 1, 2, 3, 6]),
                       rng.choice([1, 2, 4]), rng.random() < 0.5])
    elif how == 'meet':
        top = rng.choice([20, 60, 150])
        for _ in range(80):
            ev.append([rng.randint(1, top), who(), rng.randint(1, 12)])
    else:
        # in step (for equal fitters), with slips
        n = rng.choice([1, 2, 3, 5, 11, 40])
        for _ in range(500):
            ev.append([n if rng.random() < 0.9 else rng.randint(1, 9), 0])
    return dict(scope=scope, events=ev)


class Own(object):
    """A perturbation with random numbers of its own."""

    def __init__(self):
        self.n = 0

    def __call__(self, gt_bb, bb):
        r = np.random.RandomState(self.n)
        self.n += 1
        p = bb.copy()
        p.points = p.points + r.uniform(-1.2, 1.2, 2)
        return p


def fit_job(t, s, fitter, imgs, inits, share):
    def make(k):
        op = t['ops'][k]

        def one():
            args = zoo.fit_args(s, op, imgs)
            if share:
                args = (args[0], shared(inits, op, args[1]), args[2])
            r = zoo.do_fit(fitter, s, op, imgs, args)
            return r
        return one
    return [make(k) for k in range(len(t['ops']))]


def shared(inits, op, init):
    key = json.dumps([op['im'], op['init']])
    return inits.setdefault(key, init)


def train_job(t, images):
    """The operations of a training thread; the last one's value counts."""
    st = {}
    if 'model' in t:
        m = t['model']
        grow = t.get('grow') and m['family'] in ('AAM', 'APS') and not (
            m['family'] == 'APS' and not m['incremental'])
        k = 4 if grow else len(images)

        def train():
            if m['family'] == 'ATM':
                st['m'] = zoo.build_model(m, (images[0], [
                    im.landmarks['PTS'] for im in images]))
            else:
                st['m'] = zoo.build_model(m, (images[:k],))
            return None

        def more():
            st['m'].increment(images[k:], group='PTS')
            return None
        fns = [train] + ([more] if grow else [])
    else:
        s = t['fitter']

        def train():
            own = dict(perturb_from_gt_bounding_box=Own()) \
                if s['family'] in ('SDM', 'SDAAM', 'Dlib') else {}
            mod = None
            if 'model' in s:
                mod = zoo.build_model(s['model'], (images,) if
                                      s['family'] != 'ATM' else
                                      (images[0], [im.landmarks['PTS']
                                                   for im in images]))
            st['f'] = zoo.fitter_from(s, mod, images, **own)
            return None
        fns = [train]
    return fns, st


def judge_value(t, st):
    """What the thread left behind, as a record."""
    if t['job'] == 'fit':
        return None
    if 'model' in t:
        return snap.model(st['m']) if 'm' in st else None
    if 'f' not in st:
        return None
    s = t['fitter']
    op = dict(op='fit', im=0, init=dict(kind='shape', dy=1.5, dx=-1., s=1.02))
    return common.outcome(lambda: common.fit_record(st['f'], s, op))


def run(sc, ctx):
    share = sc['share']
    built = []
    for t in sc['threads']:
        if t['job'] == 'fit':
            built.append(common.build(t['fitter'], ctx))
        else:
            built.append(None)
    base = sc['threads'][0]
    w = zoo.world_of(base.get('fitter') or base)
    imgs = zoo.test_images(base.get('fitter') or base)
    images = None
    trains = [t for t in sc['threads'] if t['job'] == 'train']
    if trains:
        images = world.images(zoo.world_of(trains[0].get('fitter') or
                                           trains[0]))
    inits = {}

    def body(j, targets):
        """The function of thread j (or the same thread alone)."""
        t = sc['threads'][j]
        if t['job'] == 'fit':
            fns = fit_job(t, t['fitter'], built[j][1], imgs, inits, share)
            st = None
        else:
            fns, st = train_job(t, images)

        def main(th):
            outs = []
            for k, fn in enumerate(fns):
                tg = targets.get(k)
                o = th.op(fn, *(tg or ()))
                if o[0] == 'ok' and o[1] is not None:
                    o = ('ok', o[1])
                outs.append(o)
            return outs, st, [bool(th.fired)]
        return main

    def alone(j, targets, scope):
        """(records, line counts) of the thread on its own."""
        def go():
            sd = sched.Scheduler([body(j, targets)], [], None, scope)
            sd.threads[0].places = places = set()
            out = sd.run()
            if sd.error:
                raise RuntimeError(sd.error)
            return records(j, out[0]), sd.threads[0].counts, sorted(
                p for p in places if p[0].startswith(env.SRC))
        r = faults.isolated(go, 100.)
        if r[0] != 'ok':
            raise Skip('no reference: ' + str(r[1])[:40])
        return r[1]

    def records(j, out):
        t = sc['threads'][j]
        outs = [(o[0], snap.result(o[1])) if o[0] == 'ok' and o[1] is not None
                else o for o in out[0]]
        return outs, judge_value(t, out[1])

    labels = [name(t) for t in sc['threads']]
    known = {}

    def reference(j, scope):
        """Outcomes of thread j alone, and where it fails."""
        t = sc['threads'][j]
        key = (j, scope if t.get('fault') else '')
        if key in known:
            return known[key]
        r = alone(j, {}, scope)
        ran = r[2]
        tg = {}
        f = t.get('fault')
        if f:
            counts = r[1]
            k = f['op'] % len(counts)
            tg = {k: (1 + int(f['frac'] * counts[k]),
                      faults.EXC[f['exc']]('injected'))}
            r = alone(j, tg, scope)
            ctx.fault('%s at a line of a thread' % f['exc'])
        ctx.log('thread', j, t['job'], labels[j], r[1])
        known[key] = (r[0], tg, ran)
        return known[key]

    def on_switch(a, b, where):
        ctx.log('switch', a, b, where)
        ctx.state(labels[a], labels[b], where)

    switches = 0
    for n, schedule in enumerate(sc['schedules']):
        refs = [reference(j, schedule['scope'])
                for j in range(len(sc['threads']))]
        inits.clear()
        sd = sched.Scheduler([body(j, refs[j][1])
                              for j in range(len(sc['threads']))],
                             schedule['events'], on_switch,
                             schedule['scope'], common_places(
                                 [r[2] for r in refs]))
        try:
            outs = sd.run()
        except sched.Blocked:
            raise Skip('a thread waits for a paused one')
        if sd.error:
            raise RuntimeError(sd.error)
        ctx.count('switches', sd.switches)
        ctx.count('schedules', 1 if sd.switches else 0)
        switches += sd.switches
        for j in range(len(sc['threads'])):
            judge(sc, ctx, j, refs[j][0], records(j, outs[j]), labels,
                  lambda: built[j][1], imgs)
    if not switches:
        raise Skip('no switch happened')


def common_places(ran):
    """The lines that several threads run (or one of them)."""
    n = collections.Counter(p for places in ran for p in places)
    several = sorted(p for p in n if n[p] > 1)
    return several if len(several) >= 20 else sorted(n)


def judge(sc, ctx, j, ref, rec, labels, fitter, imgs):
    t = sc['threads'][j]
    got, value = rec
    rrec, rvalue = ref
    near = [l for i, l in enumerate(labels) if i != j]
    for k, (a, b) in enumerate(zip(rrec, got)):
        ctx.count('outcomes compared')
        shaky = None
        if t['job'] == 'fit' and a[0] == b[0] == 'ok':
            def shaky():
                s = t['fitter']
                args = zoo.fit_args(s, t['ops'][k], common.tremble(imgs))
                return common.outcome(lambda: snap.result(zoo.do_fit(
                    fitter(), s, t['ops'][k], imgs, args)))
        d = common.compare_fits(a, b, shaky)
        if d:
            ctx.violate('concurrent %s:%s' % (t['job'],
                                              labels[j].split('/')[0]),
                        'thread %d (%s) next to %s, operation %d: %s' % (
                            j, labels[j], near, k, d))
    if t['job'] == 'train':
        if isinstance(rvalue, tuple):
            d = common.compare_fits(rvalue, value)
        else:
            d = snap.diff(rvalue, value, 1e-7, 1e-9)
        if d:
            ctx.violate('concurrent training:' + labels[j].split('/')[0],
                        'thread %d (%s) next to %s trained something '
                        'else: %s' % (j, labels[j], near, d))
    ctx.log('done', j, [o[0] if o[0] == 'ok' else o[1] for o in got])


def name(t):
    if 'fitter' in t:
        return common.label(t['fitter'])
    m = t['model']
    return m['family'] + '/' + m.get('variant', '')


def simplify(sc):
    """Fewer schedules, threads, fits and faults; coarser schedules."""
    out = []

    def edit(f):
        c = json.loads(json.dumps(sc))
        if f(c) is not False:
            out.append(c)
    if len(sc['schedules']) > 1:
        for k in range(len(sc['schedules'])):
            edit(lambda c: c.update(schedules=[c['schedules'][k]]))
        return out
    for j in range(len(sc['threads'])):
        if len(sc['threads']) > 2:
            edit(lambda c: c['threads'].pop(j) and None)
        edit(lambda c: None if c['threads'][j].pop('fault', None) else False)
        if len(sc['threads'][j]['ops']) > 1:
            edit(lambda c: c['threads'][j]['ops'].pop() and None)
    ev = sc['schedules'][0]['events']
    size = len(ev) // 2
    while size >= 1:
        for i in range(0, len(ev), size)[:40]:
            def cut(c):
                e = c['schedules'][0]['events']
                c['schedules'][0]['events'] = e[:i] + e[i + size:]
            edit(cut)
        size //= 2
    for i in range(len(ev))[:30]:
        def join(c):
            # one switch less, at the same place otherwise
            e = c['schedules'][0]['events']
            if i + 2 < len(e) and 'at' not in (e[i][0], e[i + 2][0]):
                e[i + 2][0] += e[i][0]
                del e[i:i + 2]
        edit(join)
    return out
