"""C06: streamed training consumes every batch once, in order and lazily."""
import itertools

import numpy as np

from .. import common, faults, refmodel, snap, world, zoo
from ..engine import Skip

RUNS = {'quick': 900, 'thorough': 9000}
RULE = ('a run draws a model family and its options, a stream of training '
        'elements, batch sizes and the element at which the stream fails, is '
        'interrupted or ends (or never ends), trains and increments from the '
        'stream, resumes, and compares the model after every step with first '
        'batch plus increments; non trivial: at least one comparison was '
        'done; distinct by event log')
STATES = ('distinct (family, operation, complete batches, rest, how the '
          'stream ended) tuples')
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy']
STUB = ['the training streams (they count, fail and interrupt)',
        'images are synthetic']
ASSUMES = ['two models are equal if their means, spectra, projectors, '
           'templates, precisions, filters, reports and instances are',
           'cascaded fitters (SDM, SDAAM) refuse to train in batches '
           '(NotImplementedError) and are not part of this']
MIN_OPS = 1
BIG = 10 ** 6


def gen(rng, i):
    kind = rng.choice(['model'] * 8 + ['batch'] * 2)
    if kind == 'batch':
        return dict(kind=kind, ops=[dict(
            op='batch', n=rng.choice([1, 2, 3, 5, 8]),
            total=rng.choice([0, 1, 2, 3, 5, 8, 13, BIG]),
            consume=rng.choice([0, 1, 2, 3, 9]),
            fail=rng.choice([None, None, 0, 1, 3, 4, 6, 7]),
            exc=rng.choice(['io', 'interrupt', 'memory']),
            source=rng.choice(['iter', 'gen', 'list', 'tuple', 'lazy']))
            for _ in range(rng.choice([1, 2, 4]))])
    m = zoo.gen_model(rng, rng.choice(['AAM', 'AAM', 'AAM', 'ATM', 'ATM',
                                       'CLM', 'CLM', 'APS', 'APS']))
    m['incremental'] = True
    ops = [gen_op(rng, 'train', m)]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        ops.append(gen_op(rng, 'inc', m))
    return dict(kind=kind, model=m, ops=ops, ref=rng.random() < 0.4)


def gen_op(rng, op, m):
    b = rng.choice([4, 5, 5, 6]) if op == 'train' else rng.choice([1, 2, 3])
    if op == 'train' and m['family'] == 'APS':
        # (its precision matrices invert the covariances of the first batch)
        b += 3
    d = dict(op=op, batch=b, seed=rng.randrange(1000))
    k = rng.choice([0, 1, 1, 2, 2])
    rest = rng.randrange(b)
    d['n'] = b * k + rest
    if op == 'train' and d['n'] < (7 if m['family'] == 'APS' else 4):
        d['n'] = b + rest
    # how the stream ends: properly, with an error, or never
    d['end'] = rng.choice(['stop', 'stop', 'io', 'interrupt', 'memory',
                           'endless'])
    d['source'] = rng.choice(['iter', 'gen'])
    d['resume'] = rng.random() < 0.6
    if op == 'inc' and m['family'] in ('AAM', 'ATM', 'CLM') and \
            rng.random() < 0.5:
        d['ff'] = rng.choice([0.5, 0.9])
        if m['family'] == 'AAM':
            d['aff'] = rng.choice([0.5, 0.8])
    if rng.random() < 0.1:
        d['verbose'] = True
    return d


class Source(object):
    """A stream that counts what is drawn, and how it ends."""

    def __init__(self, make, n, end):
        self.make, self.n, self.end = make, n, end
        self.drawn = 0
        self.asked_again = 0
        self.over = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.over:
            self.asked_again += 1
            raise StopIteration
        if self.drawn >= self.n:
            self.over = True
            if self.end == 'stop':
                raise StopIteration
            raise faults.EXC['interrupt' if self.end == 'endless'
                             else self.end]('stream')
        self.drawn += 1
        return self.make(self.drawn - 1)

    def as_kind(self, kind):
        if kind == 'gen':
            return (x for x in self)
        return self


def element(m, op, i):
    """The i-th training element of an operation, always a fresh object."""
    w = m['world']
    seed = (w['seed'] + 31 * op['seed'] + (500 if op['op'] == 'inc' else
                                           0)) * 1000 + i
    if m['family'] == 'ATM':
        return world.as_kind(world.points(seed, tuple(w['size'])), w['kind'])
    return world.image(seed, tuple(w['size']), w['channels'], w['kind'],
                       w['masked'], True, 0, w['extra'])


def template(m):
    w = m['world']
    return world.image(w['seed'] * 1000, tuple(w['size']), w['channels'],
                       w['kind'], w['masked'])


def pos(m, data):
    return (template(m), data) if m['family'] == 'ATM' else (data,)


def inc_kw(m, op):
    kw = dict(group='PTS')
    if op.get('ff'):
        kw['shape_forgetting_factor'] = op['ff']
    if op.get('aff'):
        kw['appearance_forgetting_factor'] = op['aff']
    return kw


def run_model(sc, ctx):
    m = sc['model']
    lab = m['family'] + '/' + m.get('variant', '')
    ctx.log(lab)
    kw = zoo.model_kwargs(m)
    if sc.get('ref'):
        kw['reference_shape'] = world.as_kind(
            world.base_shape() * 0.7 + 20, m['world']['kind'])

    def kwargs():
        k = dict(kw)
        if 'reference_shape' in k:
            k['reference_shape'] = k['reference_shape'].copy()
        return k
    cls = zoo.model_cls(m)
    ref = obj = None
    small = refmodel.Ref(m, reference=kwargs().get('reference_shape')) \
        if refmodel.supported(m) else None
    for op in sc['ops']:
        b, n = op['batch'], op['n']
        full = n // b
        proper = op['end'] == 'stop'
        parts = [list(range(k * b, (k + 1) * b)) for k in range(full)]
        rest = list(range(full * b, n))

        def feed_ref(which, ref):
            data = [element(m, op, i) for i in which]
            if ref is None:
                ref = cls(*pos(m, data), **kwargs())
                learn(op, which)
                return ref
            learn(op, which)
            ref.increment(*pos(m, data), **inc_kw(m, op))
            return ref
        def learn(op, which):
            if small is not None:
                small.learn([element(m, op, i) for i in which],
                            op.get('ff') or 1., op.get('aff') or 1.)
        # the reference: first batch, then one increment per batch
        try:
            for p in parts + ([rest] if rest and proper else []):
                ref = feed_ref(p, ref)
        except Exception as e:
            untrainable(ctx, lab, op, e)
        src = Source(lambda i: element(m, op, i), n, op['end'])
        k2 = kwargs() if op['op'] == 'train' else inc_kw(m, op)
        k2['batch_size'] = b
        if op.get('verbose'):
            k2['verbose'] = True
        err = None
        if op['op'] == 'train':
            obj = cls.__new__(cls)
            call = obj.__init__
        else:
            call = obj.increment
        try:
            call(*pos(m, src.as_kind(op['source'])), **k2)
        except (Exception, KeyboardInterrupt) as e:
            err = e
        ctx.log(op['op'], 'batch', b, 'elements', n, op['end'],
                type(err).__name__)
        ctx.count(op['op'])
        if not proper:
            ctx.fault('stream: ' + op['end'])
        ctx.state(lab, op['op'], full, len(rest), op['end'])
        how = '%s: %s from a stream of %d (%s), batches of %d' % (
            lab, op['op'], n, op['end'], b)
        if src.drawn != n:
            ctx.violate('elements drawn:' + m['family'],
                        '%s: %d elements were drawn' % (how, src.drawn))
        if proper and err is not None:
            ctx.violate('stream fails:' + m['family'],
                        '%s: raises %s: %s' % (how, type(err).__name__, err))
        want = 'SimInterrupt' if op['end'] in ('interrupt', 'endless') else {
            'io': 'SimIOError', 'memory': 'SimMemoryError'}.get(op['end'])
        if not proper and type(err).__name__ != want:
            ctx.violate('stream error lost:' + m['family'],
                        '%s: the error of the stream did not arrive (%r)' % (
                            how, err))
        if ref is None:
            # not even one batch was complete: there is no model yet
            return
        compare(ctx, m, ref, obj, how, full, small)
        if not proper and op.get('resume'):
            more = rest + [n, n + 1]
            if full == 0 and op['op'] == 'train':
                return
            o3 = dict(op)
            batches = [more[k:k + b] for k in range(0, len(more), b)]
            try:
                for p in batches:
                    learn(op, p)
                    ref.increment(*pos(m, [element(m, op, i) for i in p]),
                                  **inc_kw(m, op))
            except Exception as e:
                untrainable(ctx, lab, op, e)
            it = iter(more)
            obj.increment(*pos(m, (element(m, op, i) for i in it)),
                          batch_size=b, **inc_kw(m, op))
            ctx.log('resumed with', len(more))
            ctx.count('resumed')
            compare(ctx, m, ref, obj, how + ', resumed', full, small)


def untrainable(ctx, lab, op, e):
    if isinstance(e, np.linalg.LinAlgError):
        raise Skip('untrainable: LinAlgError')
    ctx.violate('batch refused:' + lab, '%s: %s with batches of %d: %s: %s' % (
        lab, op['op'], op['batch'], type(e).__name__, e))


def compare(ctx, m, ref, obj, how, full, small):
    a = common.outcome(lambda: snap.model(ref))
    b = common.outcome(lambda: snap.model(obj))
    ctx.count('models compared')
    if a[0] != b[0]:
        ctx.violate('streamed model:' + m['family'],
                    '%s: the model %s, it should %s' % (how, b, a))
    d = snap.diff(a[1], b[1], 1e-7, 1e-8)
    if d:
        ctx.violate('streamed model:' + m['family'],
                    '%s: after %d complete batches the model is not that of '
                    'training on the first and incrementing with the '
                    'others: %s' % (how, full, d))
    for f in ('shape_models', 'appearance_models', 'warped_templates',
              'expert_ensembles', 'deformation_models'):
        if hasattr(obj, f) and len(getattr(obj, f)) != obj.n_scales:
            ctx.violate('scales:' + m['family'], '%s: %d %s for %d scales' % (
                how, len(getattr(obj, f)), f, obj.n_scales))
    for j in range(obj.n_scales if hasattr(obj, 'shape_models') else 0):
        r = off_similarity(b[1]['scale%d' % j]['shape'])
        if r is not None and r > 1e-6:
            ctx.violate('similarities:' + m['family'],
                        '%s: on scale %d the similarity parameters do not '
                        'cover the similarities of the mean shape (%.3g of '
                        'its size off)' % (how, j, r))
    if small is None:
        return
    ctx.count('compared with the reference model')
    d = snap.diff(small.record(), refmodel.of_model(obj), 1e-6, 1e-7)
    if d:
        ctx.violate('learned:' + m['family'],
                    '%s: the model is not what its batches teach (%d '
                    'elements): %s' % (how, small.seen, d))


def off_similarity(d):
    """How far what the similarity parameters generate is from a similarity
    of the mean, or how far from such a shape it gets as its target."""
    if not isinstance(d.get('moved'), np.ndarray) or \
            not isinstance(d.get('mean'), np.ndarray):
        return None
    x = d['mean'].reshape(-1, 2).dot([1., 1j])
    y = d['moved'].dot([1., 1j])
    if x.shape != y.shape or not np.isfinite([x, y]).all():
        return None
    A = np.c_[x, np.ones(len(x))]
    sol = np.linalg.lstsq(A, y, rcond=None)[0]
    size = max(np.ptp(y.real), np.ptp(y.imag))
    r = np.abs(A.dot(sol) - y).max()
    if isinstance(d.get('hit'), np.ndarray):
        r = max(r, np.abs(d['hit'] - d['aim']).max())
    return r / size


def run_batch(sc, ctx):
    """The batching of any iterable."""
    from menpofit.base import batch
    for op in sc['ops']:
        n, total = op['n'], op['total']
        fail = op['fail']
        if total == BIG and op['source'] in ('list', 'tuple', 'lazy'):
            op = dict(op, source='iter')
        if op['source'] in ('list', 'tuple', 'lazy'):
            fail = None
        end = min(total, BIG if fail is None else fail)
        src = Source(lambda i: i, end, 'stop' if fail is None or
                     fail >= total else op['exc'])
        if op['source'] == 'list':
            it = list(range(total))
        elif op['source'] == 'tuple':
            it = tuple(range(total))
        elif op['source'] == 'lazy':
            from menpo.base import LazyList
            it = LazyList.init_from_iterable(list(range(total)))
        else:
            it = src.as_kind(op['source'])
        got, err = [], None
        watch = op['source'] in ('iter', 'gen')
        b = batch(it, n)
        if watch and src.drawn:
            ctx.violate('eager batches', 'elements were drawn before the '
                        'first batch was asked for')
        k = 0
        bound = op['consume'] if total == BIG and fail is None else 10 ** 9
        try:
            while k < bound:
                c = next(b)
                k += 1
                got.append([int(x) for x in c])
                if watch and src.drawn > k * n:
                    ctx.violate('reads ahead', '%d elements were drawn for '
                                '%d batches of %d' % (src.drawn, k, n))
        except StopIteration:
            pass
        except (Exception, KeyboardInterrupt) as e:
            err = type(e).__name__
            ctx.fault('stream: ' + op['exc'])
        ctx.log('batches', k, err)
        ctx.state('batch', op['source'], n, min(total, 20), fail)
        ctx.count('batched streams')
        alln = list(range(min(end, bound * n)))
        broken = src.end != 'stop' and watch
        full = [alln[j:j + n] for j in range(0, len(alln), n)]
        if broken and full and len(full[-1]) < n:
            full = full[:-1]        # never completed
        if got != full:
            ctx.violate('batches', '%d elements in batches of %d came as '
                        '%r' % (end, n, got[:8]))
        if broken and err is None and bound > k:
            ctx.violate('stream error lost:batch', 'the error of the stream '
                        'did not arrive')


def run(sc, ctx):
    {'model': run_model, 'batch': run_batch}[sc['kind']](sc, ctx)


def simplify(sc):
    import json
    out = []
    if 'model' in sc:
        for f in (dict(scales=[1.0], features='no_op', max_shape=3),
                  dict(features='no_op')):
            c = json.loads(json.dumps(sc))
            c['model'].update(f)
            if 'max_app' in c['model']:
                c['model']['max_app'] = 3
            p = c['model'].get('patch_shape')
            if p and isinstance(p[0], list):
                c['model']['patch_shape'] = p[0]
            out.append(c)
    return out
