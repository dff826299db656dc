"""C18: what was learned belongs to the model: later edits of the training
data do not change it."""
import json
from functools import partial

import numpy as np

from .. import common, faults, feats, snap, world, zoo
from ..engine import Skip
from . import c03

RUNS = {'quick': 1000, 'thorough': 10000}
RULE = ('a run draws a model or fitter family and its options and plays '
        'training, increments, constructions of fitters, queries and fits '
        'twice: once alone, and once against a caller who edits everything '
        'that was handed over (pixels, masks, landmarks, reference shapes, '
        'templates, option containers) as soon as a call has '
        'returned or failed, and who recycles the elements of a stream when '
        'the next batch is drawn; both executions have to agree; non trivial: '
        'at least one comparison after an edit; distinct by event log')
STATES = 'distinct (family, operation, kind of edit, outcome) tuples'
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)']
STUB = ['images are synthetic', 'the caller is played by the simulator: its '
        'edits happen between calls and between the batches of a stream',
        'faults are raised by a line tracer, by the callbacks and by a '
        'wrapped solver']
ASSUMES = ['graphs and callables are immutable',
           'the caller edits nothing while a call is working on it (elements '
           'of a batch that was not processed yet stay as they are)',
           'a model that a fitter was given is shared, not training data',
           'differences of a fit that rounding level changes of the image '
           'reproduce as well are not judged']
MIN_OPS = 1


# ------------------------------------------------------------------ editing

def edit(x, how, seen=None):
    """Overwrite (values) or take apart (structure) what a caller owns."""
    seen = {} if seen is None else seen
    if x is None or id(x) in seen:
        return
    seen[id(x)] = x
    values, structure = how != 'structure', how != 'values'
    if isinstance(x, np.ndarray):
        if values and x.size and x.flags.writeable:
            x[...] = ~x if x.dtype.kind == 'b' else x[::-1] * 2 + 1
    elif hasattr(x, 'pixels') and hasattr(x, 'landmarks'):
        if values:
            x.pixels[...] = np.flip(x.pixels, -1) * .5 + .2
            m = getattr(x, 'mask', None)
            if m is not None and hasattr(m, 'pixels'):
                m.pixels[...] = ~m.pixels
        for g in list(x.landmarks):
            edit(x.landmarks[g], how, seen)
        if structure:
            groups = list(x.landmarks)
            for g in groups[1:]:
                del x.landmarks[g]
            if groups:
                x.landmarks['renamed'] = x.landmarks[groups[0]]
                del x.landmarks[groups[0]]
    elif hasattr(x, 'points') and isinstance(x.points, np.ndarray):
        if values:
            x.points[...] = x.points[::-1] * 1.3 + 7.
    elif isinstance(x, dict):
        for v in x.values():
            edit(v, how, seen)
    elif isinstance(x, list):
        for v in x:
            edit(v, how, seen)
        if structure:
            del x[1:]
            if x:
                x[0] = 'gone'
    elif isinstance(x, tuple):
        for v in x:
            edit(v, how, seen)


HOWS = ['values', 'values', 'both', 'structure']


class Recycled(object):
    """A stream whose owner overwrites the elements of a batch when the first
    element of the next one is drawn."""

    def __init__(self, items, batch, how):
        self.items, self.batch, self.how, self.i = items, batch, how, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.how and self.i and self.i % self.batch == 0:
            edit(list(self.items[self.i - self.batch:self.i]), self.how)
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[self.i - 1]


# --------------------------------------------------------------- generation

def gen(rng, i):
    kind = rng.choice(['fitter'] * 8 + ['pdm', 'regression', 'filters'])
    if kind != 'fitter':
        return dict(kind=kind, seed=rng.randrange(10 ** 6),
                    cls=rng.choice({'pdm': ['PDM', 'OrthoPDM', 'Global'],
                                    'regression': ['IRL', 'IIRL', 'PCR',
                                                   'OPP', 'Optimal'],
                                    'filters': ['mccf', 'mosse']}[kind]),
                    max=rng.choice([None, 3]), bias=rng.random() < 0.5,
                    ops=[dict(op=rng.choice(['inc', 'use']),
                              n=rng.choice([2, 3, 5]), how='values')
                         for _ in range(rng.choice([1, 2, 3]))])
    s = zoo.gen_fitter(rng)
    sc = dict(kind=kind, fitter=s, ops=[])
    f = s['family']
    train = dict(op='train', how=rng.choice(HOWS),
                 ref=rng.choice([False, False, True, 'own']))
    if 'model' in s:
        if f == 'Unified':
            train['ref'] = False
        elif rng.random() < 0.25 and f != 'APS':
            train['batch'] = rng.choice([4, 5])
        if rng.random() < 0.3:
            train['containers'] = 'lists'
        if f == 'APS':
            s['model']['incremental'] = True
    sc['ops'].append(train)
    if rng.random() < 0.2:
        # an attempt that fails first
        sc['ops'].insert(0, dict(train, fault=faults.gen_fault(
            rng, ('line', 'line', 'hook', 'solve'))))
    if 'model' in s and f != 'Unified':
        for _ in range(rng.choice([0, 0, 1, 2])):
            d = dict(op='inc', how=rng.choice(HOWS), n=rng.choice([2, 3, 5]),
                     seed=rng.randrange(1000),
                     batch=rng.choice([None, None, 2]))
            if rng.random() < 0.3:
                d['fault'] = faults.gen_fault(rng, ('line', 'line', 'solve'))
            sc['ops'].append(d)
    sc['ops'].append(dict(op='fitter', how=rng.choice(HOWS),
                          ref=rng.choice([False, False, True, 'own'])
                          if f in ('SDM', 'Dlib') else False))
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = zoo.gen_fit(rng, s, easy=True)
        d['how'] = rng.choice(HOWS + [None])
        sc['ops'].append(d)
    return sc


# ------------------------------------------------------------------ playing

class Player(object):
    """Plays a scenario; ``careless``: edits everything in between."""

    def __init__(self, sc, ctx, careless, shake=False):
        self.sc, self.ctx, self.careless = sc, ctx, careless
        self.shake = shake
        self.model = self.fitter = None
        self.torn = False
        self.log = []
        self.deferred = []

    def edit(self, x, how):
        if self.careless and how:
            edit(x, how)
            if self.ctx is not None:
                self.ctx.fault('training data edited: ' + how)

    def note(self, op, out, rec=None):
        self.log.append((op['op'], out[0], out[1] if out[0] == 'exc' else '',
                         rec))

    def attempt(self, op, fn):
        return faults.with_fault(fn, op.get('fault'),
                                 self.ctx if self.careless else None)

    def play(self):
        for op in self.sc['ops']:
            getattr(self, 'do_' + op['op'])(op)
        return self.log

    def reading(self):
        if self.model is None or self.torn:
            return None
        # (reading a model must not change it: that is judged elsewhere)
        return common.outcome(lambda: snap.model(self.model))

    def do_train(self, op):
        s = self.sc['fitter']
        if 'model' not in s:
            return
        m = s['model']
        np.random.seed(s['np_seed'] % 2 ** 32)
        data = zoo.model_data(m)
        items = data[-1]
        kw = zoo.model_kwargs(m)
        if op.get('ref'):
            kw['reference_shape'] = reference(m['world']['kind'], op['ref'],
                                              items)
        c03.reshape_options(kw, op.get('containers'), len(m['scales']))
        pos = data
        if op.get('batch'):
            kw['batch_size'] = op['batch']
            pos = data[:-1] + (Recycled(items, op['batch'],
                                        self.careless and op['how']),)
        out = self.attempt(op, lambda: zoo.model_cls(m)(*pos, **kw))
        self.edit([list(data), kw], op['how'])
        if out[0] == 'ok':
            self.model, self.torn = out[1], False
        self.note(op, out, self.reading())

    def do_inc(self, op):
        m = self.sc['fitter']['model']
        if self.model is None:
            return
        w = dict(m['world'], seed=m['world']['seed'] + 77 + op['seed'],
                 n=op['n'])
        kw = dict(group='PTS')
        if m['family'] == 'ATM':
            data = (zoo.model_data(m)[0], world.shapes(
                w['seed'], w['n'], w['kind'], tuple(w['size'])))
        else:
            data = (world.images(w),)
        pos = data
        if op.get('batch'):
            kw['batch_size'] = op['batch']
            pos = data[:-1] + (Recycled(data[-1], op['batch'],
                                        self.careless and op['how']),)
        out = self.attempt(op, lambda: (self.model.increment(*pos, **kw),
                                        1)[1])
        self.edit(list(data), op['how'])
        if out[0] != 'ok':
            self.torn = True
        self.note(op, out, self.reading())

    def do_fitter(self, op):
        s = self.sc['fitter']
        f = s['family']
        if 'model' in s and (self.model is None or self.torn):
            return
        np.random.seed(s['np_seed'] % 2 ** 32)
        data = zoo.fitter_data(s) if f in ('SDM', 'Dlib', 'SDAAM',
                                           'LK') else None
        try:
            kw = zoo.fitter_kwargs(s, self.model)
        except Exception as e:
            self.note(op, ('exc', type(e).__name__))
            return
        if op.get('ref') and f in ('SDM', 'Dlib'):
            kw['reference_shape'] = reference(s['world']['kind'], op['ref'],
                                              data)
            if f == 'Dlib':
                # (its reference is a bounding box)
                kw['reference_shape'] = kw['reference_shape'].bounding_box()

        def mk():
            o = zoo.fitter_kwargs
            zoo.fitter_kwargs = lambda *a: kw
            try:
                return zoo.fitter_from(s, self.model, data)
            finally:
                zoo.fitter_kwargs = o
        out = self.attempt(op, mk)
        self.edit([data, kw], op['how'])
        if out[0] == 'ok':
            self.fitter = out[1]
        self.note(op, out, self.reading())

    def do_fit(self, op):
        if self.fitter is None:
            return
        s = self.sc['fitter']
        imgs = zoo.test_images(s)
        args = zoo.fit_args(s, op, imgs)
        if self.shake:
            (im, _), = common.tremble([(args[0], None)])
            args = (im,) + tuple(args[1:])
        out = common.outcome(lambda: snap.result(zoo.do_fit(
            self.fitter, s, op, None, args)))
        # what is handed over for a fit is the caller's as well
        self.edit(list(args), op.get('how'))
        self.log.append(('fit', out[0], out[1] if out[0] == 'exc' else '',
                         out))


def reference(kind, how, items):
    if how == 'own':
        # the very object that the first training shape is
        it = items[0]
        return it.landmarks['PTS'] if hasattr(it, 'pixels') else it
    return c03.reference_shape(kind, True)


def run(sc, ctx):
    if sc['kind'] != 'fitter':
        return {'pdm': run_pdm, 'regression': run_regression,
                'filters': run_filters}[sc['kind']](sc, ctx)
    lab = common.label(sc['fitter'])
    ctx.log(lab)
    alone = faults.isolated(lambda: Player(sc, None, False).play(), 120.)
    if alone[0] != 'ok':
        raise RuntimeError('reference: %r' % (alone,))
    if not [r for r in alone[1] if r[3] is not None]:
        raise Skip('untrainable: ' + (alone[1][-1][2] if alone[1] else '?'))
    got = Player(sc, ctx, True).play()

    shaken = []

    def shaky(i):
        if not shaken:
            shaken.append(faults.isolated(
                lambda: Player(sc, None, False, True).play(), 120.))
        r = shaken[0]
        return r[1][i][3] if r[0] == 'ok' else ('died', '')
    if [r[0] for r in alone[1]] != [r[0] for r in got]:
        ctx.violate('ownership:course', '%s: alone %s, with edits %s' % (
            lab, [r[:3] for r in alone[1]], [r[:3] for r in got]))
    for i, (a, b) in enumerate(zip(alone[1], got)):
        ctx.log(*b[:3])
        ctx.state(lab, b[0], b[1], b[2])
        if a[1:3] != b[1:3] and b[0] != 'fit':
            ctx.violate('ownership:' + lab.split('/')[0],
                        '%s: %s: alone %s, but %s after training data were '
                        'edited' % (lab, b[0], a[1:3], b[1:3]))
        if a[3] is None or b[3] is None:
            continue
        ctx.count('compared')
        if b[0] == 'fit':
            d = common.compare_fits(a[3], b[3], lambda: shaky(i))
        elif a[3][0] != 'ok' and b[3][0] != 'ok':
            d = None
        else:
            d = snap.diff(a[3], b[3], 1e-7, 1e-8)
        if d:
            ctx.violate('ownership:' + lab.split('/')[0],
                        '%s: after %s, what was learned changed with edits of '
                        'the training data (alone / with edits): %s' % (
                            lab, b[0], d))


# ---------------------------------------------------------- smaller learners

def twins(ctx, lab, a, b, what):
    d = snap.diff(a, b, 1e-8, 1e-9)
    ctx.count('compared')
    if d:
        ctx.violate('ownership:' + lab, '%s: %s changed with edits of the '
                    'training data (alone / with edits): %s' % (lab, what, d))


def run_pdm(sc, ctx):
    from menpofit import modelinstance as M
    from menpo.transform import AlignmentSimilarity

    def mk(shapes):
        if sc['cls'] == 'Global':
            return M.GlobalPDM(shapes, AlignmentSimilarity,
                               max_n_components=sc['max'])
        return getattr(M, sc['cls'])(shapes, max_n_components=sc['max'])

    def read(p):
        return dict(target=p.target.points.copy(), v=p.as_vector().copy(),
                    mean=p.model.mean().points.copy(),
                    comps=snap.linear(p.model), n=p.n_active_components)
    r = np.random.RandomState(sc['seed'])
    lab = 'pdm/' + sc['cls']
    data = [world.shapes(sc['seed'], 6) for _ in range(2)]
    a, b = mk(data[0]), mk(data[1])
    edit(data[1], 'both')
    ctx.fault('training data edited: both')
    twins(ctx, lab, read(a), read(b), 'the trained model')
    for op in sc['ops']:
        k = r.randint(1000)
        data = [world.shapes(k, op['n']) for _ in range(2)]
        if op['op'] == 'inc':
            a.increment(data[0])
            b.increment(data[1])
        else:
            a.set_target(data[0][0])
            b.set_target(data[1][0])
        edit(data[1], 'both')
        ctx.log(lab, op['op'])
        ctx.state(lab, op['op'])
        ctx.fault('training data edited: both')
        twins(ctx, lab, read(a), read(b), 'the model after ' + op['op'])


def run_regression(sc, ctx):
    import menpofit.math as X
    bias = sc['bias']
    mk = {'IRL': lambda: X.IRLRegression(alpha=.1, bias=bias,
                                         incrementable=True),
          'IIRL': lambda: X.IIRLRegression(alpha=.1, alpha2=.1),
          'PCR': lambda: X.PCRRegression(variance=.9, bias=bias),
          'OPP': lambda: X.OPPRegression(bias=bias),
          'Optimal': lambda: X.OptimalLinearRegression(
              variance=.9, bias=bias)}[sc['cls']]
    r = np.random.RandomState(sc['seed'])
    lab = 'regression/' + sc['cls']
    T = r.randn(5, 6)

    def data(n):
        x, y = r.randn(n, 6), r.randn(n, 6 if sc['cls'] == 'OPP' else 4)
        return (x.copy(), y.copy()), (x.copy(), y.copy())
    a, b = mk(), mk()
    d0, d1 = data(30)
    a.train(*d0)
    b.train(*d1)
    edit(list(d1), 'values')
    twins(ctx, lab, a.predict(T.copy()), b.predict(T.copy()), 'predictions')
    for op in sc['ops']:
        d0, d1 = data(op['n'])
        if op['op'] == 'inc':
            out = [common.outcome(lambda: o.increment(*d))
                   for o, d in ((a, d0), (b, d1))]
            if out[0][:2] != out[1][:2]:
                ctx.violate('ownership:' + lab, '%s: increments: %s / %s' % (
                    lab, out[0], out[1]))
            edit(list(d1), 'values')
        else:
            # a prediction is the caller's
            t = T.copy()
            p = b.predict(t)
            edit([t, p], 'values')
        ctx.fault('training data edited: values')
        ctx.log(lab, op['op'])
        ctx.state(lab, op['op'])
        twins(ctx, lab, a.predict(T.copy()), b.predict(T.copy()),
              'predictions after ' + op['op'])


def run_filters(sc, ctx):
    from menpo.image import Image
    from menpofit.clm import CorrelationFilterExpertEnsemble as E
    from menpofit.clm.expert.base import \
        IncrementalCorrelationFilterThinWrapper as W
    from menpofit.math import correlationfilter as cf
    lab = 'filters/' + sc['cls']
    icf = W if sc['cls'] == 'mccf' else partial(
        W, cf_callable=cf.mosse, icf_callable=cf.imosse)
    r = np.random.RandomState(sc['seed'])
    ch = 1 if sc['cls'] == 'mosse' else int(r.randint(1, 3))

    def data(n):
        k = r.randint(10 ** 6)
        out = []
        for _ in range(2):
            ims = world.images(dict(seed=k, n=n, kind='pc', channels=ch))
            out.append((ims, [im.landmarks['PTS'].copy() for im in ims]))
        return out

    def read(e):
        return dict(f=[np.asarray(x).copy() for x in e.spatial_filter_images]
                    if isinstance(e.spatial_filter_images[0], np.ndarray)
                    else [x.pixels.copy() for x in e.spatial_filter_images],
                    n=e.n_experts)
    off = r.choice(['none', 'some'])
    offs = [np.array([[0, 0], [1, 0]]) if off == 'some' else None
            for _ in range(2)]
    d0, d1 = data(5)
    k = dict(icf_cls=icf, patch_shape=(8, 8), context_shape=(16, 16))
    a = E(d0[0], d0[1], sample_offsets=offs[0], **k)
    b = E(d1[0], d1[1], sample_offsets=offs[1], **k)
    edit([list(d1), offs[1]], 'both')
    twins(ctx, lab, read(a), read(b), 'the filters')
    for op in sc['ops']:
        d0, d1 = data(op['n'])
        if op['op'] == 'inc':
            a.increment(*d0)
            b.increment(*d1)
            edit(list(d1), 'both')
        else:
            p = [e.predict_response(im[0], sh[0]) for e, im, sh in
                 ((a, d0[0], d0[1]), (b, d1[0], d1[1]))]
            twins(ctx, lab, p[0], p[1].copy(), 'responses')
            edit([list(d1), p[1]], 'both')
        ctx.fault('training data edited: both')
        ctx.log(lab, op['op'])
        ctx.state(lab, op['op'])
        twins(ctx, lab, read(a), read(b), 'the filters after ' + op['op'])


def simplify(sc):
    out = []
    if sc['kind'] == 'fitter':
        out += common.simplify_fitter(sc)
        for k in ('ref', 'batch', 'containers'):
            c = json.loads(json.dumps(sc))
            if any(o.pop(k, None) for o in c['ops']):
                out.append(c)
    return out
