"""C07: learning incrementally equals learning at once."""
import copy
import pickle

import numpy as np

from .. import common, snap, world, zoo
from ..engine import Skip
from .c06 import Source

RUNS = {'quick': 3000, 'thorough': 20000}
RULE = ('a run draws a sample set, an arrival order, a split into batches and '
        'what happens between them (failing streams, queries, fits, '
        'checkpoints, rejected batches), feeds the learner and compares it '
        'with the one that saw everything at once; non trivial: at least one '
        'comparison with two or more batches; distinct by event log')
STATES = 'distinct (learner, options, batch sizes, disturbance) tuples'
REAL = ['menpofit.math.regression', 'menpofit.aam', 'menpofit.builder',
        'menpofit.modelinstance', 'menpofit.math.correlationfilter',
        'menpofit.clm.expert', 'menpofit.clm', 'menpo', 'numpy']
STUB = ['the arrival of samples and batches', 'images are synthetic']
ASSUMES = ['the data are well conditioned (condition number of the first '
           'batch below 1e5), as without regularisation the answer is not '
           'unique otherwise',
           'linear AAMs build their dense frame from the first batch and are '
           'not covered by the statement']
MIN_OPS = 1


FILTERS = ['mccf', 'mccf', 'mosse']


def gen_filters(rng):
    ops = [dict(op='train', n=rng.choice([1, 1, 2, 3, 5]))]
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops.append(dict(op='inc', n=rng.choice([1, 1, 2, 3, 4]),
                        ff=rng.choice([None, None, None, 0.25, 0.8]),
                        between=rng.choice([None, None, 'predict', 'pickle',
                                            'deepcopy', 'narrow'])))
    return dict(kind='filters', what=rng.choice(
        ['ensemble', 'ensemble', 'function', 'clm']),
        filter=rng.choice(FILTERS),
        channels=rng.choice([1, 1, 2, 3]), seed=rng.randrange(10 ** 6),
        patch=rng.choice([[5, 5], [7, 5], [4, 6]]),
        context=rng.choice([[9, 9], [8, 11], [12, 12]]),
        l=rng.choice([0.01, 0.01, 1.]), mask=rng.random() < 0.5,
        kindpc=rng.choice(['pc', 'trimesh', 'graph']),
        norm=rng.choice(['default', 'none']),
        boundary=rng.choice(['constant', 'symmetric']),
        offsets=rng.random() < 0.2, ops=ops, order=rng.random() < 0.7)


def gen(rng, i):
    if rng.random() < 0.15:
        return gen_filters(rng)
    if rng.random() < 0.75:
        d = rng.choice([1, 2, 3, 5, 8, 13])
        sc = dict(kind='regression', seed=rng.randrange(10 ** 6), d=d,
                  k=rng.choice([1, 2, 4]), alpha=rng.choice(
                      [0, 0, 1e-3, 0.1, 1., 10., 1000., 1]),
                  bias=rng.random() < 0.5,
                  offset=rng.choice([0., 1., 5.]),
                  scale=rng.choice([1., 1., 0.01, 30.]),
                  noise=rng.choice([0., 0.1, 3.]))
        sc['alpha'] *= sc['scale'] ** 2
        first = rng.choice([1, 2, d, d + 1, d + 2, 2 * d + 3])
        if not sc['alpha']:
            first = max(first, d + 2)
        ops = [dict(op='train', n=first)]
        for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
            ops.append(dict(op='inc', n=rng.choice([1, 1, 2, 3, d, d + 3,
                                                    2 * d + 2]),
                            between=rng.choice([None] * 4 + [
                                'predict', 'pickle', 'deepcopy', 'narrow',
                                'fork'])))
        sc['ops'] = ops
        sc['order'] = rng.random() < 0.7
        return sc
    m = zoo.gen_model(rng, 'AAM', rng.choice(
        ['HolisticAAM', 'MaskedAAM', 'PatchAAM']))
    m['max_app'] = None
    m['world']['seed'] = rng.randrange(10 ** 6)
    ops = [dict(op='train', n=rng.choice([2, 3, 4, 5]))]
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append(dict(op='inc', n=rng.choice([1, 2, 3, 4]),
                        ff=rng.choice([None, None, 0.5, 0.9]),
                        how=rng.choice(['list', 'list', 'stream', 'broken']),
                        batch=rng.choice([1, 2, 3]),
                        between=rng.choice([None, None, 'instance', 'fit',
                                            'pickle', 'str'])))
    return dict(kind='aam', model=m, ops=ops, order=rng.random() < 0.7)


def closed_form(X, Y, alpha, bias):
    if bias:
        X = np.hstack((X, np.ones((len(X), 1))))
    A = np.vstack((X, np.sqrt(alpha) * np.eye(X.shape[1])))
    B = np.vstack((Y, np.zeros((X.shape[1], Y.shape[1]))))
    return np.linalg.lstsq(A, B, rcond=None)[0]


def run_regression(sc, ctx):
    from menpofit.math import IRLRegression
    r = np.random.RandomState(sc['seed'])
    n = sum(o['n'] for o in sc['ops'])
    d, k, alpha, bias = sc['d'], sc['k'], sc['alpha'], sc['bias']
    X = sc['scale'] * (r.randn(n, d) + sc['offset'])
    Y = X.dot(r.randn(d, k)) + sc['noise'] * r.randn(n, k) + 1.
    order = r.permutation(n) if sc['order'] else np.arange(n)
    T = sc['scale'] * (r.randn(5, d) + sc['offset'])
    T1 = np.hstack((T, np.ones((5, 1)))) if bias else T

    def fresh(inc=True):
        return IRLRegression(alpha=alpha, bias=bias, incrementable=inc)
    reg = None
    at = 0
    lab = 'alpha=%g, bias=%s, %d features' % (alpha, bias, d)
    sizes = []
    for op in sc['ops']:
        idx = order[at:at + op['n']]
        at += op['n']
        sizes.append(op['n'])
        x, y = X[idx].copy(), Y[idx].copy()
        b = op.get('between')
        if reg is None:
            reg = fresh()
            z = np.hstack((x, np.ones((len(x), 1)))) if bias else x
            if np.linalg.cond(z.T.dot(z) + alpha * np.eye(z.shape[1])) > 1e5:
                raise Skip('ill conditioned')
            reg.train(x, y)
        else:
            if b == 'predict':
                reg.predict(T)
            elif b == 'pickle':
                reg = pickle.loads(pickle.dumps(reg))
            elif b == 'deepcopy':
                old, reg = reg, copy.deepcopy(reg)
                common.outcome(lambda: old.increment(x * 3 + 1, y - 5))
            elif b == 'narrow':
                # samples of the wrong width are refused
                out = common.outcome(lambda: reg.increment(
                    np.ones((2, d + 3)), np.ones((2, k))))
                if out[0] == 'ok':
                    ctx.violate('accepts wrong samples', lab)
                ctx.fault('rejected batch')
            elif b == 'fork':
                # another learner of the same kind at work
                o = fresh()
                if alpha:
                    o.train(x[:1].repeat(2, 0) + r.randn(2, d),
                            y[:1].repeat(2, 0))
                    common.outcome(lambda: o.increment(x + 2, y))
            out = common.outcome(lambda: reg.increment(x, y))
            if out[0] != 'ok':
                ctx.violate('increment fails', '%s: batches %s: %s' % (
                    lab, sizes, out))
        ctx.state(alpha, bias, d, op['op'], min(op['n'], d + 1), b)
        seen = order[:at]
        W = closed_form(X[seen], Y[seen], alpha, bias)
        once = fresh(False)
        once.train(X[seen].copy(), Y[seen].copy())
        want = T1.dot(W)
        for name, got in (('the incremental learner', reg.predict(T)),
                          ('the batch learner', once.predict(T)),
                          ('single predictions', np.array(
                              [reg.predict(t) for t in T]))):
            size = np.abs(T1).dot(np.abs(W)).max() + np.abs(want).max()
            if np.shape(got) != np.shape(want) or not \
                    np.abs(got - want).max() <= 1e-5 * size:
                ctx.violate('regression:' + name.split()[1],
                            '%s: after batches of %s samples, %s differs '
                            'from the regression on all of them by %.3g (of '
                            '%.3g)' % (lab, sizes, name, np.abs(
                                np.asarray(got) - want).max(), size))
        ctx.count('regressions compared')
    ctx.log(lab, sizes, 'order' if sc['order'] else '')


def run_aam(sc, ctx):
    m = sc['model']
    w = m['world']
    n = sum(o['n'] for o in sc['ops'])
    order = list(np.random.RandomState(w['seed'] + 1).permutation(n)) \
        if sc['order'] else list(range(n))
    lab = m['variant']

    def images(idx):
        return [world.image(w['seed'] * 1000 + int(j), tuple(w['size']),
                            w['channels'], w['kind'], w['masked'])
                for j in idx]
    kw = zoo.model_kwargs(m)
    ref = world.as_kind(world.base_shape() * 0.6 + 20, w['kind'])
    cls = zoo.model_cls(m)

    def make(idx):
        return cls(*[images(idx)], **dict(kw, reference_shape=ref.copy()))
    at, model, sizes = 0, None, []
    for op in sc['ops']:
        idx = order[at:at + op['n']]
        at += op['n']
        how = op.get('how', 'list')
        ctx.log(op['op'], op['n'], how, op.get('between'))
        if model is None:
            model = make(idx)
            sizes.append(op['n'])
            continue
        between(ctx, m, op.get('between'), model)
        if op.get('between') == 'pickle':
            model = pickle.loads(pickle.dumps(model))
        k = dict(group='PTS')
        if op.get('ff'):
            k['shape_forgetting_factor'] = op['ff']
        if how == 'list':
            model.increment(images(idx), **k)
            sizes.append(op['n'])
        else:
            b = op['batch']
            end = 'stop' if how == 'stream' else 'io'
            src = Source(lambda j: images([idx[j]])[0], len(idx), end)
            k['batch_size'] = b
            out = common.outcome(lambda: model.increment(src, **k))
            if how == 'broken':
                if out[0] == 'ok' or out[1] != 'SimIOError':
                    ctx.violate('stream error lost', '%s: %s' % (lab, out))
                ctx.fault('stream: io')
                rest = idx[len(idx) // b * b:]
                sizes += [b] * (len(idx) // b)
                if rest:
                    model.increment(images(rest), group='PTS')
                    sizes.append(len(rest))
            elif out[0] != 'ok':
                ctx.violate('stream refused', '%s: %s' % (lab, out))
            else:
                sizes += [b] * (len(idx) // b) + (
                    [len(idx) % b] if len(idx) % b else [])
        ctx.state(lab, op['n'], how, op.get('between'), len(m['scales']))
        once = make(order[:at])
        for j in range(once.n_scales):
            d = snap.diff(snap.appearance_model(once.appearance_models[j]),
                          snap.appearance_model(model.appearance_models[j]),
                          1e-5, 1e-7)
            if d:
                ctx.violate('appearance:' + lab,
                            '%s: after batches of %s images, the appearance '
                            'model of scale %d is not that of all the images '
                            'at once (once / incrementally): %s' % (
                                lab, sizes, j, d))
        ctx.count('appearance models compared')


def same_norm(x):
    return x


def dense(a):
    return np.asarray(a.todense()) if hasattr(a, 'todense') else np.asarray(a)


def solve_filters(X, w, y, l, boundary, multi):
    """The filters that solve the (weighted) least squares problem, one
    frequency after the other."""
    n, k, hx, wx = X.shape
    H, W = hx + y.shape[-2] - 1, wx + y.shape[-1] - 1

    def extend(a, mode):
        t, s = (H - a.shape[-2] + 1) // 2, (W - a.shape[-1] + 1) // 2
        return np.pad(a, [(t, H - a.shape[-2] - t),
                          (s, W - a.shape[-1] - s)], mode)
    F = np.array([[np.fft.fft2(extend(c, boundary)) for c in x] for x in X])
    G = np.fft.fft2(extend(y[0], 'constant'))
    f = np.zeros((k, H, W), complex)
    for a in range(H):
        for b in range(W):
            v = F[:, :, a, b]
            if multi:
                A = (w[:, None, None] * v.conj()[:, :, None] *
                     v[:, None, :]).sum(0) + l * np.eye(k)
                f[:, a, b] = np.linalg.solve(
                    A, (w[:, None] * v.conj()).sum(0) * G[a, b])
            else:
                f[:, a, b] = (w[:, None] * v.conj()).sum(0) * G[a, b] / (
                    (w[:, None] * np.abs(v) ** 2).sum(0) + l)
    f = np.real(np.fft.ifftshift(np.fft.ifft2(f), axes=(-2, -1)))
    t, s = (H - y.shape[-2] + 1) // 2, (W - y.shape[-1] + 1) // 2
    return f[:, t:t + y.shape[-2], s:s + y.shape[-1]]


def run_filters(sc, ctx):
    from functools import partial

    from menpo.feature import ndfeature
    from menpofit.clm.expert.base import \
        IncrementalCorrelationFilterThinWrapper as Wrapper
    from menpofit.clm.expert.ensemble import CorrelationFilterExpertEnsemble
    from menpofit.math import correlationfilter as M
    if sc['what'] == 'clm':
        return run_clm(sc, ctx)
    name, ops, l = sc['filter'], sc['ops'], sc['l']
    n = sum(o['n'] for o in ops)
    r = np.random.RandomState(sc['seed'])
    order = [int(j) for j in r.permutation(n)] if sc['order'] \
        else list(range(n))
    lab = '%s (%s), %d channels' % (name, sc['what'], sc['channels'])
    opts = dict(l=l, boundary=sc['boundary'])
    batch = partial(getattr(M, name), **opts)
    inc = partial(getattr(M, 'i' + name), **opts)
    sizes, at, w = [], 0, np.zeros(0)
    if sc['what'] == 'function':
        X = r.rand(n, sc['channels'], *sc['context'])
        y = r.rand(1, *sc['patch'])
        state = None
        for op in ops:
            x = X[order[at:at + op['n']]].copy()
            at += op['n']
            f = op.get('ff') or 1.0
            sizes.append(op['n'])
            w = np.r_[w * f, np.ones(op['n'])]
            if state is None:
                flt, A, B = batch(x, y.copy())
            else:
                old = [dense(a).copy() for a in state]
                keep = x.copy(), y.copy()
                flt, A, B = inc(state[0], state[1], at - op['n'], x, y, f=f)
                for a, b in zip(state, old):
                    if not np.array_equal(dense(a), b):
                        ctx.violate('filters: state', '%s: an increment '
                                    'changed the sums it was given' % lab)
                if not (np.array_equal(x, keep[0]) and
                        np.array_equal(y, keep[1])):
                    ctx.violate('filters: state', '%s: an increment changed '
                                'its samples' % lab)
            state = (A, B)
            seen = X[order[:at]]
            want = solve_filters(seen, w, y, l, sc['boundary'],
                                 name == 'mccf')
            judge_filters(ctx, lab, sizes, flt, want, 'the closed form')
            if (w == 1).all():
                judge_filters(ctx, lab, sizes, flt, batch(seen, y)[0],
                              'training on all of them')
            ctx.state('function', name, sc['channels'], op['n'],
                      op.get('ff'), sc['boundary'])
        ctx.log(lab, sizes)
        return
    images = [world.image(sc['seed'] * 100 + j, (44, 44), sc['channels'])
              for j in range(n)]
    shapes = [world.as_kind(i.landmarks['PTS'].points, sc['kindpc'])
              for i in images]
    kw = dict(icf_cls=partial(Wrapper, cf_callable=batch, icf_callable=inc),
              patch_shape=tuple(sc['patch']),
              context_shape=tuple(sc['context']), cosine_mask=sc['mask'])
    if sc['norm'] == 'none':
        kw['patch_normalisation'] = same_norm
    if sc['offsets']:
        kw['sample_offsets'] = np.array([[0, 0], [1, 0]])

    def pick(idx):
        return [images[j].copy() for j in idx], [shapes[j].copy()
                                                 for j in idx]
    e = None
    probe = images[0].copy(), shapes[0].copy()
    for op in ops:
        idx = order[at:at + op['n']]
        at += op['n']
        sizes.append(op['n'])
        b = op.get('between')
        if e is None:
            e = CorrelationFilterExpertEnsemble(*pick(idx), **kw)
        else:
            if b == 'predict':
                e.predict_response(*probe)
                e.spatial_filter_images
            elif b == 'deepcopy':
                old, e = e, copy.deepcopy(e)
                old.increment(*pick(idx[::-1] + idx))
            elif b == 'pickle' and sc['norm'] != 'none':
                out = common.outcome(lambda: pickle.loads(pickle.dumps(e)))
                if out[0] == 'ok':
                    e = out[1]
            elif b == 'narrow':
                before = snap.experts(e), e.n_images
                i, s = pick(idx)
                out = common.outcome(lambda: e.increment(
                    [images[0].crop([0, 0], [3, 3])] if not i else
                    [i[0], None], s[:1] * 2))
                ctx.fault('rejected batch')
                if out[0] != 'ok' and snap.diff(
                        before[0], snap.experts(e), 0, 0):
                    ctx.violate('filters: rejected', '%s: a batch that was '
                                'refused (%s) changed the filters' % (
                                    lab, out[1]))
            e.increment(*pick(idx))
        once = CorrelationFilterExpertEnsemble(*pick(order[:at]), **kw)
        for what in ('spatial_filter_images', 'frequency_filter_images'):
            judge_filters(ctx, lab, sizes,
                          np.array([i.pixels for i in getattr(e, what)]),
                          np.array([i.pixels for i in getattr(once, what)]),
                          'training on all of them, ' + what)
        judge_filters(ctx, lab, sizes, e.predict_response(*probe),
                      once.predict_response(*probe),
                      'training on all of them, responses')
        ctx.state('ensemble', name, sc['channels'], op['n'], b, sc['mask'],
                  sc['norm'])
    ctx.log(lab, sizes)


def run_clm(sc, ctx):
    """The experts of a CLM with a given reference shape."""
    from menpofit.clm import CLM
    n = sum(o['n'] for o in sc['ops'])
    images = [world.image(sc['seed'] * 100 + j, (44, 44), sc['channels'])
              for j in range(n)]
    ref = world.as_kind(world.base_shape() * 0.6 + 20, sc['kindpc'])
    kw = dict(group='PTS', scales=(0.5, 1.) if sc['mask'] else (1.,),
              patch_shape=tuple(sc['patch']),
              context_shape=tuple(sc['context']), max_shape_components=3)
    order = np.random.RandomState(sc['seed']).permutation(n)
    lab = 'CLM experts'
    at, model, sizes = 0, None, []

    def pick(idx):
        return [images[int(j)].copy() for j in idx]
    for op in sc['ops']:
        # shapes need two images
        k = op['n'] if at + op['n'] < n else n - at
        k = max(k, 2) if model is None else k
        idx = order[at:at + k]
        at += k
        if not len(idx):
            break
        sizes.append(int(len(idx)))
        if model is None:
            if len(idx) < 2:
                raise Skip('too few images')
            model = CLM(pick(idx), reference_shape=ref.copy(), **kw)
        else:
            if op.get('between') in ('pickle', 'deepcopy'):
                model = copy.deepcopy(model)
            model.increment(pick(idx), group='PTS')
        once = CLM(pick(order[:at]), reference_shape=ref.copy(), **kw)
        for j in range(once.n_scales):
            a, b = model.expert_ensembles[j], once.expert_ensembles[j]
            judge_filters(
                ctx, lab, sizes,
                np.array([i.pixels for i in a.spatial_filter_images]),
                np.array([i.pixels for i in b.spatial_filter_images]),
                'training on all of them, scale %d' % j)
        ctx.state('clm', sc['channels'], len(idx), op.get('between'))
    ctx.log(lab, sizes)


def judge_filters(ctx, lab, sizes, got, want, what):
    ctx.count('filters compared')
    got, want = np.asarray(got), np.asarray(want)
    size = np.abs(want).max()
    if got.shape != want.shape or not np.abs(got - want).max() <= 1e-6 * size:
        ctx.violate('filters', '%s: after batches of %s the filters differ '
                    'from %s by %.3g (of %.3g)' % (
                        lab, sizes, what, np.abs(got - want).max() if
                        got.shape == want.shape else np.nan, size))


def between(ctx, m, what, model):
    if what == 'instance':
        for j in range(model.n_scales):
            model.instance(shape_weights=[0.5], appearance_weights=[0.4],
                           scale_index=j)
    elif what == 'str':
        str(model)
    elif what == 'fit':
        import menpofit.aam as A
        f = A.LucasKanadeAAMFitter(model)
        w = m['world']
        im = world.image(w['seed'] * 1000 + 77, tuple(w['size']),
                         w['channels'])
        common.outcome(lambda: f.fit_from_shape(
            im, world.as_kind(im.landmarks['PTS'].points + 1., 'pc'),
            max_iters=2))


def run(sc, ctx):
    dict(regression=run_regression, aam=run_aam, filters=run_filters)[
        sc['kind']](sc, ctx)


def simplify(sc):
    import json
    out = []
    for f in (dict(order=False), dict(noise=0.), dict(k=1), dict(offset=0.),
              dict(scale=1.)):
        if any(k in sc and sc[k] != v for k, v in f.items()):
            out.append(dict(sc, **f))
    for i, o in enumerate(sc['ops']):
        for k in ('between', 'ff'):
            if o.get(k):
                c = json.loads(json.dumps(sc))
                c['ops'][i].pop(k)
                out.append(c)
        if o.get('how', 'list') != 'list':
            c = json.loads(json.dumps(sc))
            c['ops'][i]['how'] = 'list'
            out.append(c)
    if 'model' in sc:
        c = json.loads(json.dumps(sc))
        c['model'].update(scales=[1.0], features='no_op', max_shape=3)
        p = c['model'].get('patch_shape')
        if p and isinstance(p[0], list):
            c['model']['patch_shape'] = p[0]
        out.append(c)
    return out
