"""C05: a returned fitting result is a finished record."""
import copy
import pickle

import numpy as np

from .. import common, faults, feats, snap, world, zoo

RUNS = {'quick': 1100, 'thorough': 12000}
RULE = ('a run trains one random fitter, fits and lets a forked child read '
        'the record of the result at once; then it plays a random history '
        '(reads, fits, failing and interrupted fits, model increments, other '
        'fitters of the model, copies, edits of the inputs and of other '
        'results) and reads the record of every result that is alive again; '
        'non trivial: at least one record was read again; distinct by event '
        'log')
STATES = 'distinct (fitter kind, operation, outcome) tuples'
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)']
STUB = ['images are synthetic', 'faults are raised by a line tracer, by the '
        'callbacks handed to menpofit and by a wrapped linear solver',
        'figures are drawn with the Agg backend']
ASSUMES = ['the record of a result are its documented attributes and the '
           'errors and displacements derived from them; appearance '
           'reconstructions, which are documented to be computed by the '
           'current model, do not belong to it',
           'a ground truth shape given by the caller is not edited later']
MIN_OPS = 1


def gen(rng, i):
    s = zoo.gen_fitter(rng)
    first = zoo.gen_fit(rng, s)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        k = rng.choice(['fit', 'fit', 'fit', 'fault', 'fault', 'read',
                        'inputs', 'inputs', 'inc', 'inc', 'other', 'copy',
                        'others', 'view', 'warped'])
        op = dict(op=k)
        if k in ('fit', 'fault', 'other'):
            op = dict(zoo.gen_fit(rng, s), op=k)
            if rng.random() < 0.3:
                # the same input again
                op['im'], op['init'] = first['im'], first['init']
            if k == 'fault':
                op['fault'] = faults.gen_fault(rng)
        elif k == 'read':
            op['what'] = rng.choice(READS)
        elif k == 'inc':
            op.update(n=rng.choice([2, 3]), seed=rng.randrange(1000))
        elif k == 'other':
            op['alg'] = rng.randrange(1000)
        elif k == 'view':
            op['what'] = rng.choice(['view', 'view_iterations',
                                     'plot_errors', 'plot_displacements',
                                     'plot_costs'])
            op['full'] = rng.random() < 0.4
        if k == 'other':
            op['alg'] = rng.randrange(1000)
        ops.append(op)
    return dict(fitter=s, first=first, ops=ops, order=rng.randrange(10 ** 4),
                wrap=rng.choice([None] * 5 + ['none', 'shift', 'rescale']))


READS = ['str', 'to_result', 'errors', 'stats', 'reconstructed', 'lists',
         'all', 'light', 'other errors']


def farthest(a, b):
    return np.sqrt(((a.points - b.points) ** 2).sum(1)).max()


def drift(a, b):
    return (a.points - b.points)[:, 0].mean()


def usual(a, b):
    """The default error: the mean distance over the mean edge of the box of
    the ground truth."""
    return np.sqrt(((a.points - b.points) ** 2).sum(1)).mean() / np.mean(
        b.points.max(0) - b.points.min(0))


def derived(res, order):
    """What a result derives from its shapes, against these shapes."""
    gt, shapes = res.gt_shape, getattr(res, 'shapes', None)
    todo = []
    if gt is not None:
        fs = [(None, usual), (farthest, farthest), (drift, drift)]
        for f, g in fs:
            kw = {} if f is None else dict(compute_error=f)
            todo.append(('final_error', kw, lambda g=g: g(
                res.final_shape, gt)))
            if res.initial_shape is not None:
                todo.append(('initial_error', kw, lambda g=g: g(
                    res.initial_shape, gt)))
            if shapes is not None:
                todo.append(('errors', kw, lambda g=g: [
                    g(x, gt) for x in shapes]))
            rs = getattr(res, 'reconstructed_initial_shapes', None)
            if isinstance(rs, list):
                todo.append(('reconstructed_initial_error', kw,
                             lambda g=g: g(rs[0], gt)))
    if shapes is not None:
        ds = [np.sqrt(((a.points - b.points) ** 2).sum(1))
              for a, b in zip(shapes, shapes[1:])]
        todo.append(('displacements', {}, lambda: ds))
        for t in ('mean', 'median', 'max', 'min'):
            todo.append(('displacements_stats', dict(stat_type=t),
                         lambda t=t: [getattr(np, t)(d) for d in ds]))
    for bits in range(8):
        flags = dict(pass_image=bool(bits & 1),
                     pass_initial_shape=bool(bits & 2),
                     pass_gt_shape=bool(bits & 4))
        if hasattr(res, 'to_result'):
            todo.append(('to_result', flags, lambda x=flags: light(
                res, **x)))
    for k in np.random.RandomState(order).permutation(len(todo)):
        name, kw, want = todo[k]
        got = getattr(res, name)(**kw)
        if name == 'to_result':
            got = [got.final_shape, pixels(got.image), got.initial_shape,
                   got.gt_shape]
        d = snap.diff(snap.plain(want()), snap.plain(got), 1e-9, 1e-12)
        if d:
            return '%s(%s) does not follow from the shapes%s' % (
                name, ', '.join('%s=%s' % (a, getattr(b, '__name__', b))
                                for a, b in sorted(kw.items())), d)
    return None


def pixels(im):
    return None if im is None else im.pixels


def light(res, pass_image, pass_initial_shape, pass_gt_shape):
    return [res.final_shape, pixels(res.image) if pass_image else None,
            res.initial_shape if pass_initial_shape else None,
            res.gt_shape if pass_gt_shape else None]


def read(res, what):
    if what == 'str':
        str(res)
    elif what == 'light':
        for bits in (0, 3, 5, 6, 1):
            r = res.to_result(pass_image=bool(bits & 1),
                              pass_initial_shape=bool(bits & 2),
                              pass_gt_shape=bool(bits & 4))
            str(r)
    elif what == 'other errors' and res.gt_shape is not None:
        for f in (farthest, drift):
            res.initial_error(compute_error=f)
            res.errors(compute_error=f)
            res.final_error(f)
    elif what == 'to_result':
        r = res.to_result()
        str(r)
        if r.final_shape is not None:
            r.final_shape.n_points
    elif what == 'errors' and res.gt_shape is not None:
        res.errors()
        res.final_error()
        res.initial_error()
    elif what == 'stats':
        for t in ('mean', 'median', 'max', 'min'):
            res.displacements_stats(stat_type=t)
    elif what == 'reconstructed':
        for n in ('reconstructed_initial_shapes',
                  'reconstructed_initial_error'):
            f = getattr(res, n, None)
            if callable(f):
                f()
    elif what == 'lists':
        for n in ('shapes', 'shape_parameters', 'appearance_parameters'):
            v = getattr(res, n, None)
            if v is not None:
                sorted(range(len(list(v))), reverse=True)
                list(reversed(v))
    elif what == 'all':
        snap.result(res)


def view(res, what, full=False):
    import matplotlib
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    f = getattr(res, what, None)
    if f is None:
        return
    try:
        if not full:
            f()
        elif what == 'view':
            f(render_initial_shape=res.initial_shape is not None,
              render_gt_shape=res.gt_shape is not None, new_figure=True,
              subplots_enabled=False)
        elif what == 'view_iterations':
            f(iters=[0, len(res.shapes) - 1], subplots_enabled=True,
              new_figure=True)
        elif what == 'plot_errors':
            f(compute_error=farthest, new_figure=True)
        elif what == 'plot_displacements':
            f(stat_type='median', new_figure=True)
        else:
            f(new_figure=True)
    finally:
        plt.close('all')


def record(res):
    return snap.result(res, with_image=True)


def run(sc, ctx):
    s = sc['fitter']
    model, fitter = common.build(s, ctx)
    plainf = fitter
    if sc.get('wrap'):
        from menpofit.io import PickleWrappedFitter
        fitter = PickleWrappedFitter(lambda: plainf, (), {}, {}, {},
                                     image_preprocess=feats.PREPROCESS[
                                         sc['wrap']])
    lab = common.label(s)
    ctx.log(lab, sc.get('wrap'))
    alive = []          # (description, result, record read in a child)

    def fit(op, f=None):
        imgs = zoo.test_images(s)
        args = zoo.fit_args(s, op, imgs)
        out = faults.with_fault(
            lambda: zoo.do_fit(f or fitter, s, op, imgs, args),
            op.get('fault'), ctx)
        if out[0] == 'ok':
            rec = faults.isolated(lambda: record(out[1]))
            if rec[0] == 'ok' and not common.huge(rec[1]):
                alive.append((op['op'], out[1], rec[1], args))
        return out

    out = fit(dict(sc['first'], op='first'))
    if not alive:
        ctx.log('first fit', out[0], out[1] if out[0] == 'exc' else '')
        return
    done = []
    for op in sc['ops']:
        k = op['op']
        if k in ('fit', 'fault'):
            out = fit(op)
        elif k == 'read':
            out = common.outcome(lambda: read(alive[-1][1], op['what']))
        elif k == 'view':
            out = common.outcome(lambda: view(
                alive[0][1], op['what'], op.get('full')))
        elif k == 'inputs':
            im, init, kw = alive[0][3]
            im.pixels[...] = 0.987
            im.landmarks['later'] = init.copy()
            if 'PTS' in list(im.landmarks.group_labels):
                im.landmarks['PTS'].points[...] -= 5.
                del im.landmarks['PTS']
            init.points[...] += 9.
            for v in kw.values():
                if isinstance(v, list):
                    del v[:]
            out = ('ok', None)
        elif k == 'inc':
            if model is None or not hasattr(model, 'increment'):
                continue
            w = dict(s['model']['world'], n=op['n'],
                     seed=s['model']['world']['seed'] + op['seed'] + 1)
            if s['model']['family'] == 'ATM':
                data = (world.images(dict(w, n=1))[0], world.shapes(
                    w['seed'], w['n'], w['kind'], tuple(w['size'])))
            else:
                data = (world.images(w),)
            out = common.outcome(lambda: model.increment(*data, group='PTS'))
        elif k == 'other':
            if model is None:
                continue
            s2 = dict(s, np_seed=5)
            s2.pop('sampling', None)
            pool = {'LKAAM': zoo.LK_ALGS, 'ATM': zoo.ATM_ALGS,
                    'CLM': zoo.CLM_ALGS, 'APS': zoo.APS_ALGS,
                    'Unified': zoo.UNI_ALGS, 'SDAAM': zoo.SDAAM_ALGS}
            a = pool[s['family']]
            s2['alg'] = a[op['alg'] % len(a)]

            def other():
                return fit(op, zoo.fitter_from(s2, model))
            out = common.outcome(other)
            if out[0] == 'ok':
                out = out[1]
        elif k == 'warped':
            if not hasattr(plainf, 'warped_images'):
                continue
            r = alive[0][1]
            out = common.outcome(lambda: plainf.warped_images(r.image,
                                                              r.shapes))
        elif k == 'copy':
            def cp():
                for c in (copy.deepcopy(alive[0][1]),
                          pickle.loads(pickle.dumps(alive[0][1]))):
                    common.scribble(c)
            out = common.outcome(cp)
        elif k == 'others':
            # somebody edits another result
            if len(alive) < 2:
                continue
            common.scribble(alive.pop()[1])
            out = ('ok', None)
        ctx.count(k)
        ctx.log(k, out[0], out[1] if out[0] == 'exc' else '')
        ctx.state(lab, k, op.get('what'), out[0],
                  out[1] if out[0] == 'exc' else '')
        done.append(k)
        for what, res, rec, args in alive:
            now = common.outcome(lambda: record(res))
            ctx.count('records read again')
            if now[0] == 'exc':
                ctx.violate('record unreadable:' + s['family'],
                            '%s: the result of a fit cannot be read any more '
                            'after %r: %s' % (lab, done, now))
            d = snap.exact(rec, now[1])
            if not d:
                d = common.outcome(lambda: derived(
                    res, sc.get('order', 0) + len(done)))
                d = d[1] if d[0] == 'ok' else 'reading it raises %s: %s' % d[1:]
                ctx.count('derived values checked')
                if d:
                    ctx.violate('derived:' + s['family'],
                                '%s: after %r, of the result of a fit: %s' % (
                                    lab, done, d))
            if d:
                ctx.violate('record changed:' + s['family'],
                            '%s: the result of a fit changed after %r: %s' % (
                                lab, done, d))


simplify = common.simplify_fitter
