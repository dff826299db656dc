"""C01: a fit does not depend on what the fitter did before."""
import copy
import pickle

from .. import common, faults, snap, zoo

RUNS = {'quick': 1100, 'thorough': 12000}
RULE = ('a run trains one random fitter (family, variant, algorithm, scales, '
        'features, image kinds drawn from its seed), lets a forked child that '
        'never used the fitter do the probe fits, then plays a random history '
        '(fits, failing and interrupted fits, queries, edits of results) and '
        'repeats the probes; a run is non trivial if it was trained and at '
        'least one probe was compared; distinct by its event log')
STATES = 'distinct (fitter kind, preceding operation, fault point) tuples'
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)']
STUB = ['images are synthetic', 'faults are raised by a line tracer, by the '
        'callbacks handed to menpofit and by a wrapped linear solver']
ASSUMES = ['an unused process image (fork) of a fitter is an identical, '
           'never used fitter', 'differences of a fit that rounding level '
           'changes of the image reproduce as well are not judged']


def gen(rng, i):
    s = zoo.gen_fitter(rng)
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        k = rng.choice(['fit'] * 6 + ['fault'] * 5 +
                       ['query', 'query', 'scribble', 'scribble', 'copy',
                        'bad'])
        if k == 'fit':
            op = zoo.gen_fit(rng, s)
        elif k == 'fault':
            op = zoo.gen_fit(rng, s)
            op['fault'] = faults.gen_fault(rng)
        elif k == 'bad':
            op = dict(op='bad', how=rng.choice(['iters', 'channels', 'far',
                                                'tiny']),
                      im=rng.randrange(3))
        elif k == 'query':
            op = dict(op='query', what=rng.choice(
                ['str', 'warped', 'instance', 'random', 'fitter_props',
                 'model_str']))
        else:
            op = dict(op=k)
        ops.append(op)
    probes = [zoo.gen_fit(rng, s) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.5:
        # the probe repeats something the history did already
        fits = [o for o in ops if o['op'] == 'fit']
        if fits:
            p = dict(rng.choice(fits))
            p.pop('fault', None)
            probes.append(p)
    for o in ops + probes:
        if o['op'] == 'fit':
            # the caller's own objects, edited in place between the calls
            o['live'] = rng.random() < 0.5
            o['ver'] = rng.choice([0, 0, 1, 2])
    for o in ops:
        if o['op'] == 'fit' and rng.random() < 0.15:
            o['track'] = rng.choice([0, 1e-4, 1e-2])
    if rng.random() < 0.25:
        # a tracker: frames that hardly differ, each one fitted from where the
        # one before ended; the probe is the next frame
        ops = [o for o in ops if o['op'] == 'fit'] or [zoo.gen_fit(rng, s)]
        im, live = rng.randrange(3), rng.random() < 0.5
        for o in ops + probes:
            o.update(im=im, live=live, ver=0, track=rng.choice(
                [0, 1e-9, 1e-6, 1e-5, 1e-4, 1e-3, .02]))
            o['init'] = dict(kind='shape', dy=rng.choice([0, .3, 1.]),
                             dx=0.2, s=1.)
    for p in probes:
        # tracking: start (almost) where the last fit ended
        if 'track' not in p and rng.random() < 0.25:
            p['track'] = rng.choice([0, 1e-9, 1e-5, 1e-4, 1e-3, .02, .2])
            fits = [o for o in ops if o['op'] == 'fit']
            if fits and rng.random() < 0.7:
                # in the same frame
                for k in ('im', 'ver', 'live'):
                    p[k] = fits[-1][k]
                p['init'] = dict(p['init'], kind='shape')
        if rng.random() < 0.4:
            p['again'] = 1
    return dict(fitter=s, ops=ops, probes=probes)


def query(what, fitter, model, s, last):
    if what == 'str':
        str(fitter)
    elif what == 'model_str' and model is not None:
        str(model)
    elif what == 'warped' and hasattr(fitter, 'warped_images') and last:
        fitter.warped_images(last.image, last.shapes)
    elif what == 'instance' and model is not None:
        for k in range(model.n_scales):
            snap.instance(model, k)
    elif what == 'random' and hasattr(model, 'random_instance'):
        model.random_instance()
    elif what == 'fitter_props':
        for n in ('reference_shape', 'n_scales', 'scales', 'diagonal',
                  'holistic_features', 'reference_bounding_box',
                  'appearance_models', 'shape_models', 'template',
                  'warped_templates'):
            getattr(fitter, n, None)
        if last is not None and hasattr(fitter, 'appearance_reconstructions'):
            fitter.appearance_reconstructions(last.appearance_parameters,
                                              last.n_iters_per_scale)


def bad_fit(fitter, s, op):
    """Calls that a user gets wrong (or nearly so)."""
    import numpy as np
    from menpo.image import Image
    imgs = zoo.test_images(s)
    im, gt = imgs[op['im']]
    from menpo.shape import PointCloud
    if op['how'] == 'iters':
        return fitter.fit_from_shape(im, gt, max_iters=[1] * 7)
    if op['how'] == 'channels':
        px = np.concatenate([im.pixels] * 3 + [im.pixels[:1]], 0)
        return fitter.fit_from_shape(Image(px), gt)
    if op['how'] == 'far':
        return fitter.fit_from_shape(im, PointCloud(gt.points + 300.))
    if op['how'] == 'tiny':
        p = (gt.points - gt.points.mean(0)) * 0.02 + gt.points.mean(0)
        return fitter.fit_from_shape(im, PointCloud(p))


def play(op, fitter, model, s, ctx, st):
    """One operation of the history. Returns its outcome."""
    k = op['op']
    if k == 'fit':
        start = None
        if 'track' in op and st.get('end') is not None:
            start = tracked(st['end'], op['track'])
        args = st['live'].args(op, False, start)
        out = faults.with_fault(
            lambda: zoo.do_fit(fitter, s, op, None, args), op.get('fault'),
            ctx)
        if out[0] == 'ok':
            st['last'] = out[1]
            end = out[1].final_shape.points.copy()
            if sane(end):
                st['end'] = end
    elif k == 'bad':
        out = common.outcome(lambda: bad_fit(fitter, s, op))
        if out[0] == 'exc':
            ctx.fault('wrong call: ' + op['how'])
    elif k == 'query':
        out = common.outcome(lambda: query(op['what'], fitter, model, s,
                                           st.get('last')))
    elif k == 'scribble':
        if st.get('last') is not None:
            common.scribble(st['last'])
            st['last'] = None
            ctx.count('edited results')
        out = ('ok', None)
    elif k == 'copy':
        out = common.outcome(lambda: pickle.loads(pickle.dumps(fitter))
                             if s['family'] != 'Dlib' else
                             copy.copy(fitter))
    else:
        raise ValueError(k)
    ctx.log(k, op.get('how') or op.get('what') or '',
            out[0], out[1] if out[0] == 'exc' else '')
    return out


def sane(points):
    """Whether a tracker would go on from there (a fit from a shape that
    collapsed magnifies its image without bounds)."""
    import numpy as np
    return bool(np.isfinite(points).all() and np.abs(points).max() < 150 and
                10 < np.ptp(points, axis=0).min() and
                np.ptp(points, axis=0).max() < 120)


def tracked(points, jitter):
    import numpy as np
    return points + jitter * np.cos(np.arange(points.size)).reshape(
        points.shape)


def run(sc, ctx):
    s = sc['fitter']
    model, fitter = common.build(s, ctx)
    lab = common.label(s)
    ctx.log(lab)
    live = zoo.Live(s)

    def record(f, p, fresh=False, shake=False, start=None):
        im, init, kw = live.args(p, fresh, start)
        if shake:
            (im, _), = common.tremble([(im, None)])
        return snap.result(zoo.do_fit(f, s, p, None, (im, init, kw)))
    waiting = []

    def ask(p):
        if 'track' not in p:
            out = faults.isolated(lambda: record(fitter, p, True))
            return lambda start: out
        w = faults.Waiting(lambda a: record(fitter, p, True, start=a))
        waiting.append(w)
        return w.ask
    try:
        refs = [ask(p) for p in sc['probes']]
        history(sc, ctx, s, lab, model, fitter, live, refs, record)
    finally:
        for w in waiting:
            w.dismiss()


def history(sc, ctx, s, lab, model, fitter, live, refs, record):
    st = {'live': live}
    prev = 'start'
    for op in sc['ops']:
        play(op, fitter, model, s, ctx, st)
        prev = op['op'] + ('!' if op.get('fault') else '')
        ctx.state(lab, prev)
    for p, ref in zip(sc['probes'], refs):
        start = None
        if 'track' in p and st.get('end') is not None:
            start = tracked(st['end'], p['track'])
            ctx.count('probes that continue the last fit')
        ref = ref(start)
        got = common.outcome(lambda: record(fitter, p, start=start))
        if p.get('again'):
            # and once more, straight away
            one = got
            got = common.outcome(lambda: record(fitter, p, start=start))
            ctx.count('probes repeated')
        ctx.log('probe', got[0], got[1] if got[0] == 'exc' else
                got[1].get('n_iters'))
        ctx.count('probes compared')

        def shaky():
            m2, f2 = zoo.build(s)
            return common.outcome(lambda: record(f2, p, True, True, start))
        d = common.compare_fits(ref, got, shaky)
        if p.get('again') and not d:
            d = common.compare_fits(ref, one, shaky)
        if d:
            ctx.violate('history:' + s['family'],
                        '%s: a fit after %d operations differs from the fit '
                        'of an unused fitter: %s' % (lab, len(sc['ops']), d))


simplify = common.simplify_fitter
