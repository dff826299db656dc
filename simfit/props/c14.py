"""C14: wrapped pretrained fitters apply options per call only."""
import copy
import functools
import json
import pickle

from .. import common, faults, feats, snap, world, zoo

RUNS = {'quick': 1100, 'thorough': 12000}
RULE = ('a run trains a fitter, wraps it (sometimes twice) with stored '
        'options and an image preprocessing and plays a random sequence of '
        'calls with options of their own, failing and interrupted calls; '
        'every undisturbed call is compared with a direct call of an unused '
        'fitter (a forked process image) on the preprocessed image, with the '
        'merged options, mapped back by the transform of the preprocessing; '
        'the option containers are compared after every call; non trivial: '
        'at least one call was compared; distinct by event log')
STATES = 'distinct (fitter, preprocessing, stored and given options) tuples'
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)']
STUB = ['the wrapped fitter is trained locally instead of downloaded',
        'images are synthetic', 'faults are raised by a line tracer, by the '
        'preprocessing and by a wrapped linear solver']
ASSUMES = ['differences of a fit that rounding level changes of the image '
           'reproduce as well are not judged',
           'stored options are not changed by the caller']
MIN_OPS = 1

PRE = ['none', 'shift', 'rescale', 'default', 'crop', 'turn']


def gen_options(rng, s):
    """Options of a call or of a wrapper."""
    ns = zoo.n_scales_of(s)
    o = {}
    if s['family'] == 'Dlib':
        return o
    if rng.random() < 0.6:
        o['max_iters'] = rng.choice([1, 2, 3, 5, 8, [
            rng.choice([1, 2, 3, 4]) for _ in range(ns)]])
    if rng.random() < 0.4:
        o['return_costs'] = rng.random() < 0.7
    if s['family'] in ('LKAAM', 'ATM', 'CLM') and rng.random() < 0.4:
        o['map_inference'] = rng.random() < 0.7
    if s['family'] == 'Unified' and rng.random() < 0.4:
        o['prior'] = rng.random() < 0.7
        o['a'] = 0.3
    return o


def gen(rng, i):
    s = zoo.gen_fitter(rng)
    wraps = []
    for _ in range(1 if rng.random() < 0.85 else 2):
        wraps.append(dict(pre=rng.choice(PRE), bb=gen_options(rng, s),
                          shape=gen_options(rng, s)))
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        op = zoo.gen_fit(rng, s)
        op = dict(op='fit', im=op['im'], init=op['init'], gt=op['gt'],
                  options=gen_options(rng, s) if rng.random() < 0.6 else {})
        if s['family'] == 'Dlib':
            op['init']['kind'] = 'bb'
        if rng.random() < 0.4:
            op['fault'] = faults.gen_fault(rng)
        if rng.random() < 0.08:
            op['options']['no_such_option'] = 1
        elif rng.random() < 0.06:
            op['options']['max_iters'] = [1] * 7
        if rng.random() < 0.1:
            op['copy'] = rng.choice(['pickle', 'deepcopy'])
        op['share'] = rng.random() < 0.3
        ops.append(op)
    return dict(fitter=s, wraps=wraps, ops=ops,
                colour=zoo.world_of(s)['channels'] == 1 and
                rng.random() < 0.4)


def turn(image, pointcloud):
    """A preprocessing with a rotation."""
    feats._hook('preprocess')
    im = image.as_greyscale(mode='luminosity') if image.n_channels == 3 \
        else image.copy()
    return im.rotate_ccw_about_centre(12, retain_shape=False,
                                      return_transform=True)


def grey_crop(image, pointcloud, proportion=1.0):
    """What image_greyscale_crop_preprocess is documented to do."""
    im = image.as_greyscale(mode='luminosity') if image.n_channels == 3 \
        else image.copy()
    return im.crop_to_pointcloud_proportion(pointcloud, proportion,
                                            return_transform=True)


def preprocess(name):
    """(what the wrapper is given, what the reference uses)"""
    from menpofit.io import image_greyscale_crop_preprocess as default
    if name == 'none':
        return None, None
    if name == 'default':
        return default, grey_crop
    if name == 'crop':
        return functools.partial(default, crop_proportion=0.45), \
            functools.partial(grey_crop, proportion=0.45)
    f = turn if name == 'turn' else feats.PREPROCESS[name]
    return f, f


def direct(fitter, wraps, kind, image, init, kw):
    """The documented meaning of a call, without the wrapper. Returns the
    result of the inner fitter and the transforms back, innermost last."""
    back = []
    for w in wraps:
        o = copy.deepcopy(w['bb' if kind == 'bb' else 'shape'])
        o.update(kw)
        kw = o
        pre = preprocess(w['pre'])[1]
        if pre is not None:
            image, t = pre(image, init)
            init = t.pseudoinverse().apply(init)
            back.append(t)
    fit = fitter.fit_from_bb if kind == 'bb' else fitter.fit_from_shape
    return fit(image, init, **kw), back


def expected(fitter, sc, op, imgs):
    """The record that the wrapper has to give."""
    im, init, kind, kw = call_args(sc, op, imgs)
    r, back = direct(fitter, sc['wraps'], kind, im, init, kw)
    rec = snap.result(r)

    def home(p):
        for t in reversed(back):
            p = t.apply(p)
        return p
    if back:
        rec['final_shape'] = snap.plain(home(r.final_shape))
        if r.initial_shape is not None:
            rec['initial_shape'] = snap.plain(home(r.initial_shape))
        shapes = None
        if r.is_iterative:
            shapes = [home(x) for x in r.shapes]
            rec['shapes'] = snap.plain(shapes)
            rec.pop('displacements', None)
        if isinstance(rec.get('reconstructed_initial_shapes'), list):
            rec['reconstructed_initial_shapes'] = snap.plain(
                [home(x) for x in r.reconstructed_initial_shapes])
        for f in ('errors', 'initial_error', 'final_error'):
            rec.pop(f, None)
        if r.gt_shape is not None:
            from menpofit.error import euclidean_bb_normalised_error as err
            rec['final_error'] = float(err(home(r.final_shape), r.gt_shape))
            if shapes:
                rec['errors'] = [float(err(x, r.gt_shape)) for x in shapes]
    rec['image'] = im.pixels.copy()
    return rec


def reported(r, like):
    rec = snap.result(r)
    rec['image'] = r.image.pixels.copy()
    return {k: rec.get(k) for k in like}


def call_args(sc, op, imgs):
    im, gt = imgs[op['im'] % len(imgs)]
    init = world.initial(op['init'], gt.points)
    kw = {}
    if op.get('gt'):
        kw['gt_shape'] = gt.copy()
    kw.update(copy.deepcopy(op['options']))
    kind = 'bb' if op['init']['kind'] == 'bb' else 'shape'
    return im, init, kind, kw


def images(sc):
    imgs = zoo.test_images(sc['fitter'])
    if not sc['colour']:
        return imgs
    from menpo.image import Image
    out = []
    for im, gt in imgs:
        c = im.copy()
        px = im.pixels
        c = Image(px.repeat(3, 0) * [[[0.9]], [[1.05]], [[0.95]]])
        for g in im.landmarks.group_labels:
            c.landmarks[g] = im.landmarks[g].copy()
        out.append((c, gt))
    return out


def run(sc, ctx):
    from menpofit.io import PickleWrappedFitter
    s = sc['fitter']
    model, fitter = common.build(s, ctx)
    lab = common.label(s)
    pres = '+'.join(w['pre'] for w in sc['wraps'])
    ctx.log(lab, pres)
    wrapped = fitter
    stored = []
    for w in reversed(sc['wraps']):
        o = (copy.deepcopy(w['bb']), copy.deepcopy(w['shape']))
        stored.append((o, w))
        wrapped = PickleWrappedFitter(feats.identity, [wrapped], {}, o[0],
                                      o[1], preprocess(w['pre'])[0])
    imgs = images(sc)
    refs = [None if op.get('fault') else faults.isolated(
        lambda op=op: expected(fitter, sc, op, imgs)) for op in sc['ops']]
    held = {}
    for n, (op, ref) in enumerate(zip(sc['ops'], refs)):
        im, init, kind, kw = call_args(sc, op, imgs)
        if op.get('share'):
            # the caller uses one and the same options over and over
            kw = held.setdefault(json.dumps([op['options'], op['gt'],
                                             op['im']]), kw)
        given = snap.plain(kw)
        before = snap.image(im), snap.plain(init)
        if op.get('copy'):
            try:
                wrapped = pickle.loads(pickle.dumps(wrapped)) \
                    if op['copy'] == 'pickle' and s['family'] != 'Dlib' \
                    else copy.deepcopy(wrapped) \
                    if s['family'] != 'Dlib' else wrapped
            except Exception as e:
                ctx.log('copy', type(e).__name__)

        def call():
            f = wrapped.fit_from_bb if kind == 'bb' \
                else wrapped.fit_from_shape
            return f(im, init, **kw)
        out = faults.with_fault(call, op.get('fault'), ctx)
        ctx.log('call', kind, sorted(op['options']), out[0],
                out[1] if out[0] == 'exc' else '')
        ctx.state(lab, pres, sorted(op['options']),
                  sorted(sc['wraps'][0][kind]))
        d = None
        for o, w in stored:
            d = d or snap.exact(snap.plain(o), snap.plain(
                (w['bb'], w['shape'])))
        if d:
            ctx.violate('stored options changed', '%s, call %d: %s' % (
                lab, n, d))
        d = snap.exact(given, snap.plain(kw))
        if d:
            ctx.violate('given options changed', '%s, call %d: %s' % (
                lab, n, d))
        d = snap.exact(before, (snap.image(im), snap.plain(init)))
        if d:
            ctx.violate('input changed', '%s, call %d: %s' % (lab, n, d))
        if ref is None:
            continue
        if out[0] == 'ok' and ref[0] == 'ok':
            got = ('ok', reported(out[1], ref[1]))
        elif out[0] == 'ok':
            got = ('ok', snap.result(out[1]))
        else:
            got = out
        ctx.count('calls compared')

        def shaky():
            m2, f2 = zoo.build(s)
            r = common.outcome(lambda: expected(f2, sc, op,
                                                common.tremble(imgs)))
            if r[0] == 'ok' and ref[0] == 'ok':
                r[1]['image'] = ref[1]['image']
            return r
        d = common.compare_fits(ref, got, shaky)
        if d:
            ctx.violate('wrapped call:' + ('frame' if 'points' in d or
                                           'image' in d else 'other'),
                        '%s with preprocessing %s, call %d (%s, stored %s, '
                        'given %s): %s' % (
                            lab, pres, n, kind,
                            [w[kind] for w in sc['wraps']],
                            sorted(kw), d))


simplify = common.simplify_fitter
