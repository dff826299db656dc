"""C02: fitting never changes what the caller passed in."""
from .. import common, faults, snap, zoo

RUNS = {'quick': 1500, 'thorough': 15000}
RULE = ('a run trains one random fitter and plays a random sequence of fits '
        '(from shapes and boxes, with options) and queries on a fixed set of '
        'image, shape and option objects of the caller; operations fail or '
        'are interrupted at random points; after every operation everything '
        'the caller passed in is compared bit by bit with a copy taken before; '
        'non trivial: at least one fit was executed; distinct by event log')
STATES = 'distinct (fitter kind, operation, fault point) tuples'
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)']
STUB = ['images are synthetic', 'faults are raised by a line tracer, by the '
        'callbacks handed to menpofit and by a wrapped linear solver']
ASSUMES = ['the public state of an image is its pixels, mask, path and '
           'landmarks; of a shape its points, connectivity and labels']
MIN_OPS = 1


def gen(rng, i):
    s = zoo.gen_fitter(rng)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < 0.12:
            ops.append(dict(op='warped', im=rng.randrange(3)))
            continue
        op = zoo.gen_fit(rng, s)
        if rng.random() < 0.2:
            op['init'] = dict(kind='own')     # landmarks of the image itself
        if rng.random() < 0.55:
            op['fault'] = faults.gen_fault(rng)
        ops.append(op)
    return dict(fitter=s, ops=ops)


def view(x):
    """The caller's view of all the objects."""
    d = {}
    for k, v in x.items():
        d[k] = snap.plain(v)
        if hasattr(v, 'landmarks'):
            d[k]['order'] = list(v.landmarks.group_labels)
            d[k]['path'] = str(getattr(v, 'path', None))
    return d


def run(sc, ctx):
    s = sc['fitter']
    model, fitter = common.build(s, ctx)
    lab = common.label(s)
    ctx.log(lab)
    imgs = zoo.test_images(s)
    for k, (im, gt) in enumerate(imgs):
        im.path = '/nowhere/%d.png' % k
    last = None
    for op in sc['ops']:
        im, gt = imgs[op['im']]
        mine = {'image': im, 'gt': gt}
        if op['op'] == 'warped':
            if last is None or not hasattr(fitter, 'warped_images'):
                continue
            shapes = [gt.copy(), gt.copy()]
            mine['shapes'] = shapes
            before = view(mine)
            out = common.outcome(lambda: fitter.warped_images(im, shapes))
        else:
            if op['init']['kind'] == 'own':
                init = im.landmarks['PTS'] if 'PTS' in list(
                    im.landmarks.group_labels) else gt
                o2 = dict(op, init=dict(kind='shape'))
                _, _, kw = zoo.fit_args(s, o2, imgs)
            else:
                o2 = op
                _, init, kw = zoo.fit_args(s, op, imgs)
            if op.get('gt'):
                kw['gt_shape'] = gt
            if s['family'] == 'Dlib' and o2['init']['kind'] != 'bb':
                init = init.bounding_box()
                o2 = dict(o2, init=dict(o2['init'], kind='bb'))
            mine.update(init=init, kw=kw)
            before = view(mine)
            out = faults.with_fault(
                lambda: zoo.do_fit(fitter, s, o2, imgs, (im, init, kw)),
                op.get('fault'), ctx)
            if out[0] == 'ok':
                last = out[1]
            ctx.count('fits')
        ctx.state(lab, op['op'], out[0], out[1] if out[0] == 'exc' else '')
        ctx.log(op['op'], out[0], out[1] if out[0] == 'exc' else '')
        d = snap.exact(before, view(mine))
        if d:
            ctx.violate('input changed:' + s['family'],
                        '%s: a fit that %s changed what was passed in: %s' % (
                            lab, 'raised ' + out[1] if out[0] == 'exc' else
                            'returned', d))


simplify = common.simplify_fitter
