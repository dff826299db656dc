"""C15: cascaded training keeps every initialisation and bounds its noise."""
import collections
import contextlib
import random

import numpy as np

from .. import common, faults, feats, world, zoo
from ..engine import Skip

RUNS = {'quick': 1000, 'thorough': 12000}
RULE = ('a run trains one to three cascades (SDM, SD-AAM, Dlib) on the same '
        'image objects with simulated random numbers (any draw may be '
        'extreme), perturbations that leave the image, provided starting '
        'boxes, failing perturbations and interrupted trainings that are '
        'retried; what every algorithm and every regression of every scale is '
        'given is recorded and compared with the boxes that a small reference '
        'pipeline expects from the recorded perturbations; noise runs call '
        'the noise functions with simulated draws and decompose what they '
        'return; non trivial: a training was completed or a noise transform '
        'was judged; distinct by event log')
STATES = ('distinct (algorithm, scales, boxes, perturbations, kind of draws) '
          'tuples')
REAL = ['all of menpofit', 'menpo', 'scipy', 'dlib (Dlib runs)']
STUB = ['the random draws of numpy.random are simulated', 'images are '
        'synthetic', 'faults are raised by a line tracer and by the '
        'perturbation']
ASSUMES = ['random numbers are drawn through numpy.random; draws of other '
           'generators are real and not extreme',
           'trainings that raise (singular regressions, images with different '
           'numbers of boxes) lose nothing silently and are not judged']
MIN_OPS = 1

DRAWS = ['real', 'low', 'high', 'mix', 'mix', 'mid']


def gen(rng, i):
    sc = dict(draws=rng.choice(DRAWS), dseed=rng.randrange(2 ** 31))
    if rng.random() < 0.3:
        sc['kind'] = 'noise'
        sc['ops'] = [dict(
            op='noise', fn=rng.choice(['box', 'shape', 'transform', 'box']),
            seed=rng.randrange(10 ** 6),
            type=rng.choice(['uniform', 'uniform', 'default', 'uniform']),
            pct=rng.choice([None, 0.05, 0.1, 0.5, 1.0, 0.0, [0.2],
                            [0.0, 0.1, 0.3], [0.4, 0.0, 0.1],
                            [0.9, 0.5, 0.0]]),
            rot=rng.random() < 0.4, far=rng.random() < 0.4,
            angle=round(rng.uniform(-60, 60), 1))
            for _ in range(rng.choice([2, 4, 8]))]
        return sc
    sc['kind'] = 'train'
    fam = zoo.wchoice(rng, [('SDM', 6), ('SDAAM', 2), ('Dlib', 2)])
    s = zoo.gen_fitter(rng, fam)
    w = zoo.world_of(s)
    w['boxes'] = rng.choice([0, 0, 1, 2, 3])
    w['n'] = rng.choice([3, 4, 5] if fam == 'SDM' else [5, 6])
    if w['boxes'] and rng.random() < 0.08 and fam != 'SDAAM':
        sc['ragged'] = rng.choice([-1, 1])
    sc['odd'] = rng.random() < 0.2
    s.pop('perturb', None)
    sc['fitter'] = s
    sc['ops'] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = dict(op='train', n=rng.choice([1, 1, 2, 3, 5]),
                  boxes=rng.random() < 0.8,
                  perturb=rng.choice(['plain', 'plain', 'far', 'points',
                                      'big', 'tiny']),
                  pct=rng.choice([None, None, 0.2, [0.1, 0.0, 0.3]]),
                  type=rng.choice(['default', 'default', 'gaussian']),
                  rot=rng.random() < 0.3, verbose=rng.random() < 0.15,
                  group=rng.random() < 0.8)
        if rng.random() < 0.25:
            op['fault'] = dict(kind='hook', n=rng.choice([1, 2, 4, 7]),
                               exc=rng.choice(['interrupt', 'memory', 'io'])) \
                if rng.random() < 0.5 else dict(
                    kind='line', frac=round(rng.random(), 4),
                    exc=rng.choice(['interrupt', 'memory']),
                    scope='menpofit')
        sc['ops'].append(op)
    return sc


# ------------------------------------------------------------ random numbers

class Draws(object):
    """Simulated numpy.random: every draw comes from a private generator and
    may be extreme."""
    UNI = ('rand', 'random', 'random_sample', 'ranf', 'sample')
    NOR = ('randn', 'standard_normal')

    def __init__(self, mode, seed):
        self.mode = mode
        self.r = random.Random(seed)
        self.n = collections.Counter()

    def one(self, normal):
        m = self.mode
        if m == 'mix':
            m = self.r.choice(['real', 'low', 'high', 'mid'])
        self.n[m] += 1
        if normal:
            return {'real': self.r.gauss(0, 1), 'low': -5.5, 'high': 5.5,
                    'mid': 0.}[m]
        return {'real': self.r.random(), 'low': 0., 'mid': 0.5,
                'high': float(np.nextafter(1., 0.))}[m]

    def array(self, shape, normal):
        if shape == () or shape is None:
            return self.one(normal)
        if isinstance(shape, (int, np.integer)):
            shape = (shape,)
        a = np.empty(shape)
        for k in range(a.size):
            a.flat[k] = self.one(normal)
        return a

    @contextlib.contextmanager
    def active(self):
        names = self.UNI + self.NOR + ('uniform', 'normal')
        old = {n: getattr(np.random, n) for n in names}
        np.random.rand = lambda *s: self.array(tuple(s), False)
        np.random.randn = lambda *s: self.array(tuple(s), True)
        for n in self.UNI[1:]:
            setattr(np.random, n, lambda size=None: self.array(size, False))
        np.random.standard_normal = lambda size=None: self.array(size, True)

        def uniform(low=0., high=1., size=None):
            if size is None:
                size = np.broadcast(low, high).shape
            return low + (np.asarray(high) - low) * self.array(size, False)

        def normal(loc=0., scale=1., size=None):
            if size is None:
                size = np.broadcast(loc, scale).shape
            return loc + np.asarray(scale) * self.array(size, True)
        np.random.uniform, np.random.normal = uniform, normal
        try:
            yield self
        finally:
            for n, f in old.items():
                setattr(np.random, n, f)


# -------------------------------------------------------------------- noise

def noise_op(op, ctx, draws):
    from menpo.shape import PointCloud
    from menpo.transform import AlignmentSimilarity
    from menpofit import fitter as F
    src = PointCloud(world.points(op['seed']))
    dst = world.points(op['seed'] + 1) * 1.3
    if op['far']:
        dst = dst + 40.
    a = np.deg2rad(op['angle'])
    c = dst.mean(0)
    dst = PointCloud((dst - c).dot(np.array(
        [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])) + c)
    kw = dict(allow_alignment_rotation=op['rot'])
    if op['type'] != 'default':
        kw['noise_type'] = op['type']
    if op['pct'] is not None:
        kw['noise_percentage'] = op['pct']
    name = {'box': 'noisy_shape_from_bounding_box',
            'shape': 'noisy_shape_from_shape',
            'transform': 'noisy_alignment_similarity_transform'}[op['fn']]
    if op['fn'] == 'transform':
        s0, t0 = src, dst
        p = op['pct'] if op['pct'] is not None else 0.1
    else:
        p = op['pct'] if op['pct'] is not None else 0.05
        s0, t0 = src, dst
        if op['fn'] == 'box':
            s0, t0 = src.bounding_box(), dst.bounding_box()
    f = [p] * 3 if isinstance(p, float) else list(p) * (3 // len(p))
    with draws.active():
        r = getattr(F, name)(src, t0 if op['fn'] == 'box' else dst, **kw)
    got = (r.apply(src) if op['fn'] == 'transform' else r).points
    S = AlignmentSimilarity(s0, t0, rotation=op['rot']).h_matrix[:2, :2]
    # what was applied to the points (about some centre)
    x = np.c_[src.points, np.ones(len(src.points))]
    sol = np.linalg.lstsq(x, got, rcond=None)[0]
    N = np.linalg.inv(S).dot(sol[:2].T)
    scale = np.sqrt(max(np.linalg.det(N), 0.))
    ctx.count('noise transforms')
    what = '%s(%s) with draws %s' % (name, kw, draws.mode)
    if not np.allclose(x.dot(sol), got, atol=1e-7 * np.abs(got).max()):
        ctx.violate('noise is no similarity', what)
    if np.linalg.det(N) <= 0 and f[0] < 2:
        ctx.violate('noise out of bounds:mirrored', '%s: the linear part has '
                    'determinant %.4g' % (what, np.linalg.det(N)))
    ang = np.rad2deg(np.arctan2(N[1, 0], N[0, 0]))
    if abs(scale - 1) > 0.5 * f[0] + 1e-9:
        ctx.violate('noise out of bounds:scale', '%s: scaled by %.6f, at most '
                    '%.3f off one was requested' % (what, scale, .5 * f[0]))
    if abs(ang) > 180 * f[1] + 1e-6:
        ctx.violate('noise out of bounds:rotation', '%s: rotated by %.4f '
                    'degrees, at most %.2f were requested' % (what, ang,
                                                             180 * f[1]))
    if not np.allclose(N / scale, [[np.cos(np.deg2rad(ang)),
                                    -np.sin(np.deg2rad(ang))],
                                   [np.sin(np.deg2rad(ang)),
                                    np.cos(np.deg2rad(ang))]], atol=1e-7):
        ctx.violate('noise is no similarity', what)
    ctx.state(name, op['type'], str(op['pct']), op['rot'], draws.mode)


# ----------------------------------------------------------------- recording

class Recorder(object):
    def __init__(self):
        self.draws = []         # (gt box, start box, drawn shape)
        self.scales = []        # one record per algorithm, in training order
        self.dets = []          # what dlib was given, per training

    def perturb(self, op):
        from menpofit.fitter import noisy_shape_from_bounding_box as noisy
        kw = {}
        if op['pct'] is not None:
            kw['noise_percentage'] = op['pct']
        if op['type'] != 'default':
            kw['noise_type'] = op['type']
        if op['rot']:
            kw['allow_alignment_rotation'] = True
        n = [0]

        def perturb(gt, bb):
            feats._hook('perturb')
            a, b = gt.points.copy(), bb.points.copy()
            out = noisy(gt, bb, **kw)
            n[0] += 1
            k = op['perturb']
            if k == 'far':
                out.points[...] += [(9, 9), (-12, 3), (2, 15), (-9, -9)][
                    n[0] % 4]
            elif k == 'big':
                c = out.points.mean(0)
                out.points[...] = (out.points - c) * 2.5 + c
            elif k == 'tiny':
                c = out.points.mean(0)
                out.points[...] = (out.points - c) * .3 + c
            elif k == 'points':
                from menpo.shape import PointCloud
                out = PointCloud(np.vstack([out.points,
                                            out.points.mean(0)[None]]))
            self.draws.append((a, b, out.points.copy()))
            return out
        return perturb

    def algorithm(self, make):
        """Wrap a class of algorithms (what a caller may pass)."""
        def build(*a, **k):
            alg = make(*a, **k)
            rec = dict(alg=alg, train=0, iters=[], regs=[])
            self.scales.append(rec)
            train = alg.train
            feat = getattr(alg, '_compute_training_features', None)

            def new_train(images, gt_shapes, current_shapes, *b, **kk):
                rec['train'] += 1
                rec['sizes'] = [im.shape for im in images]
                rec['gt'] = [g.points.copy() for g in gt_shapes]
                rec['in'] = pts(current_shapes)
                out = train(images, gt_shapes, current_shapes, *b, **kk)
                rec['out'] = pts(out)
                return out

            def new_feat(images, gt_shapes, current_shapes, *b, **kk):
                rec['iters'].append(pts(current_shapes))
                rec['images'] = images
                return feat(images, gt_shapes, current_shapes, *b, **kk)
            alg.train = new_train
            if feat is not None:
                alg._compute_training_features = new_feat
            rcls = getattr(alg, '_regressor_cls', None)
            if rcls is not None:
                def reg(*b, **kk):
                    r = rcls(*b, **kk)
                    rt = r.train

                    def new_rt(X, T, *c, **kkk):
                        rec['regs'].append((np.array(X), np.array(T)))
                        return rt(X, T, *c, **kkk)
                    r.train = new_rt
                    return r
                alg._regressor_cls = reg
            return alg
        return build

    @contextlib.contextmanager
    def dlib(self):
        import dlib
        from menpofit.dlib.algorithm import DlibAlgorithm as A
        old, old_t = A.train, dlib.train_shape_predictor
        me = self

        def train(alg, images, gt_shapes, bounding_boxes, *b, **k):
            rec = dict(alg=alg, train=1, iters=[], regs=[],
                       sizes=[im.shape for im in images],
                       gt=[g.points.copy() for g in gt_shapes])
            rec['in'] = pts(bounding_boxes)
            me.scales.append(rec)
            out = old(alg, images, gt_shapes, bounding_boxes, *b, **k)
            rec['out'] = pts(out)
            return out

        def predictor(px, dets, options):
            me.dets.append([[(d.rect.top(), d.rect.left(), d.rect.bottom(),
                              d.rect.right(), d.num_parts) for d in ds]
                            for ds in dets])
            return old_t(px, dets, options)
        A.train, dlib.train_shape_predictor = train, predictor
        try:
            yield
        finally:
            A.train, dlib.train_shape_predictor = old, old_t


def pts(shapes):
    return [[s.points.copy() for s in ss] for ss in shapes]


# ------------------------------------------------------------------ training

def expect_boxes(im, draws, n, start, provided):
    """The starting boxes of one rescaled image, from the recorded draws:
    per box the perturbed ones, then the box itself if it was provided."""
    from menpo.shape import PointCloud
    lo, hi = im.bounds()
    out = []
    k = 0
    for b in start:
        for _ in range(n):
            out.append(PointCloud(draws[k][2]).bounding_box())
            k += 1
        if provided:
            out.append(b)
    for b in out:
        b.points[...] = np.clip(b.points, lo, hi)
    return out


def box_range(p):
    return np.maximum(p.max(0) - p.min(0), 1e-9)


def same_points(a, b, size=60., tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return not (np.isfinite(a).all() or np.isfinite(b).all())
    return np.allclose(a, b, rtol=tol, atol=tol * size)


def judge(sc, op, s, imgs, rec, ref, ctx, lab):
    """Compare what was recorded with what was asked for."""
    from menpo.shape import PointCloud
    from menpo.transform import AlignmentAffine, AlignmentSimilarity
    provided = op['boxes'] and op['has_boxes']
    scales = s['model']['scales'] if 'model' in s else s['scales']
    fs = s.get('model', s).get('features', 'no_op')
    fs = list(fs) if isinstance(fs, (list, tuple)) else [fs] * len(scales)
    dl = s['family'] == 'Dlib'
    n = op['n']
    where = '%s, %d perturbations, %s' % (
        lab, n, '%d provided boxes' % op['has_boxes'] if provided
        else 'ground truth boxes')

    starts, rescaled = [], []
    for im in imgs:
        im = im.copy()
        if dl:
            im.landmarks['__gt'] = im.landmarks['PTS'].bounding_box()
        r = im.rescale_to_pointcloud(ref, group='__gt' if dl else 'PTS')
        rescaled.append(r)
        starts.append([v.bounding_box() for _, v in
                       r.landmarks.items_matching('bb_*')] if provided
                      else [r.landmarks['PTS'].bounding_box()])
    total = sum(len(b) for b in starts) * n
    if len(rec.draws) != total:
        ctx.violate('wrong number of perturbations', '%s: %d were drawn for '
                    '%d boxes' % (where, len(rec.draws), total // max(n, 1)))
    # every box was perturbed as often as requested
    per_image, k = [], 0
    for r, st in zip(rescaled, starts):
        per_image.append(rec.draws[k:k + n * len(st)])
        k += n * len(st)
        want = [b.points for b in st for _ in range(n)]
        gtb = r.landmarks['PTS'].bounding_box().points
        for (g, b, _), e in zip(per_image[-1], want):
            if not same_points(b, e) or not same_points(g, gtb):
                ctx.violate('wrong box perturbed', '%s: box %s, expected %s' % (
                    where, b[[0, 2]].round(2).tolist(),
                    e[[0, 2]].round(2).tolist()))
    expected = [expect_boxes(r, d, n, st, provided)
                for r, d, st in zip(rescaled, per_image, starts)]
    counts = [len(e) for e in expected]

    if len(rec.scales) != len(scales):
        ctx.violate('scale not trained', '%s: %d of %d algorithms' % (
            where, len(rec.scales), len(scales)))
    # the frames of the scales
    feat = None
    for j, sc_ in enumerate(scales):
        a = rec.scales[j]
        if a['train'] != 1:
            ctx.violate('scale not trained', '%s: scale %d was trained %d '
                        'times' % (where, j, a['train']))
        got = [len(x) for x in a['in']]
        if got != counts:
            ctx.violate('initialisations lost', '%s: scale %d is trained with '
                        '%s initial shapes per image instead of %s' % (
                            where, j, got, counts))
        if j == 0:
            for i, r in enumerate(rescaled):
                r = r.copy()
                for q, b in enumerate(expected[i]):
                    r.landmarks['__e%d' % q] = b
                f = feats.feature(fs[0])
                r = f(r) if fs[0] != 'no_op' else r
                if not np.allclose(sc_, 1):
                    r = r.rescale(sc_)
                if not same_points(a['gt'][i], r.landmarks['PTS'].points):
                    ctx.violate('wrong ground truth', '%s: image %d' % (where,
                                                                       i))
                for q in range(counts[i]):
                    b = r.landmarks['__e%d' % q]
                    if dl:
                        e = b.points
                        h, w = r.shape
                        x = a['in'][i][q]
                        if x.min() < -1e-6 or (x.max(0) > np.array(
                                [h, w]) + 1e-6).any():
                            ctx.violate('initial box outside the image',
                                        '%s: %s in %dx%d' % (
                                            where, x[[0, 2]].round(2).tolist(),
                                            h, w))
                    else:
                        e = AlignmentSimilarity(ref.bounding_box(), b).apply(
                            ref).points
                    if not same_points(a['in'][i][q], e):
                        ctx.violate(
                            'wrong initial shape', '%s: image %d, number %d: '
                            '%s instead of %s' % (
                                where, i, q, brief(a['in'][i][q]), brief(e)))
        else:
            p = rec.scales[j - 1]
            for i in range(len(imgs)):
                t = AlignmentAffine(PointCloud(p['gt'][i]),
                                    PointCloud(a['gt'][i]))
                for q in range(counts[i]):
                    x = p['out'][i][q]
                    if not np.isfinite(x).all() or np.abs(x).max() > 1e4:
                        continue
                    e = t.apply(PointCloud(x)).points
                    if not same_points(a['in'][i][q], e, tol=1e-5):
                        ctx.violate(
                            'estimates not carried to the next scale',
                            '%s: scale %d, image %d, number %d: %s instead of '
                            '%s' % (where, j, i, q, brief(a['in'][i][q]),
                                    brief(e)))
        if not dl:
            iterations(sc, s, a, counts, where, j, ctx)
        elif [len(d) for d in rec.dets[j]] != counts:
            ctx.violate('initialisations lost', '%s: dlib gets %s boxes per '
                        'image instead of %s' % (
                            where, [len(d) for d in rec.dets[j]], counts))
        else:
            for i in range(len(imgs)):
                for q, (t, l, b, r, m) in enumerate(rec.dets[j][i]):
                    x = a['in'][i][q]
                    e = [x[:, 0].min(), x[:, 1].min(), x[:, 0].max(),
                         x[:, 1].max()]
                    if not np.allclose([t, l, b, r], e, atol=1.01) or \
                            m != world.N_POINTS:
                        ctx.violate('wrong initial shape', '%s: dlib gets '
                                    '%s for %s' % (where, (t, l, b, r), e))
    ctx.state(lab, len(scales), counts[0], n, op['perturb'], sc['draws'])


def iterations(sc, s, a, counts, where, j, ctx):
    alg = a['alg']
    k_max = alg.n_iterations
    total = sum(counts)
    if a['regs'] and len(a['regs']) != k_max:
        ctx.violate('iteration not trained', '%s: %d regressions of %d at '
                    'scale %d' % (where, len(a['regs']), k_max, j))
    for k, it in enumerate(a['iters']):
        if [len(x) for x in it] != counts:
            ctx.violate('initialisations lost', '%s: iteration %d of scale %d '
                        'is trained with %s shapes per image instead of %s' % (
                            where, k, j, [len(x) for x in it], counts))
    for k, (X, T) in enumerate(a['regs']):
        if len(X) != total or len(T) != total:
            ctx.violate('initialisations lost', '%s: regression %d of scale '
                        '%d has %d rows and %d targets for %d shapes' % (
                            where, k, j, len(X), len(T), total))
    if not s.get('alg', '').startswith('NonParametric'):
        return
    from menpo.shape import PointCloud
    from menpofit.sdm.algorithm.base import features_per_patch
    for k, ((X, T), it) in enumerate(zip(a['regs'], a['iters'])):
        row = 0
        for i, shapes in enumerate(it):
            for x in shapes:
                d = a['gt'][i].ravel() - x.ravel()
                if np.isfinite(d).all() and not np.allclose(
                        T[row], d, rtol=1e-6, atol=1e-6):
                    ctx.violate('wrong regression target', '%s: regression %d '
                                'of scale %d, row %d' % (where, k, j, row))
                if np.abs(x).max() < 1e4 and k in (0, k_max - 1):
                    e = features_per_patch(a['images'][i], PointCloud(x),
                                           alg.patch_shape,
                                           alg.patch_features)
                    if not np.allclose(X[row][:len(e)], e, rtol=1e-6,
                                       atol=1e-9):
                        ctx.violate('wrong regression features', '%s: '
                                    'regression %d of scale %d, row %d' % (
                                        where, k, j, row))
                row += 1


def brief(p):
    p = np.asarray(p)
    return 'centre %s size %s' % (p.mean(0).round(3).tolist(),
                                  (p.max(0) - p.min(0)).round(3).tolist())


def train(s, op, imgs, rec, model):
    over = dict(n_perturbations=op['n'],
                perturb_from_gt_bounding_box=rec.perturb(op),
                group='PTS' if op['group'] else None)
    if op['boxes'] and op['has_boxes']:
        over['bounding_box_group_glob'] = 'bb_*'
    elif s['family'] != 'SDAAM':
        over['bounding_box_group_glob'] = None
    if op['verbose']:
        over['verbose'] = True
    if s['family'] == 'Dlib':
        with rec.dlib():
            return zoo.fitter_from(s, model, imgs, **over)
    old = zoo.alg_cls
    zoo.alg_cls = lambda m, q, *a: rec.algorithm(old(m, q, *a))
    try:
        return zoo.fitter_from(s, model, imgs, **over)
    finally:
        zoo.alg_cls = old


def training_images(sc, s):
    from menpo.shape import PointCloud
    w = zoo.world_of(s)
    imgs = world.images(w)
    if sc.get('ragged') and w['boxes']:
        im = imgs[-1]
        if sc['ragged'] > 0:
            b = im.landmarks['bb_0'].copy()
            b.points[...] += 1.
            im.landmarks['bb_x'] = b
        elif w['boxes'] > 1:
            del im.landmarks['bb_0']
    if sc.get('odd') and w['boxes']:
        for im in imgs:
            if 'bb_0' not in im.landmarks:
                continue
            b = im.landmarks['bb_0'].points
            im.landmarks['bb_0'] = PointCloud(np.vstack(
                [b, b.mean(0)[None], b[:1] * .6 + b[2:3] * .4]))
    return imgs


def run(sc, ctx):
    draws = Draws(sc['draws'], sc['dseed'])
    if sc['kind'] == 'noise':
        for op in sc['ops']:
            noise_op(op, ctx, draws)
            ctx.log(op['fn'], op['type'], op['pct'], op['rot'])
        for k, v in draws.n.items():
            if k != 'real':
                ctx.fault('extreme draw: ' + k, v)
        return
    s = sc['fitter']
    lab = common.label(s)
    ctx.log(lab)
    model = None
    if 'model' in s:
        try:
            model = zoo.build_model(s['model'])
        except Exception as e:
            raise Skip('untrainable: %s' % type(e).__name__)
    imgs = training_images(sc, s)
    done = 0
    for op in sc['ops']:
        op = dict(op, has_boxes=zoo.world_of(s)['boxes'])
        if len(imgs[0].landmarks) > 1 and s['family'] != 'SDM':
            # the first group is only used when none is named
            op['group'] = True
        if imgs[0].landmarks.group_labels[0] != 'PTS':
            op['group'] = True
        if op['boxes'] and op['has_boxes'] or zoo.world_of(s).get('extra'):
            op['group'] = True
        for attempt in range(2):
            rec = Recorder()
            np.random.seed(s['np_seed'] % (2 ** 32))
            fault = op.get('fault') if attempt == 0 else None

            def go():
                with draws.active():
                    return train(s, op, imgs, rec, model)
            out = faults.with_fault(go, fault, ctx)
            ctx.log('train', out[0], out[1] if out[0] == 'exc' else '')
            if out[0] == 'ok':
                break
        if out[0] != 'ok':
            ctx.count('untrainable')
            continue
        done += 1
        ref = out[1].reference_shape
        judge(sc, op, s, imgs, rec, ref, ctx, lab)
        ctx.count('trainings judged')
    for k, v in draws.n.items():
        if k != 'real':
            ctx.fault('extreme draw: ' + k, v)
    if not done:
        raise Skip('untrainable')


def simplify(sc):
    out = []
    if sc['kind'] == 'train':
        out += common.simplify_fitter(sc)
    if sc['draws'] != 'real':
        out.append(dict(sc, draws='real'))
    return out
