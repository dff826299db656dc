"""C04: a fit ends within its budget and returns a consistent trace."""
import copy
import math

import numpy as np

from .. import common, faults, snap, world, zoo

RUNS = {'quick': 1300, 'thorough': 14000}
RULE = ('a run trains one random fitter and fits images (ordinary, flat, '
        'noisy, undefined) under a simulated linear solver whose steps '
        'vanish, explode, flip, oscillate, become undefined or fail from a '
        'random call on; every returned result is checked against the budget '
        'and trace rules and repeated with a larger budget and other '
        'reporting options; non trivial: at least one result was checked; '
        'distinct by event log')
STATES = ('distinct (fitter kind, solver mode, image kind, iterations per '
          'scale) tuples')
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)']
STUB = ['images are synthetic', 'numpy.linalg.solve and scipy.linalg.solve '
        'are replaced by a wrapper that alters steps']
ASSUMES = ['termination is judged as a bound on executed lines of menpofit '
           'that is far above any terminating fit',
           'an overall number of iterations is spread evenly and rounded',
           'numerical failures (singular systems) of a diverging fit are '
           'legitimate errors']
MIN_OPS = 1
LINES = 400000


def gen(rng, i):
    s = zoo.gen_fitter(rng)
    ns = zoo.n_scales_of(s)
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        op = zoo.gen_fit(rng, s)
        op['init']['dy'] = round(op['init']['dy'] * rng.choice([1, 1, 2]), 2)
        if s['family'] != 'Dlib':
            op['max_iters'] = rng.choice(
                [1, 2, 3, 4, 6, 9, 20, None] +
                [[rng.choice([0, 1, 2, 3, 5, 7]) for _ in range(ns)]
                 for _ in range(6)] + [[5]])
            op['costs'] = rng.random() < 0.6
        if rng.random() < 0.6:
            op['fault'] = dict(
                kind='solve', n=rng.choice([1, 1, 2, 3, 4, 6]),
                every=rng.random() < 0.75,
                mode=rng.choice(['zero', 'zero', 'big', 'huge', 'flip',
                                 'osc', 'nan', 'singular']))
        op['content'] = rng.choice(['plain'] * 7 + ['flat', 'noise', 'nan',
                                                    'inverted'])
        op['more'] = rng.choice([None, 'budget', 'budget', 'costs', 'gt'])
        ops.append(op)
    return dict(fitter=s, ops=ops)


def images(s, op):
    imgs = zoo.test_images(s)
    im, gt = imgs[op['im']]
    r = np.random.RandomState(op['im'] + 7)
    if op['content'] == 'flat':
        im.pixels[...] = 0.25
    elif op['content'] == 'noise':
        im.pixels[...] = r.rand(*im.pixels.shape)
    elif op['content'] == 'nan':
        im.pixels[..., 20:24, 20:24] = np.nan
    elif op['content'] == 'inverted':
        im.pixels[...] = 1. - im.pixels
    return imgs


def budgets(s, op):
    """(at most, exactly or None) iterations of every scale."""
    ns = zoo.n_scales_of(s)

    def spread(b):
        if isinstance(b, list) and len(b) == 1 and ns > 1:
            b = b[0]
        if isinstance(b, list):
            return [int(x) for x in b]
        return [max(int(np.round(b / float(ns))), 0)] * ns
    if s['family'] in ('SDM', 'SDAAM', 'Dlib'):
        b = spread(s['n_iterations'])
        # a whole dlib cascade counts as one iteration
        return b, [1] * ns if s['family'] == 'Dlib' else b
    b = op.get('max_iters')
    return spread(20 if b is None else b), None


def params_of(res):
    for n in ('shape_parameters', 'homogeneous_parameters'):
        try:
            v = getattr(res, n)
        except AttributeError:
            continue
        if v is not None:
            return n, list(v)
    return None, None


def costs_of(res, name='costs'):
    c = getattr(res, name, None)
    c = c() if callable(c) else c
    return None if c is None else list(c)


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) &
                                                     np.isnan(b))))


def box_initial(fitter, bb):
    """The reference shape in the box (scaled and moved only)."""
    p = np.array(fitter.reference_shape.points)
    lo, hi = p.min(0), p.max(0)
    c = (lo + hi) / 2.
    box = np.array([lo, [hi[0], lo[1]], hi, [lo[0], hi[1]]])
    t = np.array(bb.points)
    tc = t.mean(0)
    s = np.linalg.norm(t - tc) / np.linalg.norm(box - c)
    return (p - c) * s + tc


def check(s, op, fitter, pristine, res, im, init, gt, ctx):
    """Yields texts: every rule of the record that is broken."""
    ns = zoo.n_scales_of(s)
    fam = s['family']
    most, exactly = budgets(s, op)
    per = [int(x) for x in res.n_iters_per_scale]
    n = res.n_iters
    shapes = list(res.shapes)
    if res.n_scales != ns or len(per) != ns:
        yield '%r scales reported, %d trained' % (res.n_scales, ns)
    if sum(per) != n:
        yield 'n_iters is %r but the scales add up to %r' % (n, per)
    for i, (k, b) in enumerate(zip(per, most)):
        if k > b or k < 0:
            yield 'scale %d ran %d iterations, the budget was %d' % (i, k, b)
    if exactly is not None and per != exactly:
        yield 'the cascade has %r iterations, %r were reported' % (exactly,
                                                                   per)
    # ---- counts
    pname, params = params_of(res)
    parametric = params is not None
    lead = 0 if fam == 'Dlib' else 1
    want = n + lead + (ns if parametric else 0)
    if len(shapes) != want:
        yield '%d iterations on %d scales but %d shapes' % (n, ns,
                                                            len(shapes))
        return
    if parametric:
        if len(params) != n + ns:
            yield '%d iterations on %d scales but %d %s' % (
                n, ns, len(params), pname)
            return
        rec = list(res.reconstructed_initial_shapes)
        if len(rec) != ns:
            yield '%d reconstructed initial shapes' % len(rec)
        at = 1
        for i in range(ns):
            if i < len(rec) and not close(rec[i].points, shapes[at].points,
                                          1e-9):
                yield ('reconstructed initial shape of scale %d is not the '
                       'shape it starts with' % i)
            at += per[i] + 1
    app = getattr(res, 'appearance_parameters', None)
    if app is not None and len(app) != n + ns:
        yield '%d iterations on %d scales but %d appearance parameters' % (
            n, ns, len(app))
        app = None
    if app is not None and hasattr(fitter, 'appearance_reconstructions') \
            and hasattr(pristine.simfit_model, 'appearance_models'):
        rec = fitter.appearance_reconstructions(res.appearance_parameters,
                                                res.n_iters_per_scale)
        if len(rec) != len(app):
            yield '%d appearances reconstructed from %d parameters' % (
                len(rec), len(app))
        else:
            at = 0
            for i in range(ns):
                am = pristine.simfit_model.appearance_models[i]
                for c, r in zip(app[at:at + per[i] + 1],
                                rec[at:at + per[i] + 1]):
                    want = am.instance(np.array(c)).pixels
                    got = getattr(r, 'pixels', r)
                    if np.isfinite(want).all() and snap.diff(
                            want, np.asarray(got), 1e-6, 1e-6):
                        yield ('the appearance reconstructed at scale %d is '
                               'not the one of its parameters' % i)
                        break
                at += per[i] + 1
    costs = costs_of(res)
    if costs is not None:
        if not op.get('costs'):
            yield 'costs were not asked for'
        if len(costs) != (n if fam == 'LK' else n + ns):
            yield '%d iterations on %d scales but %d costs' % (n, ns,
                                                               len(costs))
            costs = None
    elif op.get('costs') and fam in ('LKAAM', 'ATM', 'LK', 'APS'):
        yield 'costs were asked for but not returned'
    for extra in ('appearance_costs', 'deformation_costs'):
        c = costs_of(res, extra)
        if c is not None and len(c) != n + ns:
            yield '%d iterations on %d scales but %d %s' % (n, ns, len(c),
                                                            extra)
    if costs is not None and fam == 'APS':
        a, d = costs_of(res, 'appearance_costs'), costs_of(
            res, 'deformation_costs')
        if a is not None and d is not None and len(a) == len(d) == len(costs):
            for x, y, z in zip(a, d, costs):
                if np.isfinite([x, y, z]).all() and abs(x + y - z) > \
                        1e-6 * max(abs(x), abs(y), abs(z), 1e-3):
                    yield 'costs are not the sum of their parts'
                    break
    # ---- first, last, frame
    if lead:
        if not close(shapes[0].points, init, 1e-6):
            yield ('the first shape is not the initialisation (up to %.3g '
                   'pixels away)' % np.abs(shapes[0].points - init).max())
        if res.initial_shape is None or not close(
                res.initial_shape.points, init, 1e-6):
            yield 'initial_shape is not the initialisation'
    if not close(shapes[-1].points, res.final_shape.points, 1e-12):
        yield 'the last shape is not the final shape'
    if len(set(x.n_points for x in shapes)) != 1:
        yield 'shapes of different size'
    if res.image is None or not snap.exact(
            np.asarray(res.image.pixels), np.asarray(im.pixels)) is None:
        yield 'the image of the result is not the image given'
    if op.get('gt'):
        if res.gt_shape is None or not close(res.gt_shape.points, gt.points,
                                             1e-12):
            yield 'gt_shape is not the one given'
        finite = all(np.isfinite(x.points).all() for x in shapes)
        if finite:
            e = res.errors()
            if len(e) != len(shapes):
                yield '%d errors of %d shapes' % (len(e), len(shapes))
            elif not np.isclose(e[-1], res.final_error(), rtol=1e-9,
                                atol=1e-12):
                yield 'the last error is not the final error'
            elif lead and not np.isclose(e[0], res.initial_error(),
                                         rtol=1e-6, atol=1e-9):
                yield 'the first error is not the initial error'
            if e and not np.isclose(e[-1], rms_error(
                    res.final_shape.points, gt.points), rtol=1e-9,
                    atol=1e-12):
                yield 'the final error is not that of the final shape'
    elif res.gt_shape is not None:
        yield 'a ground truth shape appeared'
    if len(shapes) > 1 and all(
            np.isfinite(x.points).all() and np.abs(x.points).max() < 1e6
            for x in shapes):
        d = res.displacements()
        if len(d) != len(shapes) - 1:
            yield '%d displacements between %d shapes' % (len(d), len(shapes))
        else:
            for j in range(len(d)):
                w = np.linalg.norm(shapes[j + 1].points - shapes[j].points,
                                   axis=1)
                if not close(np.asarray(d[j]).ravel(), w, 1e-6):
                    yield 'displacement %d is not that of the shapes' % j
                    break
    if not parametric:
        return
    # ---- every scale starts where the previous one ended
    at = 1
    linear = 'Linear' in s.get('model', {}).get('variant', '')
    for i in range(ns):
        a, b = shapes[at - 1].points, shapes[at].points
        at += per[i] + 1
        if not (np.isfinite(a).all() and np.isfinite(b).all()):
            continue
        size = np.linalg.norm(a - a.mean(0)) / np.sqrt(len(a))
        far = np.linalg.norm(a - b, axis=1).mean()
        # (a distorted shape may be far from what a shape model generates)
        off = 0. if i == 0 else np.linalg.norm(a - init, axis=1).mean()
        if 8 < size < 20 and not (linear and i) and off < .35 * size and \
                far > 0.25 * size:
            yield ('scale %d starts with a shape that is %.3g pixels away '
                   'from the one before (size %.3g)' % (i, far, size))
    # ---- parameters describe the shapes; equal states have equal costs
    at = 0
    for i in range(ns):
        P = params[at:at + per[i] + 1]
        S = [x.points for x in shapes[1 + at:1 + at + per[i] + 1]]
        C = None
        if costs is not None and len(costs) == n + ns:
            C = costs[at:at + per[i] + 1]
        A = None if app is None else app[at:at + per[i] + 1]
        at += per[i] + 1
        if len(set(np.shape(p) for p in P)) > 1:
            yield 'parameter vectors of different size on scale %d' % i
            continue
        t = describes(fam, pristine, i, P, S)
        if t:
            yield 'scale %d: %s' % (i, t)
        if C is not None:
            for j in range(len(P) - 1):
                same = snap.diff(P[j], P[j + 1], 1e-12, 1e-12) is None and (
                    A is None or snap.diff(A[j], A[j + 1], 1e-12,
                                           1e-12) is None)
                if same and np.isfinite([C[j], C[j + 1]]).all() and \
                        abs(C[j] - C[j + 1]) > 1e-6 * max(abs(C[j]), 1e-6):
                    yield ('equal parameters with costs %.9g and %.9g on '
                           'scale %d' % (C[j], C[j + 1], i))
                    break


NUMERICAL = ('LinAlgError', 'FloatingPointError', 'OverflowError')
BROKE_DOWN = ('nan', 'inf', 'finite', 'singular', 'converge', 'positive',
              'scale factor')


def crash(out):
    """Is this error anything but the numerical failure of a diverging
    fit?"""
    name, msg = out[1], out[2]
    if name in NUMERICAL:
        return False
    if name in ('TypeError', 'AttributeError', 'NameError', 'KeyError',
                'IndexError', 'UnboundLocalError', 'NotImplementedError',
                'ZeroDivisionError', 'AssertionError', 'RecursionError'):
        return True
    return name == 'ValueError' and not any(w in msg.lower()
                                            for w in BROKE_DOWN)


def rms_error(p, q):
    """Mean point to point distance over the mean side of the box of q."""
    d = np.mean(np.sqrt(((p - q) ** 2).sum(1)))
    return d / np.mean(q.max(0) - q.min(0))


def describes(fam, pristine, i, P, S):
    """Do the parameters of a scale generate its shapes (up to the one affine
    transform between that scale and the image)?"""
    alg = pristine.algorithms[i]
    t = getattr(alg, 'transform', None)
    if t is None:
        t = getattr(alg, 'shape_model', None)
    if t is None or not hasattr(t, 'from_vector_inplace'):
        return None
    src, dst = [], []
    # the initial transform of an image alignment is a least squares estimate
    k = 1 if fam == 'LK' else 0
    if not P[k:]:
        return None
    for p, sh in zip(P[k:], S[k:]):
        if not (np.isfinite(p).all() and np.isfinite(sh).all()) or \
                np.abs(sh).max() > 1e4:
            return None
        try:
            t.from_vector_inplace(np.array(p, dtype=float))
            if fam == 'LK':
                inst = t.apply(pristine.templates[i].landmarks[
                    'PTS']).points
            elif hasattr(t, 'sparse_target'):
                inst = t.sparse_target.points
            elif hasattr(t, 'pdm'):
                inst = t.pdm.target.points
            else:
                inst = t.target.points
        except Exception:
            return None
        src.append(inst)
        dst.append(sh)
    X = np.vstack(src)
    Y = np.vstack(dst)
    if X.shape != Y.shape or not np.isfinite(X).all():
        return 'parameters and shapes do not match'
    # the transform is a scaling and a translation per axis
    for d in range(2):
        A = np.c_[X[:, d], np.ones(len(X))]
        sol = np.linalg.lstsq(A, Y[:, d], rcond=None)[0]
        r = np.abs(A.dot(sol) - Y[:, d]).max()
        if r > 1e-6 * max(1., np.abs(Y).max()):
            return ('the parameters do not generate the shapes (%.3g pixels '
                    'off)' % r)
    return None


def prefix(a, b, per, n0, what):
    """The part of two traces that must agree: everything up to the end of
    the first scale (``per`` iterations there)."""
    for k, lead in (('shapes', 1), ('shape_parameters', 0),
                    ('homogeneous_parameters', 0),
                    ('appearance_parameters', 0), ('costs', None)):
        x, y = a.get(k), b.get(k)
        if not isinstance(x, list) or not isinstance(y, list):
            continue
        m = per if lead is None and a['type'].startswith('LucasKanade') or \
            lead is None and 'homogeneous_parameters' in a else (
                per + 1 + (lead or 0))
        if k == 'shapes' and not any(
                isinstance(a.get(q), list) for q in
                ('shape_parameters', 'homogeneous_parameters')):
            # nothing was reconstructed before the first step
            m = per + 1
        d = snap.diff(x[:m], y[:m], 1e-9, 1e-9)
        if d:
            return '%s%s' % (k, d)
    return None


def shortened(fitter, n):
    """The same cascade without the last regressions of its first scale, and
    the number of those that it kept."""
    f = copy.deepcopy(fitter)
    r = getattr(f.algorithms[0], 'regressors', None)
    if not isinstance(r, list) or len(r) < 2:
        return None, 0
    k = len(r) - 1 - (n % (len(r) - 1) if n % 3 == 0 else 0)
    f.algorithms[0].regressors = r[:k]
    return f, k


def call(fitter, s, op, ctx, log=True):
    imgs = images(s, op)
    args = zoo.fit_args(s, op, imgs)
    st = {}

    def go():
        t = faults.LineTrace(budget=LINES)
        try:
            with t:
                return zoo.do_fit(fitter, s, op, imgs, args)
        except faults.StepBudget:
            st['hang'] = True
        finally:
            st['lines'] = t.n
    out = faults.with_fault(go, op.get('fault'), ctx if log else None)
    if st.get('hang'):
        ctx.violate('does not end:' + s['family'],
                    '%s: a fit executed more than %d lines without ending '
                    '(max_iters %r)' % (common.label(s), LINES,
                                        op.get('max_iters')))
    return out, imgs, args


def run(sc, ctx):
    s = sc['fitter']
    model, fitter = common.build(s, ctx, strict=True)
    lab = common.label(s)
    ctx.log(lab)
    pristine = None
    if s['family'] != 'Dlib':
        pristine, m = copy.deepcopy((fitter, model))
        pristine.simfit_model = m
    for op in sc['ops']:
        out, imgs, (im, init, kw) = call(fitter, s, op, ctx)
        ctx.log('fit', op.get('max_iters'), out[0],
                out[1] if out[0] == 'exc' else out[1].n_iters_per_scale)
        mode = (op.get('fault') or {}).get('mode')
        ctx.state(lab, mode, op['content'], out[1] if out[0] == 'exc' else
                  tuple(out[1].n_iters_per_scale))
        if out[0] == 'exc':
            ctx.count('fits that raised')
            if not op.get('fault') and op['content'] != 'nan' and \
                    crash(out):
                ctx.violate('raises:' + s['family'] + ':' + out[1],
                            '%s: a valid fit raises %s: %s' % (
                                lab, out[1], out[2]))
            continue
        ctx.count('results checked')
        res = out[1]
        if op['init']['kind'] == 'bb':
            p0 = box_initial(fitter, init) if s['family'] != 'Dlib' else None
        else:
            p0 = np.array(init.points)
        gt = imgs[op['im']][1]
        for t in check(s, op, fitter, pristine, res, im, p0, gt, ctx):
            ctx.violate('trace:' + s['family'], '%s: %s (max_iters %r, '
                        'scales %r)' % (lab, t, op.get('max_iters'),
                                        zoo.n_scales_of(s)))
        # ---- the same fit, reported differently or with a larger budget
        how = op.get('more')
        if how is None or s['family'] == 'Dlib':
            continue
        op2 = dict(op)
        full = False
        if how == 'budget':
            b = op.get('max_iters')
            most, _ = budgets(s, op)
            op2['max_iters'] = [most[0] + 3] + most[1:]
        elif op.get('fault'):
            continue
        elif how == 'costs':
            op2['costs'] = not op.get('costs')
            full = True
        else:
            op2['gt'] = not op.get('gt')
            full = True
        out2, _, _ = call(fitter, s, op2, ctx, False)
        if out2[0] != 'ok':
            ctx.log('more raised', out2[1])
            if full:
                ctx.violate('reporting changes the fit:' + s['family'],
                            '%s: a fit fails (%s) when %s is %s' % (
                                lab, out2[1], how, op2.get(how)))
            continue
        a, b = snap.result(res), snap.result(out2[1])
        ctx.count('pairs of fits compared')
        if full:
            d = None
            for k in ('shapes', 'shape_parameters', 'n_iters_per_scale',
                      'homogeneous_parameters', 'appearance_parameters'):
                d = d or snap.diff(a.get(k), b.get(k), 1e-9, 1e-9, k)
        else:
            per = [int(x) for x in res.n_iters_per_scale][0]
            d = prefix(a, b, per, 0, s['family'])
        if d:
            ctx.violate(
                'reporting changes the fit:' + s['family'] if full else
                'budget changes the steps:' + s['family'],
                '%s: %s' % (lab, ('asking for %s changes the fit: %s' % (
                    how, d)) if full else
                    'the steps of the first scale depend on the budget '
                    '(%r or %r): %s' % (op.get('max_iters'),
                                        op2['max_iters'], d)))
    if s['family'] in ('SDM', 'SDAAM') and sc['ops']:
        cascade(s, sc['ops'][-1], fitter, ctx)


def cascade(s, op, fitter, ctx):
    """The first regressions of a cascade alone take the same steps."""
    op = dict(op, fault=None)
    short, per = shortened(fitter, int(1e6 * abs(op['init'].get('dy', 0.))))
    if short is None:
        return
    outs = [call(f, s, op, ctx, False)[0] for f in (short, fitter)]
    ctx.log('cascade', per, [o[0] for o in outs])
    if any(o[0] != 'ok' for o in outs):
        return
    ctx.count('cascades compared')
    a, b = [snap.result(o[1]) for o in outs]
    d = prefix(a, b, per, 0, s['family'])
    if d:
        ctx.violate('a shorter cascade steps elsewhere:' + s['family'],
                    '%s: the first %d regressions of the cascade '
                    'alone give another trace: %s' % (common.label(s), per,
                                                      d))


simplify = common.simplify_fitter
