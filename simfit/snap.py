"""Plain copies of the observable state of menpo/menpofit objects, and their
comparison. Everything goes through public attributes only."""
import functools

import copy

import numpy as np

BIG = 1e4


def _arr(a):
    return np.array(a, copy=True)


def shape(s):
    """Points and (if any) connectivity and labels of a shape."""
    if s is None:
        return None
    d = {'type': type(s).__name__, 'points': _arr(s.points)}
    for n in ('adjacency_matrix',):
        if hasattr(s, n):
            m = getattr(s, n)
            d[n] = _arr(m.toarray() if hasattr(m, 'toarray') else m)
    if hasattr(s, 'trilist'):
        d['trilist'] = _arr(s.trilist)
    if hasattr(s, 'labels'):
        d['labels'] = list(s.labels)
        d['masks'] = [_arr(m) for m in s._labels_to_masks.values()]
    return d


def points(s):
    return None if s is None else _arr(s.points)


def image(im):
    if im is None:
        return None
    d = {'type': type(im).__name__, 'pixels': _arr(im.pixels),
         'dtype': str(im.pixels.dtype)}
    if hasattr(im, 'mask') and im.mask is not None:
        d['mask'] = _arr(im.mask.pixels)
    d['landmarks'] = {k: shape(im.landmarks[k])
                      for k in sorted(im.landmarks.group_labels)}
    return d


def plain(x, depth=0):
    """A generic deep copy into comparable structures."""
    from menpo.image import Image
    from menpo.shape import PointCloud
    if depth > 8:
        return '...'
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [plain(v, depth + 1) for v in x.tolist()]
        return _arr(x)
    if isinstance(x, PointCloud):
        return shape(x)
    if isinstance(x, Image):
        return image(x)
    if isinstance(x, dict):
        return {str(k): plain(x[k], depth + 1) for k in x}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    if hasattr(x, 'toarray'):
        return _arr(x.toarray())
    if isinstance(x, functools.partial):
        return {'func': plain(x.func, depth + 1),
                'args': plain(x.args, depth + 1),
                'keywords': plain(x.keywords, depth + 1)}
    if callable(x):
        return getattr(x, '__name__', type(x).__name__)
    return type(x).__name__


RESULT_FIELDS = ('is_iterative', 'n_iters', 'n_scales', 'n_iters_per_scale',
                 'final_shape', 'initial_shape', 'gt_shape', 'shapes',
                 'shape_parameters', 'appearance_parameters',
                 'homogeneous_parameters', 'reconstructed_initial_shapes',
                 'costs', 'appearance_costs', 'deformation_costs')


def result(r, with_image=False):
    """The public record of a fitting result."""
    d = {'type': type(r).__name__}
    for f in RESULT_FIELDS:
        if not hasattr(type(r), f):
            continue
        try:
            v = getattr(r, f)
            d[f] = plain(v() if callable(v) else v)
        except Exception as e:
            d[f] = 'raises ' + type(e).__name__
    if d.get('gt_shape') is not None:
        for f in ('final_error', 'initial_error', 'errors'):
            if hasattr(r, f):
                try:
                    d[f] = plain(getattr(r, f)())
                except Exception as e:
                    d[f] = 'raises ' + type(e).__name__
    if hasattr(r, 'displacements'):
        try:
            d['displacements'] = plain(r.displacements())
        except Exception as e:
            d['displacements'] = 'raises ' + type(e).__name__
    if with_image:
        d['image'] = image(r.image)
    return d


def _first_bad(a, b, rtol, atol):
    with np.errstate(all='ignore'):
        na, nb = np.isnan(a), np.isnan(b)
        same = (a == b) | (na & nb) | (np.abs(a - b) <= atol +
                                       rtol * np.maximum(np.abs(a),
                                                         np.abs(b)))
    if same.all():
        return None
    i = np.unravel_index(np.argmin(same), same.shape)
    return i, a[i], b[i]


def diff(a, b, rtol=1e-6, atol=1e-7, path=''):
    """None, or the path and a description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            try:
                a, b = np.asarray(a), np.asarray(b)
            except Exception:
                return path + ': array / not an array'
        if a.shape != b.shape:
            return '{}: {} / {} elements'.format(path, a.shape, b.shape)
        if a.dtype.kind in 'fciub' and b.dtype.kind in 'fciub':
            if a.dtype.kind in 'b' or b.dtype.kind in 'b':
                a, b = a.astype(float), b.astype(float)
            bad = _first_bad(a, b, rtol, atol)
            if bad is None:
                return None
            return '{}{}: {!r} / {!r}'.format(
                path, [int(i) for i in bad[0]], bad[1].item(), bad[2].item())
        return None if (a == b).all() else path + ': differs'
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return '{}: keys {} / {}'.format(path, sorted(a), sorted(b))
        for k in a:
            d = diff(a[k], b[k], rtol, atol, path + '.' + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '{}: length {} / {}'.format(path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, '{}[{}]'.format(path, i))
            if d:
                return d
        return None
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b else '{}: {!r} / {!r}'.format(path, a, b)
    if isinstance(a, (int, float, complex)) and \
            isinstance(b, (int, float, complex)):
        bad = _first_bad(np.asarray([a]), np.asarray([b]), rtol, atol)
        return None if bad is None else '{}: {!r} / {!r}'.format(path, a, b)
    return None if a == b else '{}: {!r:.80} / {!r:.80}'.format(path, a, b)


def exact(a, b):
    return diff(a, b, 0., 0.)


# ------------------------------------------------------------------- models

def model(m, probe=None):
    """What a trained model generates and reports (public surface)."""
    d = {'type': type(m).__name__}
    for f in ('n_scales', 'scales', 'diagonal'):
        if hasattr(m, f):
            d[f] = plain(getattr(m, f))
    try:
        d['str'] = str(m)
    except Exception as e:
        d['str'] = 'raises ' + type(e).__name__
    ns = m.n_scales
    if hasattr(m, 'reference_shape'):
        d['reference_shape'] = shape(m.reference_shape)
    for i in range(ns):
        k = 'scale%d' % i
        d[k] = {}
        if hasattr(m, 'shape_models'):
            d[k]['shape'] = shape_model(m.shape_models[i])
        if hasattr(m, 'appearance_models'):
            d[k]['app'] = appearance_model(m.appearance_models[i])
        if hasattr(m, 'warped_templates'):
            d[k]['template'] = image(m.warped_templates[i])
        if hasattr(m, 'warped_templates') and i == 0:
            d['n_templates'] = len(m.warped_templates)
        if hasattr(m, 'expert_ensembles'):
            d[k]['experts'] = experts(m.expert_ensembles[i])
        if hasattr(m, 'deformation_models'):
            d[k]['deformation'] = gmrf(m.deformation_models[i])
        d[k]['instance'] = instance(m, i)
    return d


def instance(m, scale):
    """The instance for a fixed set of weights (if the model has one)."""
    if not hasattr(m, 'instance'):
        return None
    import inspect
    kw = {}
    try:
        names = inspect.signature(m.instance).parameters
    except (TypeError, ValueError):
        names = {}
    if 'shape_weights' in names:
        kw['shape_weights'] = [0.3]
    if 'appearance_weights' in names:
        kw['appearance_weights'] = [0.2]
    if 'scale_index' in names:
        kw['scale_index'] = scale
    try:
        return plain(m.instance(**kw))
    except Exception as e:
        return 'raises ' + type(e).__name__


def linear(pca, w=2):
    """A PCA-like model: mean, spectrum, noise and (sign free) projector."""
    d = {'n_active': int(pca.n_active_components),
         'n_components': int(pca.n_components),
         'n_samples': plain(getattr(pca, 'n_samples', None)),
         'eigenvalues': _arr(pca.eigenvalues)}
    mean = pca.mean()
    d['mean'] = _arr(mean.as_vector() if hasattr(mean, 'as_vector') else mean)
    try:
        d['noise'] = float(pca.noise_variance())
    except Exception as e:
        d['noise'] = 'raises ' + type(e).__name__
    c = np.asarray(pca.components)
    r = np.random.RandomState(5)
    v = r.randn(3, c.shape[1])
    d['projector'] = v.dot(c.T).dot(c)
    return d


def shape_model(sm):
    d = {'type': type(sm).__name__}
    inner = getattr(sm, 'model', sm)
    try:
        d.update(linear(inner))
    except Exception as e:
        d['linear'] = 'raises ' + type(e).__name__
    if hasattr(sm, 'from_vector_inplace') and hasattr(
            sm, 'n_global_parameters'):
        # what it makes of a similarity
        try:
            sm = copy.deepcopy(sm)
            v = np.zeros(sm.n_parameters)
            v[:sm.n_global_parameters] = [40., 10., 30., -20.][
                :sm.n_global_parameters]
            sm.from_vector_inplace(v)
            d['moved'] = _arr(sm.target.points)
            # and what of a target that is a similarity of its mean
            t = sm.model.mean()
            c, s_ = 1.2 * np.cos(.3), 1.2 * np.sin(.3)
            t.points = t.points.dot([[c, s_], [-s_, c]]) + [30., -12.]
            d['aim'] = np.array(t.points)
            sm.set_target(t)
            d['hit'] = _arr(sm.target.points)
        except Exception as e:
            d['moved'] = 'raises ' + type(e).__name__
    return d


def appearance_model(am):
    d = {'type': type(am).__name__}
    if hasattr(am, 'components'):
        d.update(linear(am))
    else:
        d.update(gmrf(am))
    return d


def gmrf(g):
    d = {'type': type(g).__name__}
    for n in ('n_samples', 'precision'):
        if hasattr(g, n):
            v = getattr(g, n)
            d[n] = plain(v)
    if hasattr(g, 'mean_vector'):
        d['mean'] = _arr(g.mean_vector)
    elif hasattr(g, 'mean') and callable(g.mean):
        mm = g.mean()
        d['mean'] = _arr(mm.as_vector() if hasattr(mm, 'as_vector') else mm)
    return d


def experts(e):
    d = {'type': type(e).__name__}
    for n in ('n_experts', 'patch_shape', 'frequency_filter_images',
              'spatial_filter_images', 'n_samples'):
        if hasattr(e, n):
            try:
                d[n] = plain(getattr(e, n))
            except Exception as x:
                d[n] = 'raises ' + type(x).__name__
    return d
