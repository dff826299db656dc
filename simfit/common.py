"""Pieces that several properties share."""
import numpy as np

from . import faults, snap, world, zoo
from .engine import Skip

UNTRAINABLE = ('LinAlgError', 'Singular')


def build(s, ctx, data=None, strict=False):
    """Build the fitter of a spec, or skip the run: some random
    configurations cannot be trained at all (singular regressions)."""
    try:
        return zoo.build(s, data)
    except Exception as e:
        if strict and not isinstance(e, np.linalg.LinAlgError):
            ctx.violate('cannot be trained:%s:%s' % (
                s['family'], type(e).__name__), '%s: training on ordinary '
                'images raises %s: %s' % (label(s), type(e).__name__,
                                          str(e)[:200]))
        raise Skip('untrainable: %s' % type(e).__name__)


def fit_record(fitter, s, op, imgs=None):
    """One fit on fresh inputs, as a plain record."""
    imgs = zoo.test_images(s) if imgs is None else imgs
    return snap.result(zoo.do_fit(fitter, s, op, imgs))


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200])


def wild(rec):
    """Did this fit diverge? (its numbers are then not comparable)"""
    if rec[0] != 'ok':
        return False
    for sh in rec[1].get('shapes') or []:
        p = sh['points']
        if not np.isfinite(p).all() or np.abs(p).max() > 1500.:
            return True
    return False


def huge(rec):
    """A record of numbers that are about to overflow."""
    for sh in rec.get('shapes') or []:
        with np.errstate(all='ignore'):
            if np.abs(sh['points']).max() > 1e100:
                return True
    return False


def tremble(imgs):
    """The same images with their pixels changed by rounding errors."""
    out = []
    for im, gt in imgs:
        im = im.copy()
        r = np.random.RandomState(3)
        im.pixels = im.pixels * (1. + 1e-12 * r.randn(*im.pixels.shape))
        out.append((im, gt))
    return out


def compare_fits(ref, got, shaky=None, rtol=1e-6, atol=1e-7):
    """None if the outcomes agree (or nothing can be said), else a text.

    ref, got: outcomes. shaky: a function that gives the outcome of the
    reference after rounding level changes of the pixels; it is consulted
    before a difference is reported, because the optimisation of a diverging
    fit amplifies rounding errors without bound."""
    if ref[0] == 'died' or got[0] == 'died':
        return None
    if ref[0] != got[0]:
        d = 'alone: %s, here: %s' % (_brief(ref), _brief(got))
    elif ref[0] == 'exc':
        if ref[1] == got[1]:
            return None
        d = 'alone: %s, here: %s' % (_brief(ref), _brief(got))
    else:
        d = snap.diff(ref[1], got[1], rtol, atol)
        if d is None:
            return None
    if shaky is not None:
        with faults.Conditions() as c:
            sh = shaky()
        if sh[0] != ref[0] or c.worst > 1e13:
            # (also: singular up to rounding errors)
            return None
        if ref[0] == 'ok' and snap.diff(ref[1], sh[1], rtol * .1, atol * .1):
            return None
    return d


def _brief(o):
    if o[0] == 'exc':
        return 'raises %s (%s)' % (o[1], o[2][:80])
    return 'returns'


def label(s):
    """A short name for the configuration of a fitter."""
    m = s.get('model', {})
    return '/'.join(str(x) for x in (s['family'], m.get('variant', ''),
                                     s.get('alg', ''), s.get('residual', ''))
                    if x)


def simplify_fitter(sc):
    """Simpler fitters with the same algorithm."""
    def edit(f):
        import json
        c = json.loads(json.dumps(sc))
        for s in ([c['fitter']] if 'fitter' in c else []) + \
                c.get('fitters', []):
            f(s)
        return c

    def scales1(s):
        t = s.get('model', s)
        t['scales'] = [1.0]
        for k in ('features', 'max_shape', 'max_app', 'patch_shape'):
            v = t.get(k)
            if isinstance(v, list) and v and k in ('features', 'max_shape',
                                                   'max_app'):
                t[k] = v[0]
            if k == 'patch_shape' and isinstance(v, list) and \
                    isinstance(v[0], list):
                t[k] = v[0]
        if isinstance(s.get('n_iterations'), list):
            s['n_iterations'] = 2

    def plain_features(s):
        s.get('model', s)['features'] = 'no_op'

    def plain_world(s):
        w = s['model']['world'] if 'model' in s else s['world']
        w.update(kind='pc', masked=False, extra=False, channels=1)

    def less(s):
        for k in ('n_shape', 'n_appearance', 'sampling'):
            s.pop(k, None)
        s.get('model', {}).pop('tps', None)
    return [edit(scales1), edit(plain_features), edit(plain_world),
            edit(less)]


def scribble(res, rng_like=0):
    """Edit everything a result hands out, as careless callers do."""
    for f in ('shapes', 'shape_parameters', 'appearance_parameters',
              'homogeneous_parameters', 'costs'):
        v = getattr(res, f, None)
        if v is None or callable(v):
            continue
        _spoil(v)
    for f in ('final_shape', 'initial_shape'):
        v = getattr(res, f, None)
        if v is not None:
            _spoil([v])
    im = getattr(res, 'image', None)
    if im is not None:
        try:
            im.pixels[...] = 0.123
        except Exception:
            pass


def _spoil(v):
    for x in list(v):
        try:
            if isinstance(x, np.ndarray):
                x[...] = 1.5
            elif hasattr(x, 'points'):
                x.points[...] += 11.
            elif isinstance(x, (list, tuple)):
                _spoil(x)
        except Exception:
            pass
    if isinstance(v, list):
        del v[:]
