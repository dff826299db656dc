"""Synthetic images and shapes: pure functions of small specs.

The generators use private ``RandomState`` objects so that they never touch
the global random state that the code under test draws from.
"""
import numpy as np
from menpo.image import Image, MaskedImage
from menpo.shape import (PointCloud, TriMesh, PointUndirectedGraph,
                         LabelledPointUndirectedGraph)

N_POINTS = 11
DIAGONAL = 22


def base_shape():
    t = np.linspace(0, 2 * np.pi, 8, endpoint=False)
    return np.vstack([np.c_[np.sin(t) * 16, np.cos(t) * 13],
                      [[-3, -5], [-3, 5], [6, 0]]])


def _adjacency():
    a = np.zeros((N_POINTS, N_POINTS), dtype=int)
    for i in range(N_POINTS - 1):
        a[i, i + 1] = a[i + 1, i] = 1
    return a


def as_kind(points, kind):
    if kind == 'pc':
        return PointCloud(points)
    if kind == 'graph':
        return PointUndirectedGraph(points, _adjacency())
    if kind == 'labelled':
        from collections import OrderedDict
        m = np.zeros(N_POINTS, dtype=bool)
        m[:8] = True
        return LabelledPointUndirectedGraph(
            points, _adjacency(), OrderedDict([('outer', m), ('inner', ~m)]))
    if kind == 'trimesh':
        return TriMesh(points)
    raise ValueError(kind)


def points(seed, size=(52, 52), jitter=1.0):
    r = np.random.RandomState(seed % (2 ** 32))
    A = np.eye(2) + 0.06 * jitter * r.randn(2, 2)
    p = base_shape().dot(A)
    return (p + 0.6 * jitter * r.randn(*p.shape) +
            np.array([size[0] / 2., size[1] / 2.]) + r.uniform(-3, 3, 2))


def image(seed, size=(52, 52), channels=1, kind='pc', masked=False,
          landmarks=True, boxes=0, extra=False):
    r = np.random.RandomState((seed * 7919 + 13) % (2 ** 32))
    pts = points(seed, size)
    yy, xx = np.mgrid[:size[0], :size[1]]
    chans = []
    for c in range(channels):
        im = (0.3 + 0.1 * np.sin(xx / 7. + r.rand()) +
              0.1 * np.cos(yy / 9. + r.rand()))
        for k, p in enumerate(pts):
            im = im + (0.5 if (k + c) % 2 else -0.3) * np.exp(
                -((yy - p[0]) ** 2 + (xx - p[1]) ** 2) /
                (2 * (2.0 + .3 * k) ** 2))
        im = im + 0.02 * r.rand(*size)
        chans.append((im - im.min()) / (im.max() - im.min()))
    px = np.array(chans)
    if masked:
        m = np.ones(size, dtype=bool)
        m[:2] = False
        I = MaskedImage(px, mask=m)
    else:
        I = Image(px)
    if landmarks:
        I.landmarks['PTS'] = as_kind(pts, kind)
    if extra:
        I.landmarks['other'] = PointCloud(pts[::-1] * 0.5 + 7)
    for b in range(boxes):
        bb = PointCloud(pts).bounding_box()
        bb.points[...] += r.uniform(-1.5, 1.5, 2)
        I.landmarks['bb_%d' % b] = bb
    return I


def images(spec):
    """spec: seed, n, size, channels, kind, masked, boxes, extra"""
    return [image(spec['seed'] * 1000 + i, tuple(spec.get('size', (52, 52))),
                  spec.get('channels', 1), spec.get('kind', 'pc'),
                  spec.get('masked', False), True, spec.get('boxes', 0),
                  spec.get('extra', False))
            for i in range(spec['n'])]


def shapes(seed, n, kind='pc', size=(52, 52)):
    return [as_kind(points(seed * 1000 + i, size), kind) for i in range(n)]


def initial(spec, gt_points):
    """Initial shape or box near (or far from) the ground truth points.

    spec: dy, dx (pixels), s (scale), kind in {'shape', 'bb', 'mean'}
    """
    c = gt_points.mean(0)
    if spec['kind'] == 'mean':
        p = base_shape() + c
    else:
        p = gt_points
    p = (p - c) * spec.get('s', 1.0) + c + np.array([spec.get('dy', 0.),
                                                     spec.get('dx', 0.)])
    pc = PointCloud(p)
    return pc.bounding_box() if spec['kind'] == 'bb' else pc
