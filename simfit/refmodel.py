"""A small executable reference of how shape and appearance models learn.

Holistic, masked and patch AAMs and ATMs and CLMs: the reference shape is the
(resized) mean of the first batch or the one given; every batch is rescaled to
it, its features are computed and rescaled per scale; the shape model of every
scale is a PDM of the landmarks and the appearance model a PCA of the warped
images; later batches increment both, with their own forgetting factors, and
trim them to the maximum number of components."""
import numpy as np
from menpo.model import PCAModel
from menpo.shape import mean_pointcloud
from menpo.transform import Scale

from . import feats, snap, zoo


def supported(m):
    if m['family'] in ('AAM', 'ATM'):
        return 'Linear' not in m['variant']
    return m['family'] == 'CLM'


class Ref(object):

    def __init__(self, m, model_cls_defaults=None, reference=None):
        self.m = m
        self.reference = None if reference is None else reference.copy()
        self.kw = zoo.model_kwargs(m)
        self.ns = len(m['scales'])
        self.shape, self.app = [], []
        self.seen = 0

    def _per_scale(self, v):
        return list(v) if isinstance(v, list) else [v] * self.ns

    def learn(self, data, ff=1.0, aff=1.0):
        """data: images (or shapes for an ATM)"""
        from menpofit.modelinstance import OrthoPDM
        m = self.m
        first = self.seen == 0
        self.seen += len(data)
        atm = m['family'] == 'ATM'
        shapes = data if atm else [i.landmarks['PTS'] for i in data]
        if self.reference is None:
            r = mean_pointcloud(shapes)
            if m['diagonal']:
                r = Scale(m['diagonal'] / np.sqrt((r.range() ** 2).sum()),
                          2).apply(r)
            self.reference = r
        max_sc = self._per_scale(m['max_shape'])
        max_ac = self._per_scale(m.get('max_app'))
        names = self._per_scale(m['features'])
        if not atm:
            data = [i.rescale_to_pointcloud(self.reference, group='PTS')
                    for i in data]
        for j, s in enumerate(m['scales']):
            if atm:
                sh = [Scale(s, 2).apply(x) if s != 1 else x for x in shapes]
            else:
                f = feats.feature(names[j])
                ims = [f(i) for i in data]
                if s != 1:
                    ims = [i.rescale(s) for i in ims]
                sh = [i.landmarks['PTS'] for i in ims]
            if first:
                self.shape.append(OrthoPDM(sh, max_n_components=max_sc[j]))
            else:
                self.shape[j].increment(sh, forgetting_factor=ff,
                                        max_n_components=max_sc[j])
            if m['family'] == 'AAM':
                w = self._warp(ims, sh, j, s)
                if first:
                    self.app.append(PCAModel(w))
                else:
                    self.app[j].increment(w, forgetting_factor=aff)
                if max_ac[j] is not None:
                    self.app[j].trim_components(max_ac[j])

    def _warp(self, ims, shapes, j, s):
        from menpofit import builder as B
        from menpofit.transform import (DifferentiablePiecewiseAffine,
                                        DifferentiableThinPlateSplines)
        m = self.m
        patch = self.kw.get('patch_shape')
        if isinstance(patch, list):
            patch = patch[j]
        if m['variant'] == 'PatchAAM':
            return B.extract_patches(
                ims, shapes, patch,
                normalise_function=self.kw['patch_normalisation'])
        r = Scale(s, 2).apply(self.reference)
        tr = DifferentiablePiecewiseAffine
        if m.get('tps') or m['variant'] == 'MaskedAAM':
            tr = DifferentiableThinPlateSplines
        if m['variant'] == 'MaskedAAM':
            frame = B.build_patch_reference_frame(r, patch_shape=patch)
        else:
            frame = B.build_reference_frame(r)
        return B.warp_images(ims, shapes, frame, tr)

    def record(self):
        d = {}
        for j in range(self.ns):
            e = {'shape': snap.shape_model(self.shape[j])}
            if self.app:
                e['app'] = snap.appearance_model(self.app[j])
            d['scale%d' % j] = e
        return d


def of_model(model):
    d = {}
    for j in range(model.n_scales):
        e = {'shape': snap.shape_model(model.shape_models[j])}
        if hasattr(model, 'appearance_models'):
            e['app'] = snap.appearance_model(model.appearance_models[j])
        d['scale%d' % j] = e
    return d
