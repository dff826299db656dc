"""C03: training never changes the training data."""
import numpy as np

from .. import common, faults, feats, snap, world, zoo
from ..engine import Skip

RUNS = {'quick': 1300, 'thorough': 13000}
RULE = ('a run draws a model or fitter family and its options, hands over '
        'training data (lists or streams, with or without reference shape, '
        'boxes, option lists) and plays training, increments and constructions '
        'of fitters, which fail or are interrupted at random points; after '
        'every operation everything handed over is compared bit by bit with a '
        'copy taken before; non trivial: at least one training or '
        'construction was executed; distinct by event log')
STATES = 'distinct (family, operation, outcome, fault point) tuples'
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)']
STUB = ['images are synthetic', 'faults are raised by a line tracer, by the '
        'callbacks and streams handed to menpofit and by a wrapped solver']
ASSUMES = ['the public state of an image is its pixels, mask, path and '
           'landmarks; of a shape its points, connectivity and labels; of a '
           'model what it generates and reports']
MIN_OPS = 1


def gen_inc(rng):
    d = dict(op='inc', n=rng.choice([2, 3, 5]), seed=rng.randrange(1000),
             batch=rng.choice([None, None, 1, 2]))
    if rng.random() < 0.4:
        d['ff'] = rng.choice([0.5, 0.9])
    return d


def gen(rng, i):
    kind = rng.choice(['model'] * 6 + ['fitter'] * 5 + ['pdm', 'regression',
                                                        'helpers'])
    sc = dict(kind=kind, ops=[])
    if kind == 'model':
        sc['model'] = zoo.gen_model(rng)
        sc['ops'].append(dict(op='train', batch=rng.choice(
            [None, None, None, 2, 3]), ref=rng.choice([False] * 5 + [True] * 3 + ['own'] * 3),
            twice=rng.random() < 0.2))
        if sc['model']['family'] == 'APS':
            if sc['ops'][0]['batch']:
                sc['model']['incremental'] = True
        if sc['model']['family'] == 'Unified':
            sc['ops'][0]['batch'] = None
        for _ in range(rng.choice([0, 1, 1, 2])):
            sc['ops'].append(gen_inc(rng))
        if rng.random() < 0.4:
            sc['ops'].append(dict(op='fitter', alg=rng.randrange(1000),
                                  seed=rng.randrange(2 ** 31)))
    elif kind == 'fitter':
        f = zoo.wchoice(rng, [('SDM', 5), ('Dlib', 2), ('SDAAM', 4),
                              ('LK', 3)])
        sc['fitter'] = zoo.gen_fitter(rng, f)
        if f == 'SDAAM':
            sc['fitter']['model']['world']['boxes'] = rng.choice([0, 1])
        sc['ops'].append(dict(op='train', batch=rng.choice(
            [None, None, None, 20, 3]), ref=rng.choice([False] * 5 + [True] * 2 + ['own'] * 2),
            twice=rng.random() < 0.2))
    elif kind in ('pdm', 'regression'):
        sc['seed'] = rng.randrange(10 ** 6)
        sc['max'] = rng.choice([None, 3])
        sc['cls'] = rng.choice(['PDM', 'OrthoPDM', 'Global']
                               if kind == 'pdm' else
                               ['IRL', 'IIRL', 'PCR', 'OPP', 'Optimal'])
        sc['bias'] = rng.random() < 0.5
        sc['ops'].append(dict(op='train'))
        for _ in range(rng.choice([0, 1, 2])):
            sc['ops'].append(dict(op='inc', n=rng.choice([2, 4]),
                                  seed=rng.randrange(1000)))
    else:
        sc['seed'] = rng.randrange(10 ** 6)
        for _ in range(rng.choice([1, 2, 3])):
            sc['ops'].append(dict(op=rng.choice(
                ['noisy_box', 'noisy_shape', 'align_bb', 'reference',
                 'rescale', 'frames', 'features', 'scale', 'patches',
                 'checks', 'noisy_align', 'warp', 'aligned'])))
    for op in sc['ops']:
        if rng.random() < 0.5:
            if rng.random() < 0.2:
                op['fault'] = dict(kind='stream', n=rng.choice([0, 1, 2, 3]),
                                   exc=rng.choice(['io', 'interrupt']))
            else:
                op['fault'] = faults.gen_fault(rng, ('line', 'line', 'hook',
                                                     'solve'))
        if rng.random() < 0.15:
            op['verbose'] = True
        if op['op'] == 'train' and rng.random() < 0.4:
            op['containers'] = rng.choice(['lists', 'lists', 'numpy',
                                           'wrong'])
    return sc


class Stream(object):
    """Hands out the elements one by one, and may fail."""

    def __init__(self, items, fail_at=None, exc=None):
        self.items, self.fail_at, self.exc = items, fail_at, exc
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_at is not None and self.i == self.fail_at:
            raise self.exc
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[self.i - 1]


def feed(items, op, ctx):
    """The training data as the caller passes them: a list or a stream."""
    f = op.get('fault') or {}
    if f.get('kind') == 'stream':
        ctx.fault('stream fails')
        return Stream(items, f.get('n', 1),
                      faults.EXC[f.get('exc', 'io')]('stream'))
    if op.get('batch'):
        return Stream(items)
    return items


def view(mine):
    return {k: _view(v) for k, v in mine.items()}


def _view(v):
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [_view(x) for x in v]
    if isinstance(v, dict):
        return {k: _view(x) for k, x in v.items()}
    if hasattr(v, 'shape_models') and hasattr(v, 'n_scales'):
        return snap.model(v)
    p = snap.plain(v)
    if hasattr(v, 'landmarks') and hasattr(v, 'pixels'):
        p['path'] = str(getattr(v, 'path', None))
        p['order'] = list(v.landmarks.group_labels)
    return p


def attempt(ctx, lab, op, mine, fn):
    before = view(mine)
    fault = op.get('fault')
    if fault and fault['kind'] == 'stream':
        fault = None
        try:
            out = ('ok', fn())
        except (Exception, KeyboardInterrupt) as e:
            out = ('exc', type(e).__name__, str(e)[:200])
    else:
        out = faults.with_fault(fn, fault, ctx)
    ctx.log(op['op'], out[0], out[1] if out[0] == 'exc' else '')
    ctx.state(lab, op['op'], out[0], out[1] if out[0] == 'exc' else '')
    ctx.count(op['op'])
    after = view(mine)
    # what a model reports is computed from it, hence the tolerance
    d = snap.diff(before.pop('model', None), after.pop('model', None),
                  1e-8, 1e-9, '.model') or snap.exact(before, after)
    if d:
        ctx.violate('training data changed:' + lab.split('/')[0],
                    '%s: %s that %s changed what was passed in: %s' % (
                        lab, op['op'], 'raised ' + out[1]
                        if out[0] == 'exc' else 'returned', d))
    return out[1] if out[0] == 'ok' else None


def reshape_options(kw, how, ns):
    """The same options in other containers of the caller (or ones that are
    not accepted)."""
    if how is None:
        return
    for k in ('patch_shape', 'context_shape'):
        if k in kw:
            p = kw[k]
            one = [list(x) for x in p] if isinstance(p[0], (list, tuple)) \
                else [list(p) for _ in range(ns)]
            if k == 'context_shape':
                one = one[0]
            elif how == 'wrong':
                one = one + [[5, 5]]
            kw[k] = one
    for k in ('max_shape_components', 'max_appearance_components',
              'n_iterations'):
        if k in kw and not isinstance(kw[k], list):
            kw[k] = [kw[k]] * (ns if how != 'wrong' else ns + 1)
        if k in kw and how == 'numpy':
            kw[k] = [x if x is None else np.int64(x) for x in kw[k]]
    if how == 'wrong' and callable(kw.get('holistic_features')):
        kw['holistic_features'] = [kw['holistic_features']] * (ns + 1)


def reference_shape(kind, how=True, items=()):
    if how == 'own':
        # one of the training shapes: nothing needs to be rescaled
        it = items[0]
        return (it.landmarks['PTS'] if hasattr(it, 'pixels')
                else it).copy()
    return world.as_kind(world.base_shape() * 0.7 + 20, kind)


def run_model(sc, ctx):
    m = sc['model']
    lab = m['family'] + '/' + m.get('variant', '')
    obj = None
    torn = False
    atm = m['family'] == 'ATM'
    for op in sc['ops']:
        if op['op'] == 'fitter':
            if obj is None:
                continue
            s = model_fitter(m, op)
            # (a model whose increment failed half way is no longer a PCA,
            # and what it reports depends on when it is made one again)
            mine = {} if torn else {'model': obj}
            data = None
            if s['family'] == 'SDAAM':
                data = zoo.fitter_data(s)
                mine['data'] = data
            kw = zoo.fitter_kwargs(s, obj)
            mine['kw'] = kw

            def mk(s=s, data=data, kw=kw):
                o = zoo.fitter_kwargs
                zoo.fitter_kwargs = lambda *a: kw
                try:
                    return zoo.fitter_from(s, obj, data)
                finally:
                    zoo.fitter_kwargs = o
            attempt(ctx, lab, op, mine, mk)
            continue
        if op['op'] == 'train':
            if atm:
                w = m['world']
                temp = world.image(w['seed'] * 1000, tuple(w['size']),
                                   w['channels'], w['kind'], w['masked'],
                                   extra=w['extra'])
                items = world.shapes(w['seed'], w['n'], w['kind'],
                                     tuple(w['size']))
            else:
                items = world.images(m['world'])
            if op.get('twice'):
                items = items + items[:1]
            kw = zoo.model_kwargs(m)
            if op.get('batch'):
                kw['batch_size'] = op['batch']
            if op.get('ref'):
                kw['reference_shape'] = reference_shape(
                    m['world']['kind'], op['ref'], items)
            if op.get('verbose'):
                kw['verbose'] = True
            reshape_options(kw, op.get('containers'), len(m['scales']))
            mine = {'items': items, 'kw': kw}
            if atm:
                mine['template'] = temp
            f = feed(items, op, ctx)
            pos = (temp, f) if atm else (f,)
            obj = attempt(ctx, lab, op, mine,
                          lambda: zoo.model_cls(m)(*pos, **kw))
            torn = False
        else:
            if obj is None or not hasattr(obj, 'increment'):
                continue
            w = dict(m['world'], seed=m['world']['seed'] + 77 + op['seed'],
                     n=op['n'])
            kw = dict(group='PTS')
            if op.get('batch'):
                kw['batch_size'] = op['batch']
            if op.get('verbose'):
                kw['verbose'] = True
            if op.get('ff') and m['family'] != 'APS':
                kw['shape_forgetting_factor'] = op['ff']
            if atm:
                items = world.shapes(w['seed'], w['n'], w['kind'],
                                     tuple(w['size']))
                mine = {'items': items, 'template': temp}
                pos = (temp, feed(items, op, ctx))
            else:
                items = world.images(w)
                mine = {'items': items}
                pos = (feed(items, op, ctx),)
            mine['kw'] = kw
            if not attempt(ctx, lab, op, mine,
                           lambda: (obj.increment(*pos, **kw), True)[1]):
                torn = True


def model_fitter(m, op):
    """A fitter for a model, with default components."""
    s = dict(model=m, np_seed=op['seed'])
    a = op['alg']
    f = m['family']
    if f == 'AAM':
        if a % 3 == 0 and m['variant'] in ('HolisticAAM', 'MaskedAAM',
                                           'PatchAAM'):
            s.update(family='SDAAM', n_perturbations=2, n_iterations=len(
                m['scales']), alpha=0.1,
                alg=zoo.SDAAM_ALGS[a % len(zoo.SDAAM_ALGS)])
        else:
            s.update(family='LKAAM', alg=zoo.LK_ALGS[a % len(zoo.LK_ALGS)])
            if a % 5 == 0:
                s['sampling'] = 2
    elif f == 'ATM':
        s.update(family='ATM', alg=zoo.ATM_ALGS[a % 2])
        if a % 5 == 0:
            s['sampling'] = 2
    elif f == 'CLM':
        s.update(family='CLM', alg=zoo.CLM_ALGS[a % 2])
    elif f == 'APS':
        s.update(family='APS', alg=zoo.APS_ALGS[a % 2], weight=100.)
    else:
        s.update(family='Unified', alg=zoo.UNI_ALGS[a % 2])
    return s


def run_fitter(sc, ctx):
    s = sc['fitter']
    lab = common.label(s)
    for op in sc['ops']:
        np.random.seed(s['np_seed'] % 2 ** 32)
        model = None
        if 'model' in s:
            try:
                model = zoo.build_model(s['model'])
            except Exception as e:
                raise Skip('untrainable: ' + type(e).__name__)
        items = zoo.fitter_data(s)
        if op.get('twice') and s['family'] != 'LK':
            items = items + items[:1]
        kw = zoo.fitter_kwargs(s, model)
        if s['family'] == 'SDAAM':
            # requested numbers of components are set on the given model
            kw.pop('n_shape', None), kw.pop('n_appearance', None)
            if s['model']['world']['boxes']:
                kw['bounding_box_group_glob'] = 'bb_*'
        if op.get('batch') and s['family'] in ('SDM', 'SDAAM'):
            kw['batch_size'] = op['batch']
        if op.get('ref') and s['family'] in ('SDM', 'Dlib'):
            kw['reference_shape'] = reference_shape(
                s['world']['kind'], op['ref'], items)
            if s['family'] == 'Dlib':
                # (its reference is a bounding box)
                kw['reference_shape'] = kw['reference_shape'].bounding_box()
        if op.get('verbose') and s['family'] != 'LK':
            kw['verbose'] = True
        reshape_options(kw, op.get('containers'), zoo.n_scales_of(s))
        mine = {'items': items, 'kw': kw}
        if model is not None:
            mine['model'] = model
        data = items
        if s['family'] in ('SDM', 'SDAAM'):
            data = feed(items, op, ctx)

        def mk():
            o = zoo.fitter_kwargs
            zoo.fitter_kwargs = lambda *a: kw
            try:
                return zoo.fitter_from(s, model, data)
            finally:
                zoo.fitter_kwargs = o
        attempt(ctx, lab, op, mine, mk)


def run_pdm(sc, ctx):
    from menpofit import modelinstance as M
    from menpo.transform import AlignmentSimilarity
    r = np.random.RandomState(sc['seed'])
    obj = None
    for op in sc['ops']:
        n = op.get('n', 6)
        shapes = world.shapes(r.randint(1000), n)
        mine = {'shapes': shapes}
        if op['op'] == 'train':
            if sc['cls'] == 'Global':
                def fn():
                    return M.GlobalPDM(shapes, AlignmentSimilarity,
                                       max_n_components=sc['max'])
            else:
                def fn():
                    return getattr(M, sc['cls'])(
                        shapes, max_n_components=sc['max'])
            obj = attempt(ctx, 'pdm/' + sc['cls'], op, mine, fn)
        elif obj is not None:
            attempt(ctx, 'pdm/' + sc['cls'], op, mine,
                    lambda: obj.increment(shapes))
            # and following a target must leave the target alone
            t = {'target': shapes[0]}
            attempt(ctx, 'pdm/' + sc['cls'], dict(op='target'), t,
                    lambda: obj.set_target(shapes[0]))


def run_regression(sc, ctx):
    import menpofit.math as X
    r = np.random.RandomState(sc['seed'])
    b = sc['bias']
    mk = {'IRL': lambda: X.IRLRegression(alpha=.1, bias=b,
                                         incrementable=True),
          'IIRL': lambda: X.IIRLRegression(alpha=.1, alpha2=.1),
          'PCR': lambda: X.PCRRegression(variance=.9, bias=b),
          'OPP': lambda: X.OPPRegression(bias=b),
          'Optimal': lambda: X.OptimalLinearRegression(variance=.9,
                                                       bias=b)}[sc['cls']]
    obj = None
    for op in sc['ops']:
        n = 30 if op['op'] == 'train' else op['n']
        A, B = r.randn(n, 6), r.randn(n, 6 if sc['cls'] == 'OPP' else 4)
        mine = {'X': A, 'Y': B}
        lab = 'regression/' + sc['cls']
        if op['op'] == 'train':
            def fn():
                o = mk()
                o.train(A, B)
                return o
            obj = attempt(ctx, lab, op, mine, fn)
        elif obj is not None:
            attempt(ctx, lab, op, mine, lambda: obj.increment(A, B))
            attempt(ctx, lab, dict(op='predict'), mine,
                    lambda: obj.predict(A))


def run_helpers(sc, ctx):
    from functools import partial
    import menpofit.fitter as F
    import menpofit.builder as B
    import menpofit.checks as C
    from menpofit.transform import DifferentiablePiecewiseAffine
    from menpo.transform import Scale
    r = np.random.RandomState(sc['seed'])
    for op in sc['ops']:
        w = dict(seed=r.randint(10 ** 5), n=3, kind='trimesh',
                 channels=int(r.randint(1, 3)))
        ims = world.images(w)
        shapes = [i.landmarks['PTS'] for i in ims]
        bb = shapes[1].bounding_box()
        noise = [[0.1], [0.05, 0.02, 0.01], (0.1,), 0.05,
                 np.array([0.1, 0.2, 0.1])][r.randint(5)]
        rot = bool(r.randint(2))
        typ = ['uniform', 'gaussian'][r.randint(2)]
        ref = reference_shape('trimesh')
        mine = {'ims': ims, 'shapes': shapes, 'bb': bb, 'noise': noise,
                'ref': ref}
        k = op['op']
        scales = [0.5, 1.0]
        one = [3]
        mine['scales'], mine['one'] = scales, one
        fns = {
            'noisy_box': lambda: F.noisy_shape_from_bounding_box(
                shapes[0], bb, noise_type=typ, noise_percentage=noise,
                allow_alignment_rotation=rot),
            'noisy_shape': lambda: F.noisy_shape_from_shape(
                ref, shapes[1], noise_type=typ, noise_percentage=noise,
                allow_alignment_rotation=rot),
            'noisy_align': lambda: F.noisy_alignment_similarity_transform(
                shapes[0], shapes[1], noise_type=typ,
                noise_percentage=noise, allow_alignment_rotation=rot),
            'align_bb': lambda: F.align_shape_with_bounding_box(ref, bb),
            'reference': lambda: B.compute_reference_shape(
                shapes, [None, 20][r.randint(2)]),
            'rescale': lambda: B.rescale_images_to_reference_shape(
                ims, 'PTS', ref),
            'frames': lambda: (B.build_reference_frame(ref),
                               B.build_patch_reference_frame(ref)),
            'features': lambda: B.compute_features(
                ims, feats.feature(['squared', 'down', 'igo'][r.randint(3)])),
            'scale': lambda: B.scale_images(ims, [0.5, 1][r.randint(2)],
                                            return_transforms=True),
            'patches': lambda: B.extract_patches(
                ims, shapes, (5, 5), normalise_function=feats.centre),
            'warp': lambda: B.warp_images(
                ims, shapes, B.build_reference_frame(ref),
                DifferentiablePiecewiseAffine),
            'aligned': lambda: B.align_shapes(shapes),
            'checks': lambda: (C.check_scales(scales),
                               C.check_max_components(one, 2, 'x'),
                               C.check_max_iters(one, 2),
                               C.check_patch_shape((5, 5), 2)),
        }
        attempt(ctx, 'helpers/' + k, op, mine, fns[k])


def run(sc, ctx):
    {'model': run_model, 'fitter': run_fitter, 'pdm': run_pdm,
     'regression': run_regression, 'helpers': run_helpers}[sc['kind']](sc,
                                                                       ctx)


def simplify(sc):
    import json
    out = []
    if 'fitter' in sc:
        out += common.simplify_fitter(sc)
    if 'model' in sc:
        for f in (dict(scales=[1.0], features='no_op', max_shape=3),
                  dict(features='no_op')):
            c = json.loads(json.dumps(sc))
            c['model'].update(f)
            if 'max_app' in c['model']:
                c['model']['max_app'] = 3
            p = c['model'].get('patch_shape')
            if p and isinstance(p[0], list):
                c['model']['patch_shape'] = p[0]
            out.append(c)
    return out
