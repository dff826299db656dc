"""Every model and fitter family as a pure function of a JSON spec."""
import numpy as np
from functools import partial

from . import feats, world

AAMS = ['HolisticAAM', 'MaskedAAM', 'LinearAAM', 'LinearMaskedAAM', 'PatchAAM']
ATMS = ['HolisticATM', 'MaskedATM', 'LinearATM', 'LinearMaskedATM', 'PatchATM']
LK_ALGS = ['ProjectOutForwardCompositional', 'ProjectOutInverseCompositional',
           'SimultaneousForwardCompositional',
           'SimultaneousInverseCompositional',
           'AlternatingForwardCompositional',
           'AlternatingInverseCompositional',
           'ModifiedAlternatingForwardCompositional',
           'ModifiedAlternatingInverseCompositional',
           'WibergForwardCompositional', 'WibergInverseCompositional']
SDAAM_ALGS = ['MeanTemplateNewton', 'MeanTemplateGaussNewton',
              'ProjectOutNewton', 'ProjectOutGaussNewton',
              'AppearanceWeightsNewton', 'AppearanceWeightsGaussNewton']
ATM_ALGS = ['ForwardCompositional', 'InverseCompositional']
CLM_ALGS = ['ActiveShapeModel', 'RegularisedLandmarkMeanShift']
APS_ALGS = ['Inverse', 'Forward']
IC_ALGS = ['ForwardAdditive', 'ForwardCompositional', 'InverseCompositional']
RESIDUALS = ['SSD', 'FourierSSD', 'ECC', 'GradientImages',
             'GradientCorrelation']
UNI_ALGS = ['ProjectOutRegularisedLandmarkMeanShift',
            'AlternatingRegularisedLandmarkMeanShift']
SDM_ALGS = ['NonParametricNewton', 'NonParametricGaussNewton',
            'NonParametricPCRRegression', 'NonParametricOptimalRegression',
            'NonParametricOPPRegression',
            'ParametricShapeNewton', 'ParametricShapeGaussNewton',
            'ParametricShapeOptimalRegression',
            'ParametricShapePCRRegression', 'ParametricShapeOPPRegression',
            'ParametricAppearanceProjectOutNewton',
            'ParametricAppearanceProjectOutGuassNewton',
            'ParametricAppearanceMeanTemplateNewton',
            'ParametricAppearanceMeanTemplateGuassNewton',
            'ParametricAppearanceWeightsNewton',
            'ParametricAppearanceWeightsGuassNewton',
            'FullyParametricWeightsNewton', 'FullyParametricMeanTemplateNewton',
            'FullyParametricProjectOutNewton',
            'FullyParametricProjectOutGaussNewton',
            'FullyParametricProjectOutOPP']

# family -> weight when a run draws its fitter
FITTER_FAMILIES = [('LKAAM', 8), ('SDAAM', 2), ('ATM', 4), ('CLM', 3),
                   ('APS', 3), ('LK', 3), ('SDM', 4), ('Unified', 2),
                   ('Dlib', 1)]
MODEL_FAMILIES = [('AAM', 5), ('ATM', 4), ('CLM', 2), ('APS', 2),
                  ('Unified', 1)]


def wchoice(rng, table):
    t = rng.random() * sum(w for _, w in table)
    for v, w in table:
        t -= w
        if t < 0:
            return v
    return table[-1][0]


# ------------------------------------------------------------------ specs

def gen_world(rng, n=None, channels=None, boxes=0):
    return dict(seed=rng.randrange(10 ** 6), n=n or rng.choice([5, 6, 7]),
                size=rng.choice([[52, 52], [56, 50], [50, 58]]),
                channels=channels or rng.choice([1, 1, 1, 2]),
                kind=rng.choice(['pc', 'pc', 'graph', 'labelled', 'trimesh']),
                masked=rng.random() < 0.15, boxes=boxes,
                extra=rng.random() < 0.3)


def gen_scales(rng):
    return rng.choice([[0.5, 1.0], [0.5, 1.0], [1.0], [0.75],
                       [0.5, 0.75, 1.0], [0.6, 0.8, 1.0]])


def gen_cascade(rng, n_scales):
    """At least one regression per scale."""
    return rng.choice([n_scales, 2 * n_scales, 3 * n_scales,
                       [rng.choice([1, 2, 3, 4]) for _ in range(n_scales)]])


def gen_features(rng, n_scales, resize=True):
    """A name or one name per scale."""
    pool = ['no_op', 'no_op', 'squared', 'two', 'igo', 'centre']
    if resize:
        pool = pool + ['down']
    if rng.random() < 0.6:
        return rng.choice(pool)
    a = rng.choice(pool)
    b = rng.choice([p for p in pool if p != a])
    if n_scales == 1:
        return [a]
    if n_scales == 2:
        return [a, b]
    return rng.choice([[a, b, b], [a, a, b], [a, b, a], [a, a, a]])


def gen_model(rng, family=None, variant=None, components=True):
    """Spec of a trainable model."""
    family = family or wchoice(rng, MODEL_FAMILIES)
    scales = gen_scales(rng)
    ns = len(scales)
    m = dict(family=family, scales=scales,
             diagonal=rng.choice([world.DIAGONAL] * 4 + [None]),
             features=gen_features(rng, ns),
             max_shape=rng.choice([3, 3, 4, None, [3] * ns]))
    if family in ('AAM', 'ATM'):
        m['variant'] = variant or rng.choice(AAMS if family == 'AAM' else ATMS)
        if 'Masked' in m['variant'] or 'Patch' in m['variant']:
            m['patch_shape'] = rng.choice([[5, 5], [7, 5], [[5, 5]] * ns])
        if 'Patch' in m['variant']:
            m['patch_norm'] = rng.choice(['no_op', 'no_op', 'centre'])
        if m['variant'] in ('HolisticAAM', 'HolisticATM') \
                and rng.random() < 0.25:
            m['tps'] = True
    if family in ('AAM', 'Unified'):
        # the noise variance that the algorithms divide by has to exist
        m['max_app'] = rng.choice([3, 4, [3] * ns] + (
            [None] if family == 'AAM' else []))
        if family == 'Unified':
            m['max_app'] = m['max_shape'] = 3
    if family in ('CLM', 'Unified'):
        m['patch_shape'] = rng.choice([[7, 7], [9, 7]])
        m['context_shape'] = rng.choice([[14, 14], [16, 14]])
    if family == 'APS':
        m['patch_shape'] = [5, 5]
        m['appearance_graph'] = rng.choice(['chain', 'empty', 'star'])
        m['deformation_graph'] = rng.choice([None, 'tree'])
        m['shape_graph'] = rng.choice([None, None, 'chain'])
        m['procrustes'] = rng.random() < 0.6
        m['n_app'] = rng.choice([None, 5])
        m['incremental'] = rng.random() < 0.5
        m['max_shape'] = rng.choice([3, None])
    m['world'] = gen_world(rng, n=6 if family == 'Unified' else None)
    rare_model(rng, m, ns)
    return m


def rare_model(rng, m, ns):
    """Options that are rarely used."""
    if rng.random() < 0.12 and m['family'] != 'APS' and \
            m.get('variant') in (None, 'HolisticATM') + tuple(AAMS):
        m['pdm'] = rng.choice(['list', 'partial', 'tuple'])
    if m['family'] == 'CLM':
        if rng.random() < 0.35:
            m['patch_shape'] = rng.choice(
                [[5, 5], [6, 6], [5, 8]] + ([[[5, 5]] + [[7, 9]] * (ns - 1)]
                                            if ns > 1 else []))
        if rng.random() < 0.3:
            m['context_shape'] = rng.choice(
                [[11, 11], [9, 12]] + ([[[11, 11]] + [[14, 12]] * (ns - 1)]
                                       if ns > 1 else []))
        if rng.random() < 0.2:
            m['cosine'] = False
        if rng.random() < 0.15:
            m['offsets'] = [[0, 0], [1, 0]]
        if rng.random() < 0.2:
            m['patch_norm'] = 'centre'
        if rng.random() < 0.15:
            m['ensemble'] = rng.choice(['list', 'mosse', 'wide'])
    if m['family'] in ('AAM', 'ATM') and 'Masked' in m.get('variant', '') \
            and ns > 1 and rng.random() < 0.2:
        m['patch_shape'] = [[5, 5]] + [[7, 5]] * (ns - 1)


EPS = {'LKAAM': [1e-2, 0.3], 'ATM': [1e-2, 0.3], 'CLM': [1e-2, 0.3],
       'APS': [1e-2, 0.3], 'Unified': [1e-2], 'LK': [1e-4, 0.1]}


def rare_fitter(rng, s):
    f = s['family']
    ns = n_scales_of(s)
    if f in EPS and rng.random() < 0.2:
        s['opt'] = dict(eps=rng.choice(EPS[f]))
    if f == 'CLM' and rng.random() < 0.25:
        s.setdefault('opt', {})[
            'gaussian_covariance' if s['alg'] == 'ActiveShapeModel' else
            'kernel_covariance'] = rng.choice([3, 25.])
    if f in ('LKAAM', 'ATM', 'CLM') and 'n_shape' not in s and \
            rng.random() < 0.12:
        s['model']['max_shape'] = 0.97
    if 'n_shape' in s and rng.random() < 0.4:
        s['n_shape'] = rng.choice([0.5 if f != 'APS' else 2, [2] * ns, [2]])
    if 'n_appearance' in s and rng.random() < 0.4:
        s['n_appearance'] = rng.choice([0.5, [3] * ns, [2]])
    if f == 'APS' and rng.random() < 0.2:
        s['weight'] = [200.] * ns
    if f == 'LK' and rng.random() < 0.25:
        s['transform'] = 'DifferentiableAlignmentSimilarity'
    if f == 'SDM':
        if ns > 1 and rng.random() < 0.2:
            s['patch_shape'] = [[5, 5]] + [[3, 5]] * (ns - 1)
        if ns > 1 and rng.random() < 0.2:
            s['patch_features'] = ['no_op'] + ['psq'] * (ns - 1)
        if ns > 1 and rng.random() < 0.15:
            s['algs'] = [s['alg']] * ns
    if f == 'Dlib' and rng.random() < 0.3:
        s['dlib'] = rng.choice([dict(n_dlib_perturbations=2),
                                dict(n_split_tests=8),
                                dict(n_trees=[4] * ns),
                                dict(n_tree_levels=3)])


def gen_fitter(rng, family=None, alg=None):
    """Spec of a fitter (with everything it is built from)."""
    family = family or wchoice(rng, FITTER_FAMILIES)
    s = dict(family=family, np_seed=rng.randrange(2 ** 31))
    if family in ('LKAAM', 'SDAAM'):
        # the cascaded AAM fitter does not support the linear variants
        variant = None if family == 'LKAAM' else rng.choice(
            ['HolisticAAM', 'MaskedAAM', 'PatchAAM'])
        s['model'] = gen_model(rng, 'AAM', variant)
        s['alg'] = alg or rng.choice(LK_ALGS if family == 'LKAAM'
                                     else SDAAM_ALGS)
        if rng.random() < 0.3:
            s['n_shape'] = rng.choice([2, 3])
        if rng.random() < 0.3:
            s['n_appearance'] = rng.choice([2, 3])
        if rng.random() < 0.2:
            s['sampling'] = rng.choice([2, 3])
        if family == 'SDAAM':
            s.update(n_iterations=gen_cascade(
                rng, len(s['model']['scales'])),
                     n_perturbations=rng.choice([2, 3]))
            s.pop('sampling', None)
    elif family == 'ATM':
        s['model'] = gen_model(rng, 'ATM')
        s['alg'] = alg or rng.choice(ATM_ALGS)
        if rng.random() < 0.3:
            s['n_shape'] = rng.choice([2, 3])
        if rng.random() < 0.2:
            s['sampling'] = rng.choice([2, 3])
    elif family == 'CLM':
        s['model'] = gen_model(rng, 'CLM')
        s['alg'] = alg or rng.choice(CLM_ALGS)
        if rng.random() < 0.3:
            s['n_shape'] = rng.choice([2, 3])
    elif family == 'APS':
        s['model'] = gen_model(rng, 'APS')
        s['alg'] = alg or rng.choice(APS_ALGS)
        s['weight'] = rng.choice([200., 10.])
        if rng.random() < 0.3:
            s['n_shape'] = 2
    elif family == 'Unified':
        s['model'] = gen_model(rng, 'Unified')
        s['alg'] = alg or rng.choice(UNI_ALGS)
    elif family == 'LK':
        ns_scales = gen_scales(rng)
        s.update(alg=alg or rng.choice(IC_ALGS), residual=rng.choice(RESIDUALS),
                 scales=ns_scales, world=gen_world(rng, n=2),
                 features=gen_features(rng, len(ns_scales)),
                 diagonal=rng.choice([None, world.DIAGONAL]))
        if s['residual'] == 'FourierSSD':
            # defined for one size of template
            s['features'] = rng.choice(['no_op', 'squared'])
    elif family == 'SDM':
        sc = gen_scales(rng)
        boxes = rng.choice([0, 0, 0, 1, 2])
        s.update(alg=alg or rng.choice(SDM_ALGS), scales=sc,
                 world=gen_world(rng, channels=1, boxes=boxes),
                 features=gen_features(rng, len(sc)),
                 patch_features=rng.choice(['no_op', 'psq']),
                 patch_shape=[5, 5], n_iterations=gen_cascade(rng, len(sc)),
                 n_perturbations=rng.choice([2, 3]),
                 diagonal=rng.choice([world.DIAGONAL] * 4 + [None]))
    elif family == 'Dlib':
        sc = gen_scales(rng)
        s.update(scales=sc, world=gen_world(rng, channels=1,
                                            boxes=rng.choice([0, 0, 1])),
                 n_perturbations=rng.choice([2, 3]),
                 n_iterations=gen_cascade(rng, len(sc)),
                 diagonal=rng.choice([None, world.DIAGONAL]))
        s['world']['masked'] = False
    else:
        raise ValueError(family)
    if family in ('SDM', 'Dlib', 'SDAAM'):
        s['perturb'] = rng.choice(['default', 'default', 'hook', 'gaussian',
                                   'rotation', 'list'])
    if family in ('SDM', 'SDAAM'):
        s['alpha'] = rng.choice([0.01, 0.1, 1.])
    rare_fitter(rng, s)
    return s


# ----------------------------------------------------------------- builders

def _graph(name):
    from menpo.shape import UndirectedGraph, Tree, star_graph, empty_graph
    n = world.N_POINTS
    if name is None:
        return None
    if name == 'chain':
        return UndirectedGraph.init_from_edges(
            np.array([[i, i + 1] for i in range(n - 1)]), n)
    if name == 'star':
        return UndirectedGraph.init_from_edges(
            np.array([[0, i] for i in range(1, n)]), n)
    if name == 'empty':
        return UndirectedGraph(np.zeros((n, n), dtype=int))
    if name == 'tree':
        return Tree.init_from_edges(
            np.array([[i // 2, i] for i in range(1, n)]), n, 0)
    raise ValueError(name)


def _tup(p):
    if isinstance(p[0], (list, tuple)):
        return [tuple(x) for x in p]
    return tuple(p)


def _own(v):
    """A container that belongs to one call."""
    return list(v) if isinstance(v, list) else v


def model_kwargs(m):
    """Keyword arguments of the model constructor (fresh containers)."""
    k = dict(group='PTS', diagonal=m['diagonal'], scales=list(m['scales']),
             holistic_features=feats.feature(m['features']))
    k['max_shape_components'] = _own(m['max_shape'])
    if 'max_app' in m:
        k['max_appearance_components'] = _own(m['max_app'])
    if 'patch_shape' in m:
        k['patch_shape'] = _tup(m['patch_shape'])
    if 'patch_norm' in m:
        k['patch_normalisation'] = feats.feature(m['patch_norm'])
    if 'context_shape' in m:
        k['context_shape'] = _tup(m['context_shape'])
    if m['family'] == 'APS':
        k.update(appearance_graph=_graph(m['appearance_graph']),
                 deformation_graph=_graph(m['deformation_graph']),
                 shape_graph=_graph(m['shape_graph']),
                 use_procrustes=m['procrustes'],
                 n_appearance_components=_own(m['n_app']),
                 can_be_incremented=m['incremental'])
    if 'cosine' in m:
        k['cosine_mask'] = m['cosine']
    if 'offsets' in m:
        k['sample_offsets'] = np.array(m['offsets'])
    if 'ensemble' in m:
        k['expert_ensemble_cls'] = ensemble_cls(m)
    if 'pdm' in m:
        from menpofit.modelinstance import OrthoPDM
        k['shape_model_cls'] = {
            'list': [OrthoPDM] * len(m['scales']),
            'tuple': (OrthoPDM,), 'partial': partial(OrthoPDM)}[m['pdm']]
    if m.get('tps'):
        from menpofit.transform import DifferentiableThinPlateSplines
        k['transform'] = DifferentiableThinPlateSplines
    return k


def ensemble_cls(m):
    from menpofit.clm import CorrelationFilterExpertEnsemble as E
    from menpofit.clm.expert.base import \
        IncrementalCorrelationFilterThinWrapper as W
    from menpofit.math.correlationfilter import mosse, imosse
    if m['ensemble'] == 'list':
        return [E] * len(m['scales'])
    if m['ensemble'] == 'mosse':
        return partial(E, icf_cls=partial(W, cf_callable=mosse,
                                          icf_callable=imosse))
    return partial(E, response_covariance=6)


def model_cls(m):
    import menpofit.aam as A
    import menpofit.atm as T
    if m['family'] == 'AAM':
        return getattr(A, m['variant'])
    if m['family'] == 'ATM':
        return getattr(T, m['variant'])
    if m['family'] == 'CLM':
        from menpofit.clm import CLM
        return CLM
    if m['family'] == 'APS':
        from menpofit.aps import GenerativeAPS
        return GenerativeAPS
    if m['family'] == 'Unified':
        from menpofit.unified_aam_clm import UnifiedAAMCLM
        return UnifiedAAMCLM
    raise ValueError(m)


def model_data(m):
    """Positional training data of a model: (images,) or (template, shapes)."""
    ims = world.images(m['world'])
    if m['family'] == 'ATM':
        w = m['world']
        return ims[0], world.shapes(w['seed'], w['n'], w['kind'],
                                    tuple(w['size']))
    return (ims,)


def build_model(m, data=None, **over):
    k = model_kwargs(m)
    k.update(over)
    data = model_data(m) if data is None else data
    return model_cls(m)(*data, **k)


def sampling_of(s, model):
    """A boolean-ish index sampling per scale, or None."""
    step = s.get('sampling')
    if not step:
        return None
    # sub sample the true pixels of the template of every scale
    out = []
    if s['family'] == 'ATM':
        temps = model.warped_templates
    else:
        temps = [am.mean() for am in model.appearance_models]
    v = s['model']['variant']
    for t in temps:
        if 'Patch' in v:
            return None
        n = t.n_true_pixels()
        out.append(np.arange(0, n, step))
    return out


def build(s, data=None, **over):
    """Returns (model or None, fitter)."""
    np.random.seed(s['np_seed'] % (2 ** 32))
    f = s['family']
    model = None
    if 'model' in s:
        model = build_model(s['model'])
    return model, fitter_from(s, model, data, **over)


def fitter_data(s):
    """Training images of the fitter itself."""
    if s['family'] == 'SDAAM':
        return world.images(s['model']['world'])
    return world.images(s['world'])


def perturbation(name):
    from menpofit.fitter import noisy_shape_from_bounding_box as noisy
    if name in (None, 'default'):
        return None
    if name == 'hook':
        return feats.perturb
    if name == 'gaussian':
        return partial(noisy, noise_type='gaussian', noise_percentage=0.02)
    if name == 'rotation':
        return partial(noisy, allow_alignment_rotation=True,
                       noise_percentage=[0.05])
    if name == 'list':
        return partial(noisy, noise_percentage=[0.03, 0.01, 0.02])
    raise ValueError(name)


def fitter_kwargs(s, model=None):
    k = {}
    f = s['family']
    for n in ('n_shape', 'n_appearance'):
        if n in s:
            k[n] = _own(s[n])
    if s.get('sampling'):
        k['sampling'] = sampling_of(s, model)
    if f == 'APS':
        k['weight'] = _own(s['weight'])
    if f in ('SDM', 'Dlib', 'SDAAM'):
        k.update(group='PTS', n_perturbations=s['n_perturbations'],
                 n_iterations=_own(s['n_iterations']))
        p = perturbation(s.get('perturb'))
        if p is not None:
            k['perturb_from_gt_bounding_box'] = p
    if f in ('SDM', 'Dlib'):
        k.update(scales=list(s['scales']), diagonal=s['diagonal'])
        if s['world']['boxes']:
            k['bounding_box_group_glob'] = 'bb_*'
    if f == 'SDM':
        k.update(holistic_features=feats.feature(s['features']),
                 patch_features=feats.feature(s['patch_features']),
                 patch_shape=_tup(s['patch_shape']))
    if f == 'Dlib':
        k.update(n_trees=5, n_pixel_pairs=20, n_split_tests=5,
                 n_tree_levels=2)
        k.update({n: _own(v) for n, v in (s.get('dlib') or {}).items()})
    if f == 'LK':
        k.update(group='PTS', scales=list(s['scales']),
                 diagonal=s['diagonal'],
                 holistic_features=feats.feature(s['features']))
        if s.get('transform'):
            import menpofit.transform as T
            k['transform'] = getattr(T, s['transform'])
    return k


def plain_cls(module, s):
    """The algorithm of a spec, with its options if there are any."""
    c = getattr(module, s['alg'])
    return partial(c, **s['opt']) if s.get('opt') else c


def alg_cls(module, s, name=None):
    """The cascaded algorithm of a spec, regularised if it can be."""
    import inspect
    c = getattr(module, name or s['alg'])
    names = inspect.signature(c.__init__).parameters
    k = {}
    if s.get('alpha') and 'alpha' in names:
        k['alpha'] = s['alpha']
        if 'alpha2' in names:
            k['alpha2'] = s['alpha']
    return partial(c, **k) if k else c


def fitter_from(s, model, data=None, **over):
    f = s['family']
    k = fitter_kwargs(s, model)
    k.update(over)
    if f == 'LKAAM':
        import menpofit.aam as A
        return A.LucasKanadeAAMFitter(
            model, lk_algorithm_cls=plain_cls(A, s), **k)
    if f == 'SDAAM':
        import menpofit.aam as A
        return A.SupervisedDescentAAMFitter(
            fitter_data(s) if data is None else data, model,
            sd_algorithm_cls=alg_cls(A, s), **k)
    if f == 'ATM':
        import menpofit.atm as T
        return T.LucasKanadeATMFitter(
            model, lk_algorithm_cls=plain_cls(T, s), **k)
    if f == 'CLM':
        import menpofit.clm as C
        return C.GradientDescentCLMFitter(
            model, gd_algorithm_cls=plain_cls(C, s), **k)
    if f == 'APS':
        import menpofit.aps as P
        return P.GaussNewtonAPSFitter(
            model, gn_algorithm_cls=plain_cls(P, s), **k)
    if f == 'Unified':
        import menpofit.unified_aam_clm as U
        return U.UnifiedAAMCLMFitter(
            model, algorithm_cls=plain_cls(U, s), **k)
    if f == 'LK':
        import menpofit.lk as L
        return L.LucasKanadeFitter(
            (fitter_data(s) if data is None else data)[0],
            algorithm_cls=plain_cls(L, s),
            residual_cls=getattr(L, s['residual']), **k)
    if f == 'SDM':
        import menpofit.sdm as S
        return S.SupervisedDescentFitter(
            fitter_data(s) if data is None else data,
            sd_algorithm_cls=[alg_cls(S, s, a) for a in s['algs']]
            if s.get('algs') else alg_cls(S, s), **k)
    if f == 'Dlib':
        import menpofit.dlib as D
        return D.DlibERT(fitter_data(s) if data is None else data, **k)
    raise ValueError(f)


# --------------------------------------------------------------------- fits

def world_of(s):
    return s['model']['world'] if 'model' in s else s['world']


def n_scales_of(s):
    return len(s['model']['scales'] if 'model' in s else s['scales'])


def gen_fit(rng, s, n_images=3, easy=False):
    """Spec of one fit call."""
    ns = n_scales_of(s)
    op = dict(op='fit', im=rng.randrange(n_images),
              init=dict(kind=rng.choice(['shape', 'shape', 'mean', 'bb']),
                        dy=round(rng.uniform(-3, 3), 2),
                        dx=round(rng.uniform(-3, 3), 2),
                        s=round(rng.uniform(0.9, 1.1), 2)),
              gt=rng.random() < 0.5)
    if not easy and rng.random() < 0.12:
        # starts (partly) outside of the image
        op['init'][rng.choice(['dy', 'dx'])] = rng.choice([-1, 1]) * \
            round(rng.uniform(10, 28), 2)
    if s['family'] == 'Dlib':
        return op
    op['max_iters'] = rng.choice([None, 1, 2, 3, 5, 8,
                                  [rng.choice([1, 2, 3, 4]) for _ in range(ns)]])
    op['costs'] = rng.random() < 0.5
    if s['family'] in ('LKAAM', 'ATM', 'CLM') and rng.random() < 0.4:
        op['extra'] = dict(map_inference=True)
    if s['family'] == 'Unified' and rng.random() < 0.5:
        op['extra'] = dict(prior=True)
        if rng.random() < 0.5:
            op['extra']['a'] = 0.3
    return op


def test_images(s, n=3):
    """Images to fit: [(image, gt shape)]; images carry no landmarks of their
    own except for every second one."""
    w = world_of(s)
    out = []
    for i in range(n):
        size = tuple(w['size']) if i % 3 != 2 else (60, 54)
        seed = w['seed'] * 1000 + 500 + i
        im = world.image(seed, size, w['channels'], 'pc',
                         masked=(i % 3 == 1 and w['masked']),
                         landmarks=(i % 2 == 0), extra=(i % 2 == 0))
        out.append((im, world.as_kind(world.points(seed, size), 'pc')))
    return out


def fit_args(s, op, imgs):
    im, gt = imgs[op['im'] % len(imgs)]
    init = world.initial(op['init'], gt.points)
    kw = {}
    if op.get('gt'):
        kw['gt_shape'] = gt.copy()
    if s['family'] != 'Dlib':
        if op.get('max_iters') is not None:
            mi = op['max_iters']
            kw['max_iters'] = list(mi) if isinstance(mi, list) else mi
        if op.get('costs'):
            kw['return_costs'] = True
        kw.update(op.get('extra') or {})
    return im, init, kw


def version(px, v):
    """The pixels of an image after the v-th edit of its owner."""
    if not v:
        return px.copy()
    if v == 1:
        return 0.6 * px + 0.4 * np.roll(px, 5, axis=-1)
    return 1. - px


class Live(object):
    """The objects of a caller that uses the same image, shape and list
    objects for all its calls, and edits them in place in between."""

    def __init__(self, s):
        self.s = s
        self.pristine = test_images(s)
        self.objects = [(im.copy(), gt.copy()) for im, gt in self.pristine]
        self.points = {}
        self.lists = {}

    def _shape(self, role, pc):
        # (a box is a kind of its own)
        k = (role, type(pc), pc.n_points)
        if k in self.points:
            self.points[k].points[...] = pc.points
        else:
            self.points[k] = pc
        return self.points[k]

    def args(self, op, fresh=False, start=None):
        imgs = self.pristine
        im, init, kw = fit_args(self.s, op, imgs)
        if start is not None:
            from menpo.shape import PointCloud
            init = PointCloud(start)
            if op['init']['kind'] == 'bb':
                init = init.bounding_box()
        px = version(im.pixels, op.get('ver'))
        if fresh or not op.get('live'):
            im = im.copy()
            im.pixels[...] = px
            return im, init, kw
        im = self.objects[op['im'] % len(imgs)][0]
        im.pixels[...] = px
        init = self._shape('init', init)
        if 'gt_shape' in kw:
            kw['gt_shape'] = self._shape('gt', kw['gt_shape'])
        mi = kw.get('max_iters')
        if isinstance(mi, list):
            kw['max_iters'] = self.lists.setdefault('max_iters', mi)
            kw['max_iters'][:] = mi
        return im, init, kw


def do_fit(fitter, s, op, imgs, args=None):
    im, init, kw = fit_args(s, op, imgs) if args is None else args
    if op['init']['kind'] == 'bb' or s['family'] == 'Dlib':
        if op['init']['kind'] != 'bb':
            init = init.bounding_box()
        return fitter.fit_from_bb(im, init, **kw)
    return fitter.fit_from_shape(im, init, **kw)
