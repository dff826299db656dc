"""C13: fitters that share a model do not disturb each other."""
import copy
import json

import numpy as np

from .. import common, faults, snap, zoo
from ..engine import Skip
from . import c01

RUNS = {'quick': 900, 'thorough': 12000}
RULE = ('a run trains one model, builds two to four fitters from it and plays '
        'a random interleaving of their calls (fits, failing and interrupted '
        'fits, queries, further fitters that are built meanwhile); every '
        'undisturbed fit is compared with the same fit in a forked process '
        'image in which no fitter was used yet, or with a fitter that shares '
        'its model with nobody; the reports of the model are compared '
        'before and after; non trivial: fits of at least two fitters '
        'happened; distinct by event log')
STATES = 'distinct (fitter, fitter used before it, how that call ended) tuples'
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy']
STUB = ['images are synthetic', 'faults are raised by a line tracer, by the '
        'callbacks handed to menpofit and by a wrapped linear solver']
ASSUMES = ['all fitters of one model that are in use at a time request the '
           'same number of components',
           'differences of a fit that rounding level changes of the image '
           'reproduce as well are not judged',
           'reports of the model may change by rounding (1e-7 relative)']

ALGS = {'AAM': [('LKAAM', a) for a in zoo.LK_ALGS] +
        [('SDAAM', a) for a in zoo.SDAAM_ALGS],
        'ATM': [('ATM', a) for a in zoo.ATM_ALGS],
        'CLM': [('CLM', a) for a in zoo.CLM_ALGS],
        'APS': [('APS', a) for a in zoo.APS_ALGS],
        'Unified': [('Unified', a) for a in zoo.UNI_ALGS]}


def gen_shared(rng, m, j, common_):
    """Spec of the j-th fitter on the model."""
    fam, alg = rng.choice(ALGS[m['family']])
    if fam == 'SDAAM' and (m.get('variant') not in (
            'HolisticAAM', 'MaskedAAM', 'PatchAAM') or rng.random() < 0.5):
        fam, alg = 'LKAAM', rng.choice(zoo.LK_ALGS)
    s = dict(family=fam, alg=alg, model=m, np_seed=rng.randrange(2 ** 31))
    s.update(common_)
    if fam != 'LKAAM' and fam != 'SDAAM':
        s.pop('n_appearance', None)
    if fam == 'SDAAM':
        s.update(n_iterations=zoo.gen_cascade(rng, len(m['scales'])),
                 n_perturbations=2, perturb='default', alpha=0.1)
    if fam in ('LKAAM', 'ATM') and rng.random() < 0.2:
        s['sampling'] = rng.choice([2, 3])
    if fam == 'APS':
        s['weight'] = rng.choice([200., 10.])
    return s


def gen(rng, i):
    m = zoo.gen_model(rng, zoo.wchoice(rng, [
        ('AAM', 6), ('ATM', 3), ('CLM', 2), ('APS', 2), ('Unified', 1)]))
    common_ = {}
    if m['family'] != 'Unified' and rng.random() < 0.12:
        return gen_renumber(rng, m)
    if m['family'] != 'Unified':
        ns = len(m['scales'])
        if rng.random() < 0.25:
            common_['n_shape'] = rng.choice([2, 2, [2] * ns, [2]])
        if rng.random() < 0.25:
            common_['n_appearance'] = rng.choice([2, 2, [2] * ns, [2], 0.8])
    n = rng.choice([2, 2, 3, 4])
    fitters = [gen_shared(rng, m, j, common_) for j in range(n)]
    if rng.random() < 0.25:
        fitters[1] = json.loads(json.dumps(fitters[0]))
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        j = rng.randrange(n)
        k = rng.choice(['fit'] * 6 + ['fault'] * 4 + ['query', 'scribble',
                                                      'bad', 'build'])
        if k in ('fit', 'fault'):
            op = zoo.gen_fit(rng, fitters[j])
            if k == 'fault':
                op['fault'] = faults.gen_fault(rng)
        elif k == 'bad':
            op = dict(op='bad', how=rng.choice(['iters', 'channels', 'far',
                                                'tiny']),
                      im=rng.randrange(3))
        elif k == 'query':
            op = dict(op='query', what=rng.choice(
                ['str', 'warped', 'instance', 'random', 'fitter_props',
                 'model_str']))
        else:
            op = dict(op=k)
        op['j'] = j
        if k == 'build':
            # a further fitter, which takes part from here on
            fitters.append(gen_shared(rng, m, n, common_))
            op['j'] = n
            n += 1
        ops.append(op)
    j = rng.randrange(n)
    last = zoo.gen_fit(rng, fitters[j])
    last['j'] = j
    ops.append(last)
    for o in ops:
        if o['op'] == 'fit':
            # the caller's own objects, used with all fitters and edited in
            # place between the calls
            o['live'] = rng.random() < 0.4
            o['ver'] = rng.choice([0, 0, 1, 2])
    return dict(model=m, fitters=fitters, ops=ops,
                separate=rng.random() < 0.25)


def gen_renumber(rng, m):
    """One fitter after the other, each with its own numbers of components;
    only the latest one is used."""
    fitters, ops = [], []
    for j in range(rng.choice([2, 2, 3])):
        own = {'n_shape': rng.choice([1, 2, 3])}
        if m['family'] == 'AAM':
            own['n_appearance'] = rng.choice([1, 2, 3])
        for k in own:
            if rng.random() < 0.4:
                own[k] = [own[k]] * len(m['scales'])
        fitters.append(gen_shared(rng, m, j, own))
        if j:
            ops.append(dict(op='build', j=j))
        for _ in range(rng.choice([1, 1, 2])):
            op = zoo.gen_fit(rng, fitters[j])
            op['j'] = j
            ops.append(op)
    return dict(model=m, fitters=fitters, ops=ops, separate=True,
                renumber=True)


def learned(model):
    """All that was learned: the linear models with every component, also
    those that the fitters do not use."""
    d = {}
    for n in ('shape_models', 'appearance_models'):
        for i, m in enumerate(getattr(model, n, [])):
            m = copy.deepcopy(getattr(m, 'model', m))
            if hasattr(m, 'n_active_components'):
                m.n_active_components = m.n_components
                d['%s%d' % (n, i)] = snap.linear(m)
    return d


def make(s, model):
    np.random.seed(s['np_seed'] % (2 ** 32))
    return zoo.fitter_from(s, model)


def run(sc, ctx):
    late = [op['j'] for op in sc['ops'] if op['op'] == 'build']
    try:
        np.random.seed(sc['fitters'][0]['np_seed'] % (2 ** 32))
        model = zoo.build_model(sc['model'])
        full = learned(model)
        fitters = [None if j in late else make(s, model)
                   for j, s in enumerate(sc['fitters'])]
    except Exception as e:
        raise Skip('untrainable: %s' % type(e).__name__)
    labels = [common.label(s) for s in sc['fitters']]
    ctx.log(*labels)
    before = snap.model(model)
    live = zoo.Live(sc['fitters'][0])
    refs = []
    for op in sc['ops']:
        ref = None
        if op['op'] == 'fit' and not op.get('fault'):
            s = sc['fitters'][op['j']]

            def go(op=op, s=s):
                f = fitters[op['j']]
                if sc['separate']:
                    _, f = zoo.build(s)
                elif f is None:
                    f = make(s, model)
                return snap.result(zoo.do_fit(f, s, op, None,
                                              live.args(op, True)))
            ref = faults.isolated(go)
        refs.append(ref)
    sts = [{'live': live} for _ in fitters]
    prev = 'start'
    used = set()
    for n, (op, ref) in enumerate(zip(sc['ops'], refs)):
        j = op['j']
        s = sc['fitters'][j]
        if op['op'] == 'build':
            try:
                fitters[j] = make(s, model)
                ctx.count('fitters built meanwhile')
            except Exception as e:
                ctx.log('build', type(e).__name__)
            prev = 'build'
            d = snap.diff(full, learned(model), 1e-7, 1e-8)
            if d:
                ctx.violate('model changed:' + sc['model']['family'],
                            'by the building of fitter %d (%s): %s' % (
                                j, labels[j], d))
            continue
        if fitters[j] is None:
            continue
        if ref is None:
            out = c01.play(op, fitters[j], model, s, ctx, sts[j])
        else:
            out = common.outcome(lambda: zoo.do_fit(
                fitters[j], s, op, None, live.args(op)))
            if out[0] == 'ok':
                sts[j]['last'] = out[1]
                got = ('ok', snap.result(out[1]))
            else:
                got = out
            ctx.log('fit', j, got[0], got[1] if got[0] == 'exc' else
                    got[1].get('n_iters'))
            ctx.count('fits compared')

            def shaky():
                m2, f2 = zoo.build(s)
                im, init, kw = live.args(op, True)
                (im, _), = common.tremble([(im, None)])
                return common.outcome(lambda: snap.result(zoo.do_fit(
                    f2, s, op, None, (im, init, kw))))
            d = common.compare_fits(ref, got, shaky)
            if d:
                ctx.violate('shared:' + s['family'],
                            'fitter %d (%s), operation %d, after use of %s: '
                            '%s' % (j, labels[j], n, [
                                l for k, l in enumerate(labels) if k != j],
                                d))
        used.add(j)
        ctx.state(labels[j], prev)
        prev = '%s %s %s' % (labels[j], op['op'], out[0])
        d = None if sc.get('renumber') else snap.diff(
            before, snap.model(model), 1e-7, 1e-8)
        if d is None and n in (0, len(sc['ops']) - 1):
            d = snap.diff(full, learned(model), 1e-7, 1e-8)
        if d:
            ctx.violate('model changed:' + sc['model']['family'],
                        'after operation %d (%s of %s): %s' % (
                            n, op['op'], labels[j], d))


def simplify(sc):
    out = []
    for s in common.simplify_fitter(dict(fitter=dict(model=sc['model']))):
        c = json.loads(json.dumps(sc))
        c['model'] = s['fitter']['model']
        for f in c['fitters']:
            f['model'] = c['model']
            if isinstance(f.get('n_iterations'), list):
                f['n_iterations'] = 3
        out.append(c)
    used = sorted({o['j'] for o in sc['ops']})
    if len(used) < len(sc['fitters']) and used:
        c = json.loads(json.dumps(sc))
        c['fitters'] = [c['fitters'][j] for j in used]
        for o in c['ops']:
            o['j'] = used.index(o['j'])
        out.append(c)
    return out
