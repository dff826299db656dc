"""C09: saved and restored models and fitters continue identically."""
import copy
import pickle

import numpy as np

from .. import common, faults, feats, snap, world, zoo, zygote
from ..engine import Skip

RUNS = {'quick': 800, 'thorough': 10000}
RULE = ('a run draws a fitter, a history (trainings, fits, failing fits, '
        'increments) and checkpoints in it, and plays the history twice in '
        'forked processes: without the checkpoints, and replacing everything '
        'at every checkpoint by its restored copy (or keeping it) while the '
        'other one is abused; all outcomes have to agree; non trivial: at '
        'least one outcome after a checkpoint was compared; distinct by '
        'event log')
STATES = ('distinct (fitter kind, kind of checkpoint, operation before, '
          'operation after) tuples')
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)',
        'pickle and deepcopy', 'in some runs a new interpreter with another '
        'hash seed restores and continues']
STUB = ['images are synthetic', 'faults are raised by a line tracer, by '
        'callbacks and by a wrapped linear solver']
ASSUMES = ['outcomes may differ by rounding (1e-6 relative), because '
           'restored arrays can have another memory layout; fits that '
           'rounding level changes of the pixels alter are not judged']
MIN_OPS = 1
ZYGOTES = [11, 12]
HOW = ['pickle2', 'pickle4', 'pickle5', 'deepcopy', 'deepcopy']


def gen(rng, i):
    s = zoo.gen_fitter(rng)
    if s['family'] == 'APS':
        s['model']['incremental'] = True
    ops = []
    if rng.random() < 0.7:
        ops.append(dict(zoo.gen_fit(rng, s), op='fit'))
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append(dict(op='save', how=rng.choice(HOW),
                        what=rng.choice(['both', 'both', 'fitter']),
                        keep=rng.choice(['copy', 'copy', 'original']),
                        abuse=rng.choice([None, 'use', 'use', 'spoil'])))
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(['fit', 'fit', 'fit', 'fault', 'inc', 'inc',
                            'refit', 'report'])
            op = dict(op=k)
            if k in ('fit', 'fault'):
                op = dict(zoo.gen_fit(rng, s), op=k)
                if k == 'fault':
                    op['fault'] = faults.gen_fault(rng, ('line', 'hook'))
            elif k == 'inc':
                op.update(n=rng.choice([2, 3]), seed=rng.randrange(1000))
            ops.append(op)
    ops.append(dict(zoo.gen_fit(rng, s), op='fit'))
    if rng.random() < 0.12:
        # a new process goes on with the first save
        for op in ops:
            if op['op'] == 'save':
                op.update(how='process', keep='copy', abuse=None)
                op['hashseed'] = rng.choice(ZYGOTES)
                break
    return dict(fitter=s, ops=ops, ship=rng.random() < 0.3,
                wrap=rng.choice([None] * 4 + ['none', 'shift', 'rescale']))


def copier(how):
    if how == 'deepcopy':
        return copy.deepcopy
    p = int(how[-1])
    return lambda x: pickle.loads(pickle.dumps(x, protocol=p))


def build(sc, ship):
    s = sc['fitter']
    np.random.seed(s['np_seed'] % (2 ** 32))
    model = None
    if 'model' in s:
        if ship:
            from ..zoo import model_cls, model_data, model_kwargs
            data, k = pickle.loads(pickle.dumps(
                (model_data(s['model']), model_kwargs(s['model']))))
            model = model_cls(s['model'])(*data, **k)
        else:
            model = zoo.build_model(s['model'])
    over, data = {}, None
    if ship:
        over = pickle.loads(pickle.dumps(zoo.fitter_kwargs(s, model)))
        if s['family'] in ('SDM', 'SDAAM', 'Dlib', 'LK'):
            data = pickle.loads(pickle.dumps(zoo.fitter_data(s)))
    f = zoo.fitter_from(s, model, data, **over)
    return model, wrapped(sc, f)


def wrapped(sc, f):
    if not sc.get('wrap'):
        return f
    from menpofit.io import PickleWrappedFitter
    return PickleWrappedFitter(feats.identity, (f,), {}, {}, {},
                               image_preprocess=feats.PREPROCESS[sc['wrap']])


def play(sc, saves, shake=False):
    """All outcomes of the history."""
    out = []
    try:
        model, fitter = build(sc, saves and sc.get('ship'))
    except Exception as e:
        return [('untrainable', type(e).__name__)]
    go_on(sc, saves, shake, 0, model, fitter, out)
    return out


def images(s, shake):
    ims = zoo.test_images(s)
    return common.tremble(ims) if shake else ims


def go_on(sc, saves, shake, start, model, fitter, out):
    s = sc['fitter']
    last = [None]
    for n in range(start, len(sc['ops'])):
        op = sc['ops'][n]
        k = op['op']
        if k in ('fit', 'fault'):
            ims = images(s, shake)
            last[0] = None

            def fit():
                last[0] = zoo.do_fit(fitter, s, op, ims)
                return snap.result(last[0], True)
            if k == 'fault':
                r = faults.with_fault(fit, op.get('fault'))
                out.append((n, 'fault', ''))
            else:
                out.append((n, 'fit', common.outcome(fit)))
        elif k == 'inc':
            if model is None or not hasattr(model, 'increment'):
                continue
            out.append((n, 'inc', common.outcome(
                lambda: increment(s, model, op))))
        elif k == 'refit':
            if model is None or s.get('sampling'):
                continue

            def refit():
                np.random.seed(s['np_seed'] % (2 ** 32))
                return wrapped(sc, zoo.fitter_from(s, model))
            r = common.outcome(refit)
            if r[0] == 'ok':
                fitter = r[1]
                r = ('ok', None)
            out.append((n, 'refit', r))
        elif k == 'report':
            out.append((n, 'report', common.outcome(
                lambda: (str(getattr(fitter, 'wrapped_fitter', fitter)),
                         None if model is None else snap.model(model),
                         posture(model)))))
        elif k == 'save' and saves:
            if op['how'] == 'process':
                out.extend(elsewhere(sc, shake, n + 1, model, fitter,
                                     op['hashseed']))
                return
            try:
                model, fitter = save(sc, op, model, fitter, last, out, n)
            except (Exception, KeyboardInterrupt) as e:
                out.append((n, 'save', ('exc', type(e).__name__,
                                        str(e)[:200])))
                return


def posture(model):
    """Where the shape models of a model currently are."""
    out = []
    for sm in getattr(model, 'shape_models', None) or ():
        if hasattr(sm, 'as_vector') and hasattr(sm, 'target'):
            t = sm.target
            out.append((np.array(sm.as_vector()),
                        None if t is None else np.array(t.points)))
    return out


def increment(s, model, op):
    w = dict(s['model']['world'], n=op['n'],
             seed=s['model']['world']['seed'] + op['seed'] + 1)
    if s['model']['family'] == 'ATM':
        data = (world.images(dict(w, n=1))[0], world.shapes(
            w['seed'], w['n'], w['kind'], tuple(w['size'])))
    else:
        data = (world.images(w),)
    model.increment(*data, group='PTS')
    return snap.model(model)


def save(sc, op, model, fitter, last, out, n):
    s = sc['fitter']
    cp = copier(op['how'])
    if last[0] is not None:
        a = snap.result(last[0], True)
        c = cp(last[0])
        out.append((n, 'result', snap.diff(a, snap.result(c, True),
                                           1e-9, 1e-9)))
        common.scribble(c)
        out.append((n, 'result', snap.exact(a, snap.result(last[0], True))))
        last[0] = None
    if op['what'] == 'fitter' and model is not None:
        # the model inside of the fitter goes with it
        f2 = cp(fitter)
        m2 = inner(f2)
        if m2 is None:
            m2 = cp(model)
    else:
        m2, f2 = cp((model, fitter))
    if op['keep'] == 'copy':
        keep, other = (m2, f2), (model, fitter)
    else:
        keep, other = (model, fitter), (m2, f2)
    if op.get('abuse'):
        abuse(sc, op['abuse'], *other)
    return keep


def inner(f):
    f = getattr(f, 'wrapped_fitter', f)
    for n in ('_model', 'aam', 'atm', 'clm', 'aps'):
        m = getattr(f, n, None)
        if m is not None and hasattr(m, 'shape_models'):
            return m
    return None


def abuse(sc, how, model, fitter):
    """Use (or destroy) an object that nobody needs any more."""
    s = sc['fitter']
    ims = zoo.test_images(s)
    op = dict(op='fit', im=1, init=dict(kind='shape', dy=2., dx=-1., s=1.03))

    def use():
        common.scribble(zoo.do_fit(fitter, s, op, ims))
    common.outcome(use)
    if model is None:
        return
    if hasattr(model, 'increment'):
        common.outcome(lambda: increment(s, model, dict(n=2, seed=991)))
    if how == 'spoil':
        for name in ('shape_models', 'appearance_models'):
            for x in getattr(model, name, []):
                x = getattr(x, 'model', x)
                for a in ('components', 'eigenvalues', 'mean_vector',
                          'precision'):
                    v = getattr(x, a, None)
                    if isinstance(v, np.ndarray):
                        try:
                            v[...] = 0.37
                        except ValueError:
                            pass
        for t in getattr(model, 'warped_templates', []):
            t.pixels[...] = 0.5
        r = getattr(model, 'reference_shape', None)
        if r is not None:
            try:
                r.points[...] *= 3.
            except ValueError:
                pass            # read only


def elsewhere(sc, shake, start, model, fitter, hashseed):
    """Another interpreter restores and goes on."""
    r = zygote.call(hashseed, 'props.c09', 'resume', sc, shake, start,
                    pickle.dumps((model, fitter), protocol=2))
    if r[0] == 'died':
        raise Skip('the other interpreter: ' + str(r[1]))
    if r[0] == 'exc':
        return [(start, 'restore', r)]
    return r[1]


def resume(sc, shake, start, saved):
    np.random.seed(7)
    model, fitter = pickle.loads(saved)
    out = []
    go_on(sc, True, shake, start, model, fitter, out)
    return out


def run(sc, ctx):
    s = sc['fitter']
    lab = common.label(s)
    ref = faults.isolated(lambda: play(sc, False), 60.)
    if ref[0] != 'ok':
        raise Skip('died: %s' % (ref[1],))
    ref = ref[1]
    if ref and ref[0][0] == 'untrainable':
        raise Skip('untrainable: ' + ref[0][1])
    got = faults.isolated(lambda: play(sc, True), 85.)
    if got[1] in ('Skip', 'timeout'):
        raise Skip('died: %s' % (got[1:],))
    if got[0] != 'ok':
        ctx.violate('lost', '%s: the history with checkpoints dies: %s' % (
            lab, got))
    got = got[1]
    if got and got[0][0] == 'untrainable':
        ctx.violate('options', '%s: trained with options that were saved and '
                    'restored: %s' % (lab, got[0][1]))
    shaky = [None]

    def shake():
        if shaky[0] is None:
            r = faults.isolated(lambda: play(sc, False, True))
            shaky[0] = {o[0]: o[2] for o in r[1]} if r[0] == 'ok' else {}
        return shaky[0]
    before, saved = 'train', None
    refs = {o[0]: o for o in ref}
    ctx.log(lab, sc.get('wrap'), 'shipped' if sc.get('ship') else '')
    for op in sc['ops']:
        if op['op'] == 'save':
            ctx.fault(('restart in another process' if op['how'] == 'process'
                       else 'saved and replaced (%s)' % op['how'])
                      if op['keep'] == 'copy' else 'saved and kept')
            if op.get('abuse'):
                ctx.fault('the other one: ' + op['abuse'])
            ctx.log('save', op['how'], op['what'], op['keep'],
                    op.get('abuse'))
            saved = op['how']
        else:
            ctx.log(op['op'], *(refs.get(sc['ops'].index(op),
                                         (0, 0, ''))[2] or '')[:1])
            ctx.state(lab, saved, before, op['op'])
            before = op['op']
    seen = set()
    for n, what, o in got:
        seen.add(n)
        if what == 'save':
            ctx.violate('cannot be saved:' + s['family'], '%s: %s fails: %s'
                        % (lab, sc['ops'][n]['how'], o))
        if what == 'restore':
            ctx.violate('cannot be restored:' + s['family'], '%s: %s' % (
                lab, o))
        if what == 'result':
            if o:
                ctx.violate('result copies:' + s['family'], '%s: a saved '
                            'result is not the original: %s' % (lab, o))
            continue
        r = refs.get(n)
        if what == 'fault':
            continue
        ctx.count('compared ' + what)
        if what == 'fit':
            d = common.compare_fits(r[2], o, lambda: shake().get(
                n, ('died', '')))
        else:
            d = None
            if r[2][0] != o[0]:
                d = '%r / %r' % (str(r[2])[:150], str(o)[:150])
            elif o[0] == 'ok':
                d = snap.diff(r[2][1], o[1], 1e-6, 1e-7)
            if d and shake().get(n, ('died',))[0] != r[2][0]:
                d = None
        if d:
            ctx.violate('differs:%s:%s' % (what, s['family']),
                        '%s: %s after %s%s: original / restored: %s' % (
                            lab, what, [(x['op'] if x['op'] != 'save' else
                                         (x['how'], x['keep'],
                                          x.get('abuse')))
                                        for x in sc['ops'][:n]],
                            ', shipped options' if sc.get('ship') else '',
                            d))
    if not seen:
        raise Skip('nothing to compare')


def simplify(sc):
    import json
    out = common.simplify_fitter(sc)
    for f in (dict(ship=False), dict(wrap=None)):
        if any(sc.get(k) for k in f):
            out.append(dict(sc, **f))
    for i, o in enumerate(sc['ops']):
        if o['op'] == 'save':
            for f in (dict(how='pickle2'), dict(abuse=None),
                      dict(what='both')):
                if any(o.get(k) != v for k, v in f.items()):
                    c = json.loads(json.dumps(sc))
                    c['ops'][i].update(f)
                    out.append(c)
    return out

