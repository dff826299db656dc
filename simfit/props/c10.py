"""C10: training and fitting are reproducible from the seed."""
import gc
import io
import os
import random
import sys
import tempfile

import numpy as np

from .. import clock, common, faults, feats, rng as R, snap, world, zoo, zygote
from ..engine import Skip

RUNS = {'quick': 700, 'thorough': 9000}
RULE = ('a run draws a model or fitter and a history (train, fits, failing '
        'fits, increments, instances) and plays it from the same numpy seed '
        'in two simulated environments that differ in hash seed, clock, '
        'directory, verbosity, earlier work, memory and layout of the '
        'inputs; outcomes and the random state after every operation have '
        'to agree; non trivial: the model could be trained; distinct by '
        'event log')
STATES = ('distinct (configuration, environment difference, operation) '
          'tuples')
REAL = ['all of menpofit', 'menpo', 'numpy', 'scipy', 'dlib (Dlib runs)',
        'interpreters with different hash seeds']
STUB = ['images are synthetic', 'time.time, time.perf_counter and '
        'time.monotonic return a simulated clock', 'stdout is a buffer',
        'faults are raised by a line tracer and by callbacks']
ASSUMES = ['outcomes may differ by rounding (1e-8 relative; 1e-6 where the '
           'memory layout of the inputs differs); fits that rounding level '
           'changes of the pixels alter are not judged']
SIM_TIME = 'seconds of simulated clock that the verbose trainings saw'
MIN_OPS = 0
ZYGOTES = [21, 22, 23]


def gen(rng, i):
    if rng.random() < 0.25:
        s = dict(model=zoo.gen_model(rng), np_seed=rng.randrange(2 ** 31))
        s['family'] = 'model'
    else:
        # the cascaded families draw random numbers, so they come more often
        s = zoo.gen_fitter(rng, rng.choice([None, None, 'SDM', 'SDAAM',
                                            'Dlib']))
        if s['family'] in ('SDM', 'Dlib') and rng.random() < 0.4:
            s['world']['boxes'] = rng.choice([2, 3])
            s['world']['extra'] = True
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        if s['family'] == 'model':
            k = rng.choice(['inc', 'instance', 'instance'])
        else:
            k = rng.choice(['fit', 'fit', 'fault', 'inc', 'instance'])
        op = dict(op=k)
        if k in ('fit', 'fault'):
            op = dict(zoo.gen_fit(rng, s), op=k)
            if k == 'fault':
                op['fault'] = faults.gen_fault(rng, ('line', 'hook'))
        elif k == 'inc':
            op.update(n=rng.choice([2, 3]), seed=rng.randrange(1000))
        ops.append(op)
    env_ = dict(hashseed=rng.choice([None, None] + ZYGOTES * 2),
                clock=rng.choice([None] + clock.KINDS),
                cwd=rng.random() < 0.5, verbose=rng.random() < 0.5,
                earlier=rng.choice([None, None, 'other', 'same', 'failed']),
                pyrandom=rng.random() < 0.5,
                memory=rng.choice([None, 'garbage', 'nogc']),
                layout=rng.choice([None] * 3 + ['F', 'reused']),
                seed=rng.randrange(10 ** 6))
    return dict(fitter=s, ops=ops, env=env_)


def relayout(images, how):
    """The same images in other memory."""
    out = []
    for im in images:
        im = im.copy()
        if how == 'F':
            im.pixels = np.asfortranarray(im.pixels)
        else:
            im.pixels = im.pixels.copy()
        for g in im.landmarks:
            pass
        out.append(im)
    return out


def train(s, e):
    """(model, fitter) in environment e."""
    over = {}
    verbose = dict(verbose=True) if e.get('verbose') else {}
    layout = e.get('layout')
    model = fitter = None
    if 'model' in s:
        data = zoo.model_data(s['model'])
        if layout:
            data = tuple(relayout(d, layout) if isinstance(d, list) and
                         hasattr(d[0], 'pixels') else d for d in data)
        model = zoo.build_model(s['model'], data, **verbose)
    if s['family'] != 'model':
        data = None
        if s['family'] in ('SDM', 'SDAAM', 'Dlib', 'LK'):
            data = zoo.fitter_data(s)
            if layout:
                data = relayout(data, layout)
            if s['family'] != 'LK':
                over = verbose
        fitter = zoo.fitter_from(s, model, data, **over)
    return model, fitter


def earlier(s, how, seed):
    """Work that the process did before."""
    r = R.make('earlier', seed)
    if how == 'same' and s['family'] != 'model':
        o = zoo.gen_fitter(r, s['family'], s.get('alg'))
    elif how == 'same':
        o = dict(model=zoo.gen_model(r, s['model']['family'],
                                     s['model'].get('variant')),
                 family='model', np_seed=3)
    else:
        o = zoo.gen_fitter(r)
    fault = faults.gen_fault(r, ('line', 'hook')) if how == 'failed' else None
    m, f = None, [None]

    def go():
        np.random.seed(5)
        f[0] = train(o, dict(verbose=r.random() < 0.3))
    if how == 'failed':
        faults.with_fault(go, fault)
    else:
        common.outcome(go)
    if f[0] is not None and f[0][1] is not None:
        imgs = zoo.test_images(o)
        for _ in range(2):
            op = zoo.gen_fit(r, o)
            common.outcome(lambda: zoo.do_fit(f[0][1], o, op, imgs))
    return f


def nprs():
    st = np.random.get_state()
    return (st[1].tobytes(), st[2:5])


def instances(model, fitter):
    if model is not None and hasattr(model, 'random_instance'):
        return [model.random_instance(j).as_vector()
                for j in range(model.n_scales)]
    return []


def play(sc, e, shake=False):
    """The history in an environment: [(op, outcome, random state changed,
    random state)]"""
    s = sc['fitter']
    keep, clk = [], None
    where = None
    out = []
    try:
        if e.get('pyrandom'):
            random.seed(e['seed'])
            os.environ['SIMFIT_NOISE'] = str(e['seed'])
        if e.get('memory') == 'nogc':
            gc.disable()
        if e.get('clock'):
            clk = clock.Clock(e['clock'], e['seed'])
            clk.__enter__()
        if e.get('cwd'):
            where = os.getcwd()
            d = tempfile.mkdtemp(prefix='simfit-c10-')
            os.chdir(d)
        if e.get('memory') == 'garbage':
            r = np.random.RandomState(e['seed'])
            for _ in range(200):
                keep.append(np.full(r.randint(1, 5000), 1e300))
            del keep[::2]
        if e.get('earlier'):
            keep.append(earlier(s, e['earlier'], e['seed']))
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            history(sc, e, shake, out)
        finally:
            sys.stdout = old
    finally:
        if clk:
            clk.__exit__()
        if where:
            os.chdir(where)
            try:
                os.rmdir(d)
            except OSError:
                out.append(('litter', sorted(os.listdir(d)), None, None))
    return out, clk.span if clk else 0.


def history(sc, e, shake, out):
    s = sc['fitter']
    generators = (np.random.mtrand._rand, random._inst, np.random.rand,
                  np.random.randn)
    np.random.seed(s['np_seed'] % (2 ** 32))
    py = random.getstate()
    a = nprs()
    try:
        model, fitter = train(s, e)
    except Exception as x:
        out.append(('untrainable', type(x).__name__, None, None))
        return
    out.append(('train', describe(model, fitter), None, nprs()))
    for op in sc['ops']:
        k = op['op']
        before = nprs()
        if k in ('fit', 'fault'):
            ims = zoo.test_images(s)
            if shake:
                ims = common.tremble(ims)
            if e.get('layout'):
                ims = list(zip(relayout([i for i, _ in ims], e['layout']),
                               [g for _, g in ims]))

            def fit():
                return snap.result(zoo.do_fit(fitter, s, op, ims))
            if k == 'fit':
                o = common.outcome(fit)
            else:
                o = faults.with_fault(fit, op.get('fault'))[:1]
            after = nprs()
            out.append((k, o, after != before, after))
        elif k == 'inc':
            if model is None or not hasattr(model, 'increment'):
                continue
            from . import c09
            o = common.outcome(lambda: c09.increment(s, model, op))
            out.append((k, o, None, nprs()))
        else:
            out.append((k, common.outcome(lambda: instances(model, fitter)),
                        None, nprs()))
    if generators != (np.random.mtrand._rand, random._inst, np.random.rand,
                      np.random.randn):
        out.append(('generators', 'the global generators were replaced',
                    None, None))
    if random.getstate() != py:
        out.append(('generators', 'the state of the random module changed',
                    None, None))


def describe(model, fitter):
    d = dict(fitter=str(fitter) if fitter is not None else '')
    if model is not None:
        d['model'] = snap.model(model)
    for n, a in enumerate(getattr(fitter, 'algorithms', [])):
        regs = getattr(a, 'regressors', None)
        if regs:
            d['regressors%d' % n] = [
                np.asarray(getattr(r, 'W', getattr(r, 'V', 0.)))
                for r in regs]
    return d


def reseeded(sc):
    """Does the training forget the random state it started from?"""
    s = sc['fitter']
    ends = []
    for seed in (1, 2):
        np.random.seed(seed)
        random.seed(seed)
        try:
            train(s, {})
        except Exception:
            return None
        ends.append((nprs(), random.getstate()))
    return [a == b for a, b in zip(*ends)]


def run(sc, ctx):
    s, e = sc['fitter'], sc['env']
    lab = common.label(s) if s['family'] != 'model' else 'model ' + \
        common.label(s['model'])
    ref = faults.isolated(lambda: play(sc, {}), 60.)
    if ref[0] != 'ok':
        raise Skip('died: %s' % (ref[1],))
    ref = ref[1][0]
    if ref[0][0] == 'untrainable':
        raise Skip('untrainable: ' + ref[0][1])
    if e['hashseed']:
        got = zygote.call(e['hashseed'], 'props.c10', 'play', sc, e)
    else:
        got = faults.isolated(lambda: play(sc, e), 80.)
    if got[0] == 'died' and got[1] == 'no answer' or got[0] == 'exc':
        ctx.violate('dies', '%s: in another environment (%s): %s' % (
            lab, e, got))
    if got[0] != 'ok':
        raise Skip('died: %s' % (got[1],))
    got, span = got[1]
    ctx.sim_time = span
    diffs = [k for k in ('hashseed', 'clock', 'cwd', 'verbose', 'earlier',
                         'pyrandom', 'memory', 'layout') if e[k]]
    for k in diffs:
        ctx.fault('%s%s' % (k, '' if e[k] is True or k == 'hashseed'
                            else ': %s' % e[k]))
    ctx.log(lab, e, [(o[0], o[1][0] if isinstance(o[1], tuple) else '')
                     for o in ref])
    for o in ref:
        for k in diffs:
            ctx.state(lab, k, o[0])
    name = s['family']
    for where, rec in (('here', ref), ('there', got)):
        for o in rec:
            if o[0] in ('fit', 'fault') and o[2]:
                ctx.violate('fit draws:' + name, '%s: a %s changes the state '
                            'of the global random generator (%s)' % (
                                lab, o[0], where))
            if o[0] == 'generators':
                ctx.violate('generators:' + name, '%s: %s (%s)' % (
                    lab, o[1], where))
    if got[-1][0] == 'litter':
        got = got[:-1]
    rtol = 1e-6 if e['layout'] else 1e-8
    shaky = [None]

    def shake(n):
        if shaky[0] is None:
            r = faults.isolated(lambda: play(sc, {}, True))
            shaky[0] = r[1][0] if r[0] == 'ok' else []
        return shaky[0][n][1] if n < len(shaky[0]) else ('died', '')
    if [o[0] for o in ref] != [o[0] for o in got]:
        ctx.violate('differs:train:' + name, '%s: %s / %s (%s)' % (
            lab, [o[:2] for o in ref][-1:], [o[:2] for o in got][-1:], e))
    for n, (a, b) in enumerate(zip(ref, got)):
        k = a[0]
        if k == 'generators':
            continue
        if k == 'train':
            d = snap.diff(a[1], b[1], rtol, rtol * 10)
            if d and unstable(sc, a[1], rtol):
                raise Skip('the training amplifies rounding errors')
        elif k == 'fit':
            d = common.compare_fits(a[1], b[1], lambda: shake(n), rtol,
                                    rtol)
        elif k == 'fault':
            d = None
        else:
            d = None
            if a[1][0] != b[1][0]:
                d = '%r / %r' % (str(a[1])[:150], str(b[1])[:150])
            elif a[1][0] == 'ok':
                d = snap.diff(a[1][1], b[1][1], rtol, rtol * 10)
        ctx.count('compared ' + k)
        if d:
            ctx.violate('differs:%s:%s' % (k, name), '%s: %s gives something '
                        'else with %s: %s' % (lab, k, dict(
                            (x, e[x]) for x in diffs), d))
        if a[3] != b[3]:
            ctx.violate('draws:%s:%s' % (k, name), '%s: after %s the state '
                        'of the random generator is another one with %s' % (
                            lab, k, dict((x, e[x]) for x in diffs)))
    if e['seed'] % 3 == 0:
        r = faults.isolated(lambda: reseeded(sc))
        if r[0] == 'ok' and r[1]:
            ctx.count('reseed checks')
            for same, g in zip(r[1], ('numpy', 'python')):
                if same:
                    ctx.violate('reseeds:' + name, '%s: training ends in the '
                                'same state of the global %s generator, '
                                'whatever its state was before' % (lab, g))


def unstable(sc, a, rtol):
    """Does the training change by as much if only the pixels change by
    rounding errors? (singular directions of tiny data sets)"""
    def go():
        s = sc['fitter']
        np.random.seed(s['np_seed'] % (2 ** 32))
        real = world.images

        def shaken(spec):
            ims = real(spec)
            for im in ims:
                r = np.random.RandomState(3)
                im.pixels = im.pixels * (
                    1. + 1e-14 * r.randn(*im.pixels.shape))
            return ims
        world.images = shaken
        return describe(*train(s, {}))
    r = faults.isolated(go)
    return r[0] != 'ok' or bool(snap.diff(a, r[1], rtol * .1, rtol))


def simplify(sc):
    import json
    out = []
    for k, v in sc['env'].items():
        if v and k != 'seed':
            c = json.loads(json.dumps(sc))
            c['env'][k] = None
            out.append(c)
    if sc['fitter']['family'] != 'model':
        out += common.simplify_fitter(sc)
    return out
