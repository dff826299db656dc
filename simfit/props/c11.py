"""C11: reporting progress never changes the work."""
import gc
import io
import sys

import numpy as np

from .. import clock, common, faults, feats, snap, world, zoo
from ..engine import Skip
from . import c06, c10

RUNS = {'quick': 2000, 'thorough': 20000}
RULE = ('iter runs: several progress iterators over simulated sources are '
        'driven in a seeded interleaving under a simulated clock and judged '
        'against the bare source; train runs: the same trainings (streams '
        'that end or fail, failing callbacks) are played silently and '
        'verbosely from the same random state; non trivial: at least one '
        'item or one training was compared; distinct by event log')
STATES = ('distinct (source, way to end, clock, shown or not) and '
          '(configuration, operation, fault) tuples')
REAL = ['all of menpofit', 'menpo (with its progress bar)', 'numpy', 'dlib '
        '(Dlib runs)']
STUB = ['the clock (time.time, perf_counter, monotonic) is simulated',
        'stdout is a buffer', 'sources, consumers and images are synthetic']
ASSUMES = ['the clock stays within what datetime can print',
           'n_items is at least the number of items, as documented (for '
           'progress that is shown)',
           'trained models may differ by rounding (1e-9 relative)']
SIM_TIME = 'seconds that the simulated clocks covered'
MIN_OPS = 1


def gen(rng, i):
    if rng.random() < 0.72:
        return dict(kind='iter', ops=[gen_task(rng) for _ in range(
            rng.choice([1, 1, 2, 3]))], order=rng.randrange(10 ** 6),
            clock=rng.choice(clock.KINDS), clock_seed=rng.randrange(1000))
    sc = dict(kind='train', clock=rng.choice(clock.KINDS),
              clock_seed=rng.randrange(1000), ops=[])
    if rng.random() < 0.5:
        s = zoo.gen_fitter(rng, rng.choice(['SDM', 'SDAAM', 'Dlib', 'SDM']))
        sc['fitter'] = s
        if rng.random() < 0.3:
            sc['hook'] = rng.choice([1, 2, 3, 5])
            sc['exc'] = rng.choice(['io', 'interrupt', 'memory'])
        sc['ops'] = [zoo.gen_fit(rng, s)]
        return sc
    m = zoo.gen_model(rng)
    m['incremental'] = True
    sc['model'] = m
    if m['family'] == 'Unified':
        sc['ops'] = [dict(op='train', whole=True, n=6, seed=0, hook=rng.choice(
            [None, None, 2, 4]), exc='io')]
        return sc
    sc['ops'] = [c06.gen_op(rng, 'train', m)]
    for _ in range(rng.choice([0, 1, 1])):
        sc['ops'].append(c06.gen_op(rng, 'inc', m))
    for op in sc['ops']:
        op.pop('verbose', None)
        op['whole'] = rng.random() < 0.3
        op['hook'] = rng.choice([None, None, None, 1, 3, 6])
        op['exc'] = rng.choice(['io', 'interrupt', 'memory'])
    return sc


def gen_task(rng):
    n = rng.choice([0, 1, 2, 3, 5, 9])
    t = dict(op='task', n=n, source=rng.choice(
        ['list', 'tuple', 'gen', 'stream', 'sized', 'array', 'range',
         'dict', 'endless']), verbose=rng.random() < 0.65,
        takes=rng.choice([0, 1, 2, 3, 20, 20]),
        end=rng.choice(['close', 'throw', 'drop', 'again']),
        options={}, nested=rng.random() < 0.15)
    if t['source'] in ('gen', 'stream', 'sized') and rng.random() < 0.4:
        t['fail'] = rng.randrange(n + 1)
        t['exc'] = rng.choice(['io', 'interrupt', 'memory', 'linalg'])
    o = t['options']
    for k in ('show_bar', 'show_count', 'show_eta', 'end_with_newline'):
        if rng.random() < 0.25:
            o[k] = False
    if rng.random() < 0.4:
        o['prefix'] = 'work'
    if rng.random() < 0.25:
        o['offset'] = rng.choice([1, 4])
    t['n_items'] = o.get('offset') is not None or t['source'] in (
        'gen', 'stream', 'endless') or rng.random() < 0.3
    t['more'] = rng.choice([0, 0, 0, 3])
    if not t['verbose'] and rng.random() < 0.3:
        # nothing is counted then
        t['more'] = -rng.choice([1, 2, 5])
    t['odd'] = rng.random() < 0.3
    t['throws'] = rng.choice(sorted(faults.EXC))
    return t


# ---------------------------------------------------------------- iterators

class Stream(object):
    """Counts what is drawn; may fail; knows when it was closed."""

    def __init__(self, items, fail, exc):
        self.items, self.fail, self.exc = items, fail, exc
        self.i = self.drawn = self.after = 0
        self.over = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.over:
            self.after += 1
            raise StopIteration
        if self.fail is not None and self.i == self.fail:
            self.over = True
            raise self.exc
        if self.i >= len(self.items):
            self.over = True
            raise StopIteration
        self.i += 1
        self.drawn += 1
        return self.items[self.i - 1]


class Sized(Stream):
    def __len__(self):
        return len(self.items)


class Endless(Stream):
    def __next__(self):
        self.drawn += 1
        if self.drawn > 3000:
            # nobody asked for this many
            raise faults.SimMemoryError('an endless source was emptied')
        return ('item', self.drawn - 1)


class Task(object):
    def __init__(self, t, n, ctx):
        from menpofit.visualize import print_progress
        self.t, self.name, self.ctx = t, n, ctx
        items = [('item', k) for k in range(t['n'])]
        if t.get('odd') and t['source'] not in ('dict', 'endless'):
            # items that count as false, or are no values at all
            items = [(None, 0, '', (), False, 'item')[
                (k + t['n']) % 6] for k in range(t['n'])]
        self.exc = faults.EXC[t['exc']]('source %d' % n) if 'exc' in t \
            else None
        self.stream = None
        src = t['source']
        if src in ('stream', 'gen'):
            self.stream = Stream(items, t.get('fail'), self.exc)
        elif src == 'sized':
            self.stream = Sized(items, t.get('fail'), self.exc)
        elif src == 'endless':
            self.stream = Endless(items, None, None)
        self.closed = [False]

        def through(s):
            try:
                for x in s:
                    yield x
            finally:
                self.closed[0] = True
        data = {'list': lambda: list(items), 'tuple': lambda: tuple(items),
                'gen': lambda: through(self.stream),
                'array': lambda: np.arange(t['n']),
                'range': lambda: range(t['n']),
                'dict': lambda: dict.fromkeys(items, 1),
                }.get(src, lambda: self.stream)()
        self.items = list(range(t['n'])) if src in ('array', 'range') \
            else items
        if src == 'endless':
            self.items = [('item', k) for k in range(40)]
        kw = dict(t['options'])
        if t['n_items']:
            kw['n_items'] = max(0, len(self.items) + kw.get('offset', 0) +
                                t['more'])
        size = kw.get('n_items')
        if t.get('nested'):
            # the inner one reports, too
            self.it = print_progress(
                print_progress(data, verbose=t['verbose'], **kw),
                verbose=t['verbose'],
                n_items=size or max(1, len(self.items)))
        else:
            self.it = print_progress(data, verbose=t['verbose'], **kw)
        if iter(self.it) is not self.it:
            self.it = iter(self.it)
        self.got = 0
        self.done = False

    def bad(self, kind, text):
        self.ctx.violate(kind, 'task %d of %s (%s): %s' % (
            self.name, self.t, 'shown' if self.t['verbose'] else 'silent',
            text))

    def drawn(self):
        # before the first item nothing may be drawn
        return self.stream.drawn if self.stream is not None else None

    def lazy(self):
        d = self.drawn()
        if d is not None and d != self.got:
            self.bad('not lazy', '%d items were drawn for the %d that were '
                     'asked for' % (d, self.got))

    def step(self):
        """One operation of the consumer."""
        t, ctx = self.t, self.ctx
        self.lazy()
        if self.got >= t['takes']:
            self.finish()
            return
        try:
            x = next(self.it)
            r = ('item', x)
        except StopIteration:
            r = ('stop',)
        except (Exception, KeyboardInterrupt) as e:
            r = ('exc', e)
        fail = t.get('fail')
        ctx.log(self.name, r[0] if r[0] != 'exc' else type(r[1]).__name__)
        if fail is not None and self.got == fail:
            ctx.fault('source: ' + t['exc'])
            if r != ('exc', self.exc):
                self.bad('error lost', 'the source raised %r, the consumer '
                         'got %r' % (self.exc, r))
            self.done = True
            self.after()
            return
        if self.got >= len(self.items):
            if r != ('stop',):
                self.bad('end', 'after the last item the consumer got %r' %
                         (r,))
            self.done = True
            self.after()
            return
        want = self.items[self.got]
        if r[0] != 'item' or not (r[1] is want or r[1] == want):
            self.bad('items', 'item %d is %r instead of %r' % (
                self.got, r, want))
        if t['source'] in ('list', 'tuple', 'stream', 'gen', 'sized') and \
                r[1] is not want:
            self.bad('items', 'item %d is a copy' % self.got)
        self.got += 1
        ctx.count('items')
        self.lazy()

    def after(self):
        """The iterator has ended: it stays so."""
        for _ in range(2):
            try:
                x = next(self.it)
            except StopIteration:
                continue
            except (Exception, KeyboardInterrupt) as e:
                x = e
            self.bad('end', 'an iterator that ended goes on with %r' % (x,))
        if self.stream is not None and self.stream.drawn > self.got:
            self.bad('not lazy', 'drawn after the end')

    def finish(self):
        end = self.t['end']
        self.done = True
        self.ctx.fault('consumer: ' + end)
        d = self.drawn()
        if end == 'throw':
            e = faults.EXC[self.t.get('throws', 'memory')]('consumer')
            try:
                self.it.throw(e)
                self.bad('error lost', 'an error of the consumer is '
                         'swallowed')
            except (Exception, KeyboardInterrupt) as g:
                if g is not e:
                    self.bad('error lost', 'an error of the consumer '
                             'becomes %r' % (g,))
            # tracebacks keep the frames alive
            e.__traceback__ = None
            e = g = None
            self.after()
        elif end == 'close':
            try:
                self.it.close()
            except BaseException as g:
                self.bad('close', 'closing raises %r' % (g,))
            self.after()
        elif end == 'again':
            # a consumer that stops and later goes on
            if self.got < len(self.items) and self.t.get('fail') is None:
                x = next(self.it)
                if x != self.items[self.got]:
                    self.bad('items', 'going on gives %r' % (x,))
                self.got += 1
                self.lazy()
            self.it.close()
            return
        self.it = None
        if d is not None and self.drawn() != d:
            self.bad('not lazy', 'items are drawn although the consumer has '
                     'stopped')
        if self.t['source'] == 'gen' and self.got and not self.closed[0]:
            gc.collect()
        if self.t['source'] == 'gen' and self.got and not self.closed[0] \
                and end != 'throw':
            self.bad('close', 'the source is not closed')


def run_iter(sc, ctx):
    from .. import rng as R
    out = io.StringIO()
    old = sys.stdout
    c = clock.Clock(sc['clock'], sc['clock_seed'])
    order = R.make('order', sc['order'])
    sys.stdout = out
    try:
        with c:
            tasks = []
            for n, t in enumerate(sc['ops']):
                tasks.append(Task(t, n, ctx))
                ctx.state(t['source'], t['end'], sc['clock'], t['verbose'],
                          t.get('fail') is not None)
            live = list(tasks)
            while live:
                t = order.choice(live)
                t.step()
                if t.done:
                    live.remove(t)
    finally:
        sys.stdout = old
    ctx.sim_time = c.span
    ctx.fault('clock: ' + sc['clock'])
    if not any(t['verbose'] for t in sc['ops']) and out.getvalue():
        ctx.violate('output', 'silent iterators write %r' % (
            out.getvalue()[:100],))


# ---------------------------------------------------------------- trainings

def play(sc, verbose):
    out = []
    clk = clock.Clock(sc['clock'], sc['clock_seed'])
    real = sys.stdout
    sys.stdout = buf = io.StringIO()
    try:
        with clk if verbose else io.StringIO():
            if 'fitter' in sc:
                play_fitter(sc, verbose, out)
            else:
                play_model(sc, verbose, out)
    finally:
        sys.stdout = real
    return out, clk.span, len(buf.getvalue()), clk.reads


def guarded(fn, hook, exc):
    """(outcome, number of callback calls)"""
    n = [0]

    def h(name):
        n[0] += 1
        if n[0] == hook:
            raise faults.EXC[exc]('injected in ' + name)
    feats.set_hook(h)
    try:
        r = ('ok', fn())
    except (Exception, KeyboardInterrupt) as e:
        r = ('exc', type(e).__name__, str(e)[:200])
    finally:
        feats.set_hook(None)
    return r, n[0]


def play_fitter(sc, verbose, out):
    s = sc['fitter']
    np.random.seed(s['np_seed'] % (2 ** 32))
    v = dict(verbose=True) if verbose else {}
    got = []

    def train():
        model = None
        if 'model' in s:
            model = zoo.build_model(s['model'], **v)
        got.append(model)
        got.append(zoo.fitter_from(s, model, None, **v))
    r, n = guarded(train, sc.get('hook'), sc.get('exc'))
    out.append(('train', r[:2] if r[0] == 'exc' else r[0], n, c10.nprs(),
                c10.describe(*got) if len(got) == 2 else None))
    if len(got) < 2:
        return
    for op in sc['ops']:
        ims = zoo.test_images(s)
        out.append(('fit', common.outcome(
            lambda: snap.result(zoo.do_fit(got[1], s, op, ims))), 0,
            c10.nprs(), None))


def play_model(sc, verbose, out):
    m = sc['model']
    v = dict(verbose=True) if verbose else {}
    cls = zoo.model_cls(m)
    obj = cls.__new__(cls)
    np.random.seed(5)
    for op in sc['ops']:
        b = op.get('batch')
        src = c06.Source(lambda i: c06.element(m, op, i), op['n'],
                         op.get('end', 'stop'))
        k = zoo.model_kwargs(m) if op['op'] == 'train' else \
            c06.inc_kw(m, op)
        if op['whole']:
            data = [c06.element(m, op, i) for i in range(op['n'])]
        else:
            data = src
            k['batch_size'] = b
        k.update(v)
        call = obj.__init__ if op['op'] == 'train' else obj.increment
        r, n = guarded(lambda: call(*c06.pos(m, data), **k) and None,
                       op['hook'], op['exc'])
        st = common.outcome(lambda: snap.model(obj))
        out.append((op['op'], r, (n, src.drawn), c10.nprs(), st))
        if st[0] != 'ok':
            return


def run_train(sc, ctx):
    s = sc.get('fitter')
    lab = common.label(s) if s else 'model %s/%s' % (
        sc['model']['family'], sc['model'].get('variant', ''))
    fam = s['family'] if s else sc['model']['family']
    ref = faults.isolated(lambda: play(sc, False), 60.)
    got = faults.isolated(lambda: play(sc, True), 60.)
    for x in (ref, got):
        if x[0] == 'died' and x[1] == 'timeout':
            raise Skip('died: timeout')
    if ref[0] != 'ok' or got[0] != 'ok':
        ctx.violate('dies:' + fam, '%s: silent %s, verbose %s' % (
            lab, ref[0] == 'ok' or ref, got[0] == 'ok' or got))
    ref, _, written, _ = ref[1]
    got, span, _, reads = got[1]
    ctx.sim_time = span
    ctx.fault('clock: ' + sc['clock'])
    ctx.log(lab, [(o[0], o[1][:2] if isinstance(o[1], tuple) and
                   o[1][0] == 'exc' else 'ok', o[2]) for o in ref])
    if written:
        ctx.violate('output:' + fam, '%s: a silent training writes' % lab)
    if len(ref) != len(got):
        ctx.violate('verbose:' + fam, '%s: silently %s, verbosely %s' % (
            lab, [o[:2] for o in ref][-1:], [o[:2] for o in got][-1:]))
    for n, (a, b) in enumerate(zip(ref, got)):
        op = sc['ops'][n] if n < len(sc['ops']) else {}
        hook = sc.get('hook') if s else op.get('hook')
        if hook and a[2] and (a[2] if s else a[2][0]) >= hook:
            ctx.fault('%s in a callback' % (sc.get('exc') or op.get('exc')))
        if not s and not op['whole'] and op['end'] != 'stop':
            ctx.fault('stream: ' + op['end'])
        ctx.state(lab, a[0], hook, op.get('end'), sc['clock'])
        ctx.count('compared ' + a[0])
        if a[0] != 'fit':
            if a[1] != b[1]:
                ctx.violate('verbose:' + fam, '%s: %s: silently %s, '
                            'verbosely %s' % (lab, a[0], a[1], b[1]))
            if a[2] != b[2]:
                ctx.violate('calls:' + fam, '%s: %s: silently %s callback '
                            'calls and elements, verbosely %s' % (
                                lab, a[0], a[2], b[2]))
            d = snap.diff(a[4], b[4], 1e-9, 1e-8)
        else:
            d = common.compare_fits(a[1], b[1], None, 1e-8, 1e-8)
            if d and common.wild(a[1]):
                d = None
        if d and shaky(sc, ref):
            raise Skip('the training amplifies rounding errors')
        if d:
            ctx.violate('verbose:' + fam, '%s: %s: silent / verbose: %s' % (
                lab, a[0], d))
        if a[3] != b[3]:
            ctx.violate('draws:' + fam, '%s: %s: verbose training leaves '
                        'another random state' % (lab, a[0]))


def shaky(sc, ref):
    real = world.image

    def shaken(*a, **k):
        im = real(*a, **k)
        r = np.random.RandomState(3)
        im.pixels = im.pixels * (1. + 1e-14 * r.randn(*im.pixels.shape))
        return im

    def go():
        world.image = shaken
        return play(sc, False)[0]
    r = faults.isolated(go)
    if r[0] != 'ok':
        return True
    for a, b in zip(ref, r[1]):
        if snap.diff(a[4], b[4], 1e-10, 1e-9):
            return True
        if a[0] == 'fit' and (a[1][0] != b[1][0] or snap.diff(
                a[1], b[1], 1e-9, 1e-9)):
            return True
    return False


def run(sc, ctx):
    (run_iter if sc['kind'] == 'iter' else run_train)(sc, ctx)


def simplify(sc):
    import json
    out = []
    if 'fitter' in sc:
        out += common.simplify_fitter(sc)
    for f in (dict(clock='smooth'), dict(hook=None)):
        if any(sc.get(k) not in (None, v) for k, v in f.items()):
            out.append(dict(sc, **f))
    for i, o in enumerate(sc['ops']):
        for k, v in (('options', {}), ('nested', False), ('more', 0),
                     ('hook', None)):
            if o.get(k):
                c = json.loads(json.dumps(sc))
                c['ops'][i][k] = v
                out.append(c)
    return out
