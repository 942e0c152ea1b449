"""R04: whatever cannot be sent affects at most its own batch."""
import socket
from mc.lib import *
from mc.rep import Rig
from mc import startspan as S

RULE = ('every placement of unusual spans and send faults in a stream of batches, and every pair of unusual values; '
        'distinct by (position, kind) sets; every datagram is decoded and compared span by span')
BOUNDS = ('streams of 4-7 spans in batches of 1-3 with 2 deviations (3 thorough) out of 37 unusual spans and 12 faults; '
          'every ordered pair of unusual spans in neighbouring batches')
ASSUMPTIONS = ['metrics backends do not raise']

HUGE = 70000


class BadStr(object):
    def __str__(self):
        raise RuntimeError('no str')
    __repr__ = __str__


class WeirdStr(object):
    def __str__(self):
        return 'x\udc80y'


class NotStr(object):
    def __str__(self):
        return 42           # str() raises TypeError


class Unprintable(Exception):
    def __str__(self):
        raise self


class WorstStr(object):
    def __str__(self):
        raise Unprintable()
    __repr__ = __str__


class traceback(object):
    pass


class IntSub(int):
    def __str__(self):
        return 'sub'


class FloatSub(float):
    pass


def tb():
    try:
        raise ValueError('for its traceback')
    except ValueError as e:
        return e.__traceback__


# name -> (how, may the batch be lost?)
UNUSUAL = {
    'surrogate-value': (lambda r, s: s.set_tag('k', '\ud800'), False),
    'surrogate-key': (lambda r, s: s.set_tag('k\udfff', 'v'), False),
    'bad-str': (lambda r, s: s.set_tag('k', BadStr()), False),
    'bad-key': (lambda r, s: s.set_tag(BadStr(), 1), False),
    'weird-str': (lambda r, s: s.set_tag('k', WeirdStr()), False),
    'worst-str': (lambda r, s: s.set_tag('k', WorstStr()), False),
    'worst-log': (lambda r, s: s.log_kv({WorstStr(): WorstStr()}), False),
    'namesake': (lambda r, s: (s.set_tag('k', traceback()), s.log_kv({'e': traceback}))[0], False),
    'not-str': (lambda r, s: s.set_tag('k', NotStr()), False),
    'huge-int': (lambda r, s: s.set_tag('k', 1 << 63), False),
    'huge-neg': (lambda r, s: s.set_tag('k', -(1 << 63) - 1), False),
    'int-key': (lambda r, s: s.set_tag(7, 8), False),
    'none-key': (lambda r, s: s.set_tag(None, None), False),
    'int-sub': (lambda r, s: s.set_tag('k', IntSub(1 << 70)), False),
    'nan': (lambda r, s: s.set_tag('k', float('nan')), False),
    'inf': (lambda r, s: s.set_tag('k', FloatSub('-inf')), False),
    'bytes': (lambda r, s: s.set_tag('k', b'\xff\x00'), False),
    'container': (lambda r, s: s.set_tag('k', {'a': [1, {2: b'\xff'}]}), False),
    'traceback': (lambda r, s: s.set_tag('k', tb()), False),
    'log-surrogate': (lambda r, s: s.log_kv({'e\ud800': '\udfff', 'n': 1 << 64}), False),
    'log-mixed': (lambda r, s: s.log_kv({'b': 1, 2: 3, None: 'x', b'c': [], 1.5: {}, ('t',): None}), False),
    'log-bad': (lambda r, s: s.log_kv({'e': BadStr()}), False),
    'log-huge-time': (lambda r, s: s.log_kv({'e': 1}, timestamp=1e13), True),
    'log-payload': (lambda r, s: s.log_event('e', payload={'\ud800': object()}), False),
    'baggage': (lambda r, s: s.set_baggage_item('k', 'v\ud800'), False),
    'op-surrogate': (lambda r, s: s.set_operation_name('op\ud8ff'), False),
    'op-none': (lambda r, s: s.set_operation_name(None), False),
    'op-int': (lambda r, s: s.set_operation_name(5), False),
    'op-bad': (lambda r, s: s.set_operation_name(BadStr()), False),
    'end-nan': (lambda r, s: ('finish', float('nan')), True),
    'end-inf': (lambda r, s: ('finish', float('inf')), True),
    'end-huge': (lambda r, s: ('finish', 1e14), True),
    'start-nan': (lambda r, s: ('start', float('nan')), True),
    'start-neg': (lambda r, s: ('start', -1e14), True),
    'too-big': (lambda r, s: [s.set_tag('k%d' % i, 'x' * 1000) for i in range(HUGE // 1000)], True),
    'ref-debug': (lambda r, s: ('ref', 'debug'), False),
    'ref-baggage': (lambda r, s: ('ref', 'baggage'), False),
    'ref-zero': (lambda r, s: ('ref', 'zero'), False),
}
KINDS = list(UNUSUAL)
FAULTS = [OSError(111, 'Connection refused'), OSError(90, 'Message too long'), OSError(11, 'EAGAIN'),
          socket.gaierror(-2, 'Name or service not known'), RuntimeError('weird'), UnicodeError('label too long'),
          KeyError('k'), socket.timeout('timed out'), PermissionError(1, 'Operation not permitted'),
          BlockingIOError(11, 'would block'), OSError(), OSError(101, 'Network is unreachable')]


def text(e):
    try:
        return str(e)
    except Exception:
        return 'unprintable'


def emit(r, i, kind):
    """Report the i-th span; it must come through whatever happens around it."""
    from opentracing import follows_from
    from jaeger_client import SpanContext
    x = r.x
    how, lossy = UNUSUAL[kind] if kind else (None, False)
    kw, end = {}, None
    try:
        probe = how(r, Probe()) if how else None
        if isinstance(probe, tuple):
            if probe[0] == 'start':
                kw['start_time'] = probe[1]
            elif probe[0] == 'finish':
                end = probe[1]
            else:
                c = {'debug': SpanContext.with_debug_id('dbg'), 'baggage': SpanContext(None, None, None, 0, {'a': 'b'}),
                     'zero': SpanContext(0, 0, 0, 0)}[probe[1]]
                kw['references'] = [follows_from(c), follows_from(SpanContext(5, 6, 0, 1))]
            how = None
        s = r.tr.start_span('s%d' % i, tags={'i': i}, **kw)
        if how:
            how(r, s)
        s.set_tag('last', i)
        s.finish(end) if end is not None else s.finish()
    except Exception as e:
        x.fail('span %d (%s): a tracing call raised %s: %s' % (i, kind, type(e).__name__, text(e)))
    r.reported.append(i)
    return lossy


class Probe(object):
    """Accepts everything, to tell what kind of recipe it is."""
    def __getattr__(self, n):
        return lambda *a, **k: None


def ident(s):
    d = [v for k, t, v in s['tags'] if k == 'i']
    return d[0] if d else None


def judge(x, r, lossy, failed_sends, what):
    """Everything arrives in order and intact, except batches with lossy spans or failed sends."""
    what = str(what)
    bs = batches(x)
    got = []
    for b in bs:
        x.eq((b['service'], [t for t in b['tags'] if t[0] == 'p']), ('svc', [('p', 'str', 'q')]), '%s: process' % what)
        for s in b['spans']:
            i = ident(s)
            x.check(i is not None, '%s: a span without its tags arrived: %r' % (what, s))
            x.eq([v for k, t, v in s['tags'] if k == 'last'], [i], '%s: tags of span %d' % (what, i))
            got.append(i)
    x.eq(got, sorted(set(got)), '%s: order of the spans received' % what)
    n = len(r.reported)
    chunks = [list(range(a, min(a + r.batch, n))) for a in range(0, n, r.batch)]
    lost = []
    for k, c in enumerate(chunks):
        if failed_sends is not None and k in failed_sends:
            lost += c
        elif any(i in lossy for i in c):
            lost += [i for i in c if i not in got]
            x.check(all(i in got for i in c) or not any(i in got for i in c), '%s: half of batch %r arrived' % (what, c))
    x.eq(got, [i for i in range(n) if i not in lost], '%s: spans received' % what)
    x.eq((r.ok, r.err, r.dropped), (n - len(lost), len(lost), 0), '%s: counters ok/err/dropped' % what)


def stream(x, batch, n):
    r = rig(x, batch)
    w = x.world
    sends = [0]
    failed = set()
    kinds = []
    plan = {}

    def on_send(data, addr):
        # the k-th batch that reaches the socket
        f = x.choose(len(FAULTS) + 1, cost=1)
        sends[0] += 1
        if f:
            first = ident(batches(x, [(data, addr)])[0]['spans'][0])
            failed.add(first // batch)
            plan[first // batch] = f
            raise FAULTS[f - 1]
    w.net.on_send = on_send
    lossy = set()
    for i in range(n):
        k = x.choose(len(KINDS) + 1, cost=1)
        kind = KINDS[k - 1] if k else None
        kinds.append(kind)
        if emit(r, i, kind):
            lossy.add(i)
        if (i + 1) % batch == 0:
            w.run_ready()
    f = r.tr.close()
    w.advance(3)
    x.check(f.done(), 'close() incomplete')
    judge(x, r, lossy, failed, [(i, k) for i, k in enumerate(kinds) if k] + sorted(plan.items()))
    x.state(tuple(kinds) + tuple(sorted(plan.items())))
    x.case()


def rig(x, batch, **kw):
    r = Rig(x, 100, batch, 1)
    r.tr = tracer(x, r.rep, S.ScriptSampler([True]), tags={'p': 'q'}, **kw)
    return r


def pairs(x, same):
    """Two unusual spans in one batch or in neighbouring ones, the second batch full of ordinary spans as well."""
    a, b = x.pick(KINDS), x.pick(KINDS)
    r = rig(x, 4 if same else 2)
    lossy = set()
    order = [None, a, b, None, None, None] if not same else [a, b, None, None, None, None]
    for i, k in enumerate(order):
        if emit(r, i, k):
            lossy.add(i)
    x.world.advance(2)
    judge(x, r, lossy, None, (a, b))
    x.state((same, a, b))
    x.case()


def odd_tb():
    # through a file and a function whose names cannot be encoded
    try:
        exec(compile('raise ValueError(1)', 'dir/\udc80.py', 'exec'), {'__name__': 'n'})
    except ValueError as e:
        return e.__traceback__


KEYS = ['plain', 'k\ud800', '\udcff' * 3, '', 'é\U0001f600', 'a\x00b', 7, None, True, 2.5, b'\xff', (1,), BadStr(), WorstStr(), WeirdStr(), NotStr(), IntSub(3)]
VALUES = [True, False, 0, -1, (1 << 63) - 1, -(1 << 63), 1 << 63, -(1 << 63) - 1, 1 << 9000, IntSub(4), IntSub(1 << 66), 1.5, float('inf'), 'v', 'v\ud800',
          '', 'a\x00b', None, b'\xff', [], ['\ud800'], {}, BadStr(), WorstStr(), WeirdStr(), NotStr(), ValueError('\udc00'), tb(), odd_tb(), object()]


def clean(s):
    return s.encode('utf-8', 'replace').decode('utf-8')


def shown(v):
    """The text in which v is sent, or None if that is not determined."""
    try:
        t = str(v)
    except Exception:
        return None
    if hasattr(v, 'tb_frame') or type(v) is object:
        return None
    return clean(t)[:1024]


def product(x):
    """Every unusual key with every unusual value, in every place where they may be recorded."""
    where = x.pick(['tag', 'start tag', 'log', 'log and tag', 'process'])
    k = KEYS[x.choose(len(KEYS))]
    for i, v in enumerate(VALUES):
        if where == 'process':
            r = Rig(x, 100, 1, 1)
            r.tr = tracer(x, r.rep, S.ScriptSampler([True]), tags={'p': 'q', k: v})
        elif i == 0:
            r = rig(x, 1)
        what = '%s with key %s and value %s' % (where, text(k).encode('ascii', 'replace'), type(v).__name__)
        try:
            if where == 'start tag':
                s = r.tr.start_span('s', tags={k: v})
            else:
                s = r.tr.start_span('s')
            if 'tag' in where and where != 'start tag':
                s.set_tag(k, v)
            if 'log' in where:
                s.log_kv({k: v}, timestamp=5.0)
            s.set_tag('last', i)
            s.finish()
        except Exception as e:
            x.fail('%s: a tracing call raised %s: %s' % (what, type(e).__name__, text(e)))
        x.world.run_ready()
        bs = batches(x)[-1:]
        x.check(bs and ('last', 'long', i) in bs[0]['spans'][0]['tags'], '%s: the span was not received' % what)
        b, sp = bs[0], bs[0]['spans'][0]
        got = {'tag': [sp['tags']], 'start tag': [sp['tags']], 'log': [l[1] for l in sp['logs']],
               'log and tag': [sp['tags']] + [l[1] for l in sp['logs']], 'process': [b['tags']]}[where]
        x.eq(len(got), 2 if where == 'log and tag' else 1, what + ': places')
        for tags in got:
            tags = [t for t in tags if t[0] not in ('last', 'sampler.type', 'sampler.param', 'p', 'jaeger.version', 'ip', 'hostname')]
            x.eq(len(tags), 1, what + ': tags %r' % (tags,))
            key, typ, val = tags[0]
            x.check(isinstance(key, str) and shown(k) in (None, key[:1024]), what + ': sent with key %r' % key)
            if isinstance(v, bool):
                want = ('bool', v)
            elif isinstance(v, int) and -(1 << 63) <= v < 1 << 63:
                want = ('long', int(v))
            elif isinstance(v, float):
                want = ('double', v)
            else:
                want = ('str', shown(v))
            x.check(typ == want[0] and want[1] in (None, val), what + ': sent as %s %r' % (typ, val))
            x.check(typ != 'str' or isinstance(val, str) and (val or v == ''), what + ': sent in a form that cannot be read')
        x.case()
        x.state((where, text(k), i))
    x.eq((r.err, r.dropped), (0, 0), 'failed and dropped')


def process(x):
    """Odd service names and process tags do not prevent reporting."""
    from jaeger_client.reporter import Reporter
    svc = x.pick(['svc', 'svc\ud800', 'x' * 70])
    vals = {'surrogate': '\udfff', 'bad': BadStr(), 'huge': 1 << 70, 'none': None, 'bytes': b'\xff', 'nan': float('nan'),
            'long': 'y' * 5000, 'list': [1], 'tb': tb()}
    k = x.pick(list(vals))
    key = x.pick(['p1', 'p\ud800', 7, None])
    r = Rig(x, 10, 2, 1)
    r.tr = tracer(x, r.rep, S.ScriptSampler([True]), service_name=svc, tags={key: vals[k], 'p': 'q'})
    for i in range(3):
        r.report()
    x.world.advance(2)
    x.eq(r.received(), r.reported, '%r %r %r: spans received' % (svc, key, k))
    for b in batches(x):
        x.check(('p', 'str', 'q') in b['tags'], 'process tags')
    x.case()


def unresolved(x):
    """An agent that cannot be resolved or reached at first."""
    w = x.world
    up = [False]
    err = x.pick([socket.gaierror(-2, 'x'), socket.gaierror(-3, 'again')])

    def on_resolve(host, port):
        raise err
    w.net.on_resolve = on_resolve
    bad = x.pick([0, 1, 2, 3])

    def on_send(data, addr):
        if len(w.net.attempts) <= bad:
            raise err
    w.net.on_send = on_send
    r = rig(x, 1)
    for i in range(4):
        emit(r, i, None)
        w.advance(0.1)
    judge(x, r, set(), set(range(bad)), 'unresolved for %d' % bad)
    x.case()


def pump(x):
    """A long outage: whatever failed and however often, the next batches arrive."""
    batch = x.pick([1, 3])
    f = x.choose(len(FAULTS) + 2)
    n = x.pick([9, 60, 300])
    r = rig(x, batch)
    w = x.world
    out = [True]

    def on_send(data, addr):
        if out[0] and f < len(FAULTS):
            raise FAULTS[f]
    w.net.on_send = on_send
    failed = 0
    for rnd in range(2):
        out[0] = True
        for i in range(n * batch):
            s = r.tr.start_span('lost')
            if f >= len(FAULTS):
                # cannot be encoded, or does not fit into a datagram
                if f == len(FAULTS):
                    s.start_time = None
                else:
                    for j in range(80):
                        s.set_tag('big', 'x' * 1024)
            s.finish(s.end_time or (1.0 if s.start_time is None else None))
            w.run_ready()
        failed += n * batch
        x.eq((r.err, r.ok), (failed, 7 * batch * rnd), 'fault %d, %d batches of %d: failed and delivered' % (f, n, batch))
        out[0] = False
        for i in range(7 * batch):
            r.report('r%d-%d' % (rnd, i))
            w.run_ready()
        x.eq((r.err, r.ok, r.dropped), (failed, 7 * batch * (rnd + 1), 0), 'fault %d, after %d failed batches of %d: failed, delivered, dropped' % (f, n, batch))
        x.eq(r.received(), [o for q in range(rnd + 1) for o in ['r%d-%d' % (q, i) for i in range(7 * batch)]], 'fault %d, after %d failed batches of %d: received' % (f, n, batch))
    x.case()
    x.state((batch, f, n))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('stream-%d' % b, stream, bound=3 if t and b == 2 else 2, params={'batch': b, 'n': n})
           for b, n in (((1, 4), (2, 6), (3, 7)) if t else ((1, 4), (2, 6)))]
    return [Scenario('pump', pump)] + out + [Scenario('pairs-apart', pairs, params={'same': False}), Scenario('pairs-same', pairs, params={'same': True}),
                  Scenario('process', process), Scenario('product', product), Scenario('unresolved', unresolved)]
