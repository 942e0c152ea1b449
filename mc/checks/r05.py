"""R05: the agent receives exactly what was recorded, in the documented encoding."""
import math
import traceback
from mc.lib import *
from mc.rep import Rig
from mc import startspan as S, env

RULE = ('every combination of trace ID, parent ID, span ID and flags; every start/finish time pair; every tag and log value '
        'under every length limit; every sequence of tag/log/update operations; every reference list; distinct by expected span')
BOUNDS = ('IDs: 9 x 6 x 6 x 4; times: 9 x 9; values: 36 x 5 limits, all ordered pairs; operation sequences of length 4 '
          '(5 thorough); reference lists of <= 3; process: 4 names x 4 tag sets x 2')

M63, M64 = 1 << 63, (1 << 64) - 1
TRACE = [1, 0xabc, M63 - 1, M63, M64, 1 << 64, (1 << 127) + 5, (1 << 128) - 1, (M63 << 64) | M63]
IDS = [1, M63 - 1, M63, M64, 0x0123456789abcdef, 1 << 32]
PAR = [None, 1, M63 - 1, M63, M64, 77]


class Obj(object):
    def __str__(self):
        return 'obj'


class Bad(object):
    def __str__(self):
        raise ValueError('bad str')


class I(int):
    pass


class F(float):
    pass


class St(str):
    pass


def a_traceback():
    try:
        raise ValueError('v')
    except ValueError as e:
        return e.__traceback__


TB = a_traceback()
VALUES = ['', 'v', 'ab    \t\n   cd ', ' \n lead', 'äöü€', '\U0001f600' * 3, 'x' * 20, 'x' * 1024, 'x' * 1025, St('sub'), 'a\x00b', 0, 1, -1, 127, 128, 16383,
          16384, 1 << 31, M63 - 1, -M63, M63, -M63 - 1, 1 << 100, I(5), True, False, 0.0, -0.0, 1.5, float('inf'), float('nan'),
          F(2.5), 1e308, 5e-324, None, b'\xff\x00', [1, 'a'], {'k': 1}, Obj(), Bad(), TB, 'sur\ud800r', 3 + 4j, (), 'true', '1']
KEYS = ['k', '', 'ä' * 10, 'k' * 2000, 'sampling.priorit', 'span.kind', 'error', 'k\udfff', 5, None, True]


def text(v):
    try:
        s = str(v)
    except Exception as e:
        s = str(e)
    return ''.join('?' if 0xd800 <= ord(c) <= 0xdfff else c for c in s)


def expect_tag(k, v, limit, tb_limit=4096):
    """-> (key, type, value) as the agent must see it"""
    key = text(k)
    if isinstance(v, bool):
        return (key, 'bool', v)
    if isinstance(v, int) and -M63 <= v < M63:
        return (key, 'long', int(v))
    if isinstance(v, float):
        return (key, 'double', float(v))
    if type(v).__name__ == 'traceback':
        return (key, 'str', ''.join(traceback.format_tb(v))[:tb_limit])
    return (key, 'str', text(v)[:limit])


def same(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p[:2] != q[:2] or type(p[2]) is not type(q[2]):
            return False
        if isinstance(p[2], float):
            if not (p[2] == q[2] and math.copysign(1, p[2]) == math.copysign(1, q[2]) or p[2] != p[2] and q[2] != q[2]):
                return False
        elif p[2] != q[2]:
            return False
    return True


def eq_tags(x, got, want, what):
    if not same(got, want):
        for g, w in zip(got, want):
            if not same([g], [w]):
                x.fail('%s: received %s, recorded %s' % (what, repr(g)[:300], repr(w)[:300]))
        x.fail('%s: received %d, recorded %d: %s / %s' % (what, len(got), len(want), repr(got)[:400], repr(want)[:400]))


def micros(x, got, ts, what):
    x.check(isinstance(got, int) and abs(got - ts * 1e6) <= 1.0 + abs(ts * 1e6) * 2e-16,
            '%s: received %r us, recorded %r s' % (what, got, ts))


def flush(x, r):
    x.world.advance(2)
    out = [s for b in batches(x) for s in b['spans']]
    for s in out:
        s['tags'] = [t for t in s['tags'] if t[0] not in ('sampler.type', 'sampler.param')]
    return out


def rig(x, **kw):
    r = Rig(x, 1000, 10, 1)
    r.tr = tracer(x, r.rep, S.ScriptSampler([True]), **kw)
    return r


def ids(x):
    from jaeger_client import SpanContext
    t = x.pick(TRACE)
    mode = x.pick(['child', 'server', 'root'])
    want, spans = [], []
    if mode == 'root':
        for sid in IDS:
            r = rig(x, generate_128bit_trace_id=t > M64)
            script = [t, sid]
            env.rand.bits_hook = lambda n: (script.pop(0) if script else 7) & ((1 << n) - 1) or 7     # in whatever order they are drawn
            sp = r.tr.start_span('op')
            env.rand.bits_hook = None
            x.check(sp.trace_id > 0 and sp.span_id > 0, 'IDs of a root span')
            sp.finish()
            got = flush(x, r)[-1]
            x.eq((got['trace_id'], got['span_id'], got['parent_id'], got['flags']), (sp.trace_id, sp.span_id, 0, 1),
                 'IDs of a root span')
            want.append(sp.trace_id == t and sp.span_id == sid)
            x.case()
        x.outcome(all(want))
        return
    r = rig(x, one_span_per_rpc=mode == 'server')
    for p in PAR:
        for sid in IDS:
            for fl in (1, 3, 9, 255):
                c = SpanContext(t, sid, p, fl)
                sp = r.tr.start_span('op', child_of=c, tags={'span.kind': 'server'} if mode == 'server' else None)
                sp.finish()
                want.append((t, sp.span_id if mode == 'child' else sid, sid if mode == 'child' else p or 0, fl))
                x.case()
        x.world.advance(2)
    got = [(s['trace_id'], s['span_id'], s['parent_id'], s['flags']) for s in flush(x, r)]
    x.eq(len(got), len(want), 'spans received')
    for g, w in zip(got, want):
        x.eq(g, w, 'IDs (trace, span, parent, flags) received for parent trace %x, %s' % (t, mode))


TIMES = [1e-6, 0.5, 1.0, 1.000001, 1234567890.123456, 1600000000.999999, 1600000001.0, 4102444800.5, 253402300799.0]


def times(x):
    a = x.pick(TIMES + ['implicit'])
    b = x.pick(TIMES + ['implicit'])
    r = rig(x)
    w = x.world
    kw = {}
    t0 = env.clock.wall()
    if a != 'implicit':
        kw['start_time'] = t0 = a
    how = x.pick(['finish', 'with', 'scope', 'error'])
    start = x.pick(['span', 'active', 'child'])
    if start == 'span':
        s = r.tr.start_span('op', **kw)
    elif start == 'active':
        s = r.tr.start_active_span('op', finish_on_close=False, **kw).span
    else:
        # a child of spans that start and finish before and after it
        r.tr.start_active_span('outer', start_time=1000.5, finish_on_close=False)
        r.tr.start_active_span('inner', start_time=2000000000.25, finish_on_close=False)
        s = r.tr.start_active_span('op', finish_on_close=False, **kw).span
    env.clock.advance(2.25)
    s.log_kv({'e': 1})
    s.log_kv({'e': 2}, timestamp=a if a != 'implicit' else 7.25)
    l1 = env.clock.wall()
    env.clock.advance(1.5)
    t1 = env.clock.wall()
    if how == 'finish':
        if b == 'implicit':
            s.finish()
        else:
            s.finish(b)
            t1 = b
    elif b != 'implicit':
        return
    elif how == 'with':
        with s:
            env.clock.advance(0.125)
        t1 += 0.125
    elif how == 'scope':
        with r.tr.scope_manager.activate(s, True):
            env.clock.advance(0.125)
        t1 += 0.125
    else:
        try:
            with s:
                raise KeyError('k')
        except KeyError:
            pass
    env.clock.advance(10)
    s.finish(99)
    got = flush(x, r)
    x.eq(len(got), 1, 'spans received')
    g = got[0]
    micros(x, g['start'], t0, 'start time (%r, %r, %s)' % (a, b, how))
    micros(x, g['duration'], t1 - t0, 'duration (%r, %r, %s)' % (a, b, how))
    micros(x, g['logs'][0][0], l1, 'implicit log time')
    micros(x, g['logs'][1][0], a if a != 'implicit' else 7.25, 'explicit log time')
    x.state((a, b, how, start))
    x.case()


def values(x, pairs):
    limit = x.pick([1024, 0, 1, 5, 2000] if not pairs else [1024])
    tbl = x.pick([4096, 10] if not pairs else [4096])
    kw = {} if limit == 1024 else {'max_tag_value_length': limit}
    if tbl != 4096:
        kw['max_traceback_length'] = tbl
    r = rig(x, **kw)
    where = x.pick(['set_tag', 'start', 'log', 'mixed-log'])
    want = []
    combos = [(k, v) for k in (KEYS if limit == 1024 else KEYS[:2]) for v in VALUES] if not pairs else \
        [(a, b) for a in VALUES for b in VALUES]
    for k, v in combos:
        tags = [(k, v)] if not pairs else [('a', k), ('b', v)]
        exp = [expect_tag(p, q, limit, tbl) for p, q in tags]
        if where == 'start':
            s = r.tr.start_span('op', tags=dict(tags))
            exp_t, exp_l = exp, []
        else:
            s = r.tr.start_span('op')
            if where == 'set_tag':
                for p, q in tags:
                    s.set_tag(p, q)
                exp_t, exp_l = exp, []
            elif where == 'log':
                s.log_kv(dict(tags))
                exp_t, exp_l = [], [exp]
            else:
                s.log_kv({'first': 1})
                s.set_tag('t', 1)
                s.log_kv(dict(tags, last='z'))
                exp_t, exp_l = [('t', 'long', 1)], [[('first', 'long', 1)],
                                                    exp + [('last', 'str', 'z'[:limit])]]
        s.finish()
        want.append((exp_t, exp_l, repr(tags)[:200]))
        x.case()
        if len(want) % 10 == 0:
            x.world.advance(0.1)
    got = flush(x, r)
    x.eq(len(got), len(want), 'spans received')
    for g, (wt, wl, what) in zip(got, want):
        what = '%s under limit %d via %s' % (what, limit, where)
        eq_tags(x, g['tags'], wt, what)
        x.eq(len(g['logs']), len(wl), what + ': logs')
        for (_, gl), el in zip(g['logs'], wl):
            eq_tags(x, gl, el, what + ' (log)')
    x.state((limit, tbl, where))


def sequences(x, depth):
    """Order and completeness of tags, logs and updates, whatever is called in whatever order."""
    r = rig(x, max_tag_value_length=6)
    s = r.tr.start_span('op', tags={'z': 1, 'a': 2})
    tags = [('z', 'long', 1), ('a', 'long', 2)]
    logs, name, seq = [], 'op', []
    for n in range(depth):
        op = x.pick(['tag', 'same-tag', 'log', 'log0', 'event', 'payload', 'log-legacy', 'info', 'error', 'name', 'baggage',
                     'override', 'chain', 'exception'])
        seq.append(op)
        if op == 'tag':
            s.set_tag('t%d' % n, n)
            tags.append(('t%d' % n, 'long', n))
        elif op == 'same-tag':
            s.set_tag('same', 'long value')
            tags.append(('same', 'str', 'long v'))
        elif op == 'log':
            s.log_kv({'b': n, 'a': 'x'})
            logs.append([('b', 'long', n), ('a', 'str', 'x')])
        elif op == 'log0':
            s.log_kv({})
            logs.append([])
        elif op == 'event':
            s.log_event('happened')
            logs.append([('event', 'str', 'happen')])
        elif op == 'payload':
            s.log_event('ev', payload=n)
            logs.append([('event', 'str', 'ev'), ('payload', 'long', n)])
        elif op == 'log-legacy':
            s.log(event='ev', payload='p', timestamp=5)
            logs.append([('event', 'str', 'ev'), ('payload', 'str', 'p')])
        elif op == 'info':
            s.info('msg', 'pay')
            logs.append([('event', 'str', 'msg'), ('payload', 'str', 'pay')])
        elif op == 'error':
            s.error('msg')
            tags.append(('error', 'bool', True))
            logs.append([('event', 'str', 'msg')])
        elif op == 'name':
            name = 'name%d' % n
            s.set_operation_name(name)
        elif op == 'baggage':
            s.set_baggage_item('k%d' % n, 'v')
            logs.append([('event', 'str', 'baggag'), ('key', 'str', 'k%d' % n), ('value', 'str', 'v')])
        elif op == 'override':
            over = s.get_baggage_item('k') is not None
            s.set_baggage_item('k', 'w%d' % n)
            logs.append([('event', 'str', 'baggag'), ('key', 'str', 'k'), ('value', 'str', 'w%d' % n)]
                        + ([('override', 'str', 'true')] if over else []))
        elif op == 'chain':
            s.set_tag('c', 1.5).log_kv({'l': True}).set_operation_name('chain').set_tag('d', False)
            tags += [('c', 'double', 1.5), ('d', 'bool', False)]
            logs.append([('l', 'bool', True)])
            name = 'chain'
        else:
            # an exception inside a span: error tag and log, then the span is finished
            try:
                with r.tr.start_active_span('inner') as sc:
                    raise ValueError('boom')
            except ValueError:
                pass
    s.finish()
    got = [g for g in flush(x, r) if g['operation'] != 'inner']
    inner = [g for g in flush(x, r) if g['operation'] == 'inner']
    x.eq(len(inner), seq.count('exception'), '%s: spans closed by exceptions' % seq)
    for g in inner:
        x.check(('error', 'bool', True) in g['tags'] and len(g['logs']) == 1, '%s: error of the inner span: %r' % (seq, g))
    x.eq(len(got), 1, '%s: spans received' % seq)
    g = got[0]
    x.eq(g['operation'], name, '%s: operation' % seq)
    eq_tags(x, g['tags'], tags, '%s: tags' % seq)
    x.eq(len(g['logs']), len(logs), '%s: number of logs' % seq)
    for (_, gl), el in zip(g['logs'], logs):
        eq_tags(x, gl, el, '%s: log' % seq)
    x.state(tuple(seq))
    x.case()


def references(x):
    from opentracing import child_of, follows_from
    from jaeger_client import SpanContext
    r = rig(x)
    live = r.tr.start_span('live')
    kinds = ['c', 'f', 'c-wide', 'f-debug', 'f-none', 'f-live', 'c-same']
    n = x.choose(4)
    refs, want = [], []
    for _ in range(n):
        k = x.pick(kinds)
        ctx = {'c': SpanContext(11, 12, 13, 1), 'f': SpanContext(M64, M63, None, 1), 'c-wide': SpanContext((1 << 127) + 1, M64, 0, 1),
               'f-debug': SpanContext.with_debug_id('d'), 'f-none': None, 'f-live': live.context,
               'c-same': SpanContext(11, 12, 13, 1)}[k]
        refs.append((child_of if k[0] == 'c' else follows_from)(ctx))
        if k not in ('f-debug', 'f-none'):
            want.append(('child_of' if k[0] == 'c' else 'follows_from', ctx.trace_id, ctx.span_id))
    single = n == 1 and x.choose(2)
    co = x.pick(['none', 'context', 'span'])
    kw = {}
    if co != 'none':
        kw['child_of'] = live if co == 'span' else SpanContext(99, 98, 0, 1)
    s = r.tr.start_span('op', references=refs[0] if single else refs or None, **kw)
    s.finish()
    got = [g for g in flush(x, r) if g['operation'] == 'op']
    x.eq(len(got), 1, 'spans received')
    x.eq(got[0]['references'], want, 'references of a span with %r' % [(q.type, q.referenced_context) for q in refs])
    x.state((n, tuple(want), co))
    x.case()


def process(x):
    limit = x.pick([1024, 4])
    name = x.pick(['svc', 'service with ä', 'long-service-name' * 20])
    tags = x.pick([None, {}, {'b': 1, 'a': 'text', 'c': True, 'd': 1.5, 'e': None, 'f': 1 << 70, 'g': 'x' * 3000},
                   {'ip': '1.2.3.4', 'hostname': 'me', 'jaeger.version': 'mine', 'client-uuid': 'u'}])
    thr = x.pick([False, True])

    class T(object):
        def set_client_id(self, c):
            self.c = c

        def is_allowed(self, op):
            return True

        def close(self):
            pass
    throttler = T() if thr else None
    given = dict(tags) if tags is not None else None
    r = Rig(x, 100, 2, 1)
    r.tr = tracer(x, r.rep, S.ScriptSampler([True]), service_name=name, tags=tags, max_tag_value_length=limit,
                  throttler=throttler)
    x.eq(tags, given, 'tags given to the tracer')
    for _ in range(3):
        r.report()
    x.world.advance(2)
    from jaeger_client import constants
    want = dict({'jaeger.version': constants.JAEGER_CLIENT_VERSION, 'ip': '10.9.8.7', 'hostname': 'mc-host'}, **(tags or {}))
    if thr:
        want['client-uuid'] = throttler.c
    exp = sorted(expect_tag(k, v, limit) for k, v in want.items())
    bs = batches(x)
    x.eq(len(bs), 2, 'batches')
    for b in bs:
        x.eq(b['service'], name, 'service name')
        x.eq(sorted(b['tags']), exp, 'process tags')
    # set again, by a tracer that is made later with the same reporter or directly
    how = x.pick(['tracer', 'direct', 'same name', 'same tags'])
    n2 = name if how == 'same name' else 'other-' + name
    t2 = dict(tags or {}) if how == 'same tags' else {'other': 1}
    for again in (1, 2):
        if how == 'direct':
            r.rep.set_process(n2, dict(t2), limit)
            exp = [expect_tag(k, v, limit) for k, v in t2.items()]
        else:
            r.tr = tracer(x, r.rep, S.ScriptSampler([True]), service_name=n2, tags=t2, max_tag_value_length=limit)
            exp = [expect_tag(k, v, limit) for k, v in dict(
                {'jaeger.version': constants.JAEGER_CLIENT_VERSION, 'ip': '10.9.8.7', 'hostname': 'mc-host'}, **t2).items()]
        r.report()
        x.world.advance(2)
        bs = batches(x)[1 + again:]
        x.eq([b['service'] for b in bs], [n2], 'service name of the batch after the process was set again')
        x.eq(sorted(bs[0]['tags']), sorted(exp), 'tags of a process that was set again')
        n2 += '2'
        t2 = dict(t2, third=3)
    x.state((limit, name, repr(tags), thr, how))
    x.case()


def pump(x):
    """Many tags, logs, fields, references and process tags, long names and keys: all of it arrives."""
    from opentracing import child_of, follows_from
    from jaeger_client import SpanContext
    what = x.pick(['tags', 'same-tag', 'logs', 'fields', 'references', 'name', 'key', 'field-key', 'process', 'service', 'spans', 'nothing'])
    n = x.pick([14, 15, 16, 127, 128, 129, 300, 1100])
    kw = {}
    if what == 'process':
        kw['tags'] = {'p%d' % i: i for i in range(n)}
    if what == 'service':
        kw['service_name'] = 's' * n
    if what == 'spans':
        n = min(n, 300)
        r = Rig(x, 2000, n, 1)
        r.tr = tracer(x, r.rep, S.ScriptSampler([True]))
        for i in range(n):
            r.report('s%d' % i)
        x.world.advance(2)
        x.eq([len(b['spans']) for b in batches(x)], [n], 'spans of the batch')
        x.eq(r.received(), r.reported, 'spans')
        x.case(n)
        return
    r = rig(x, **kw)
    refs = None
    if what == 'references':
        refs = [(follows_from if i % 3 else child_of)(SpanContext(1000 + i, 1 + i, None, 1)) for i in range(n)]
    name = 'o' * n if what == 'name' else 'op'
    s = r.tr.start_span(name, references=refs)
    tags, logs = [], []
    if what in ('tags', 'same-tag'):
        for i in range(n):
            k = 't%d' % i if what == 'tags' else 't'
            s.set_tag(k, i)
            tags.append((k, 'long', i))
    elif what == 'key':
        s.set_tag('k' * n, 'v')
        s.set_tag('l' * n, 1)
        s.set_tag('m' * n, True)
        s.set_tag('n' * n, 1.5)
        tags = [('k' * n, 'str', 'v'), ('l' * n, 'long', 1), ('m' * n, 'bool', True), ('n' * n, 'double', 1.5)]
    elif what == 'logs':
        for i in range(n):
            s.log_kv({'i': i})
            logs.append([('i', 'long', i)])
    elif what == 'fields':
        s.log_kv({'f%d' % i: i for i in range(n)})
        logs.append([('f%d' % i, 'long', i) for i in range(n)])
    elif what == 'field-key':
        s.log_kv({'k' * n: 'v'})
        logs.append([('k' * n, 'str', 'v')])
    s.finish()
    g = flush(x, r)
    x.eq(len(g), 1, '%s x %d: spans received' % (what, n))
    g = g[0]
    x.eq(g['operation'], name, '%s x %d: operation' % (what, n))
    eq_tags(x, g['tags'], tags, '%s x %d: tags' % (what, n))
    x.eq([l for _, l in g['logs']], logs, '%s x %d: logs' % (what, n))
    x.eq(g['references'], [('follows_from' if i % 3 else 'child_of', 1000 + i, 1 + i) for i in range(n)] if refs else [], '%s x %d: references' % (what, n))
    b = batches(x)[0]
    if what == 'process':
        x.eq(sorted(t for t in b['tags'] if t[0][0] == 'p'), sorted([('p%d' % i, 'long', i) for i in range(n)]), 'process tags')
    if what == 'service':
        x.eq(b['service'], 's' * n, 'service name')
    x.case()
    x.state((what, n))


def several(x):
    """Reporters of several tracers in one program: every span goes out with the process, limits and agent of its own."""
    n = x.pick([2, 3])
    shared = x.pick(['nothing', 'sender'])
    late = bool(x.choose(2))
    again = x.pick([None] + list(range(n)))
    order = [x.choose(n) for _ in range(4)]
    ch = sender(x) if shared == 'sender' else None
    limits = [1024, 4, 7]
    reps = [reporter(x, ch or sender(x, reporting_port=6000 + i), queue_capacity=100, batch_size=2, flush_interval=1) for i in range(n)]
    names = ['svc%d' % i for i in range(n)]
    trs = [None] * n

    def make(i):
        trs[i] = tracer(x, reps[i], S.ScriptSampler([True]), service_name=names[i], tags={'no': i, 'long': 'abcdefghij'}, max_tag_value_length=limits[i])
    for i in range(n):
        if not late:
            make(i)
    want = {}
    for k, i in enumerate(order):
        if trs[i] is None:
            make(i)
        if k == 2 and again is not None:
            x.world.advance(3)
            names[again] = 'new%d' % again
            make(again)
        s = trs[i].start_span('s%d' % k)
        s.set_tag('t', 'abcdefghij')
        s.finish()
        want['s%d' % k] = (names[i], 6831 if ch else 6000 + i, 'abcdefghij'[:limits[i]], i)
        x.world.run_ready()
    x.world.advance(3)
    got = {}
    for data, addr in x.world.net.packets:
        b = wire.decode_batch(data)
        pt = dict((t[0], t[2]) for t in b['tags'])
        for sp in b['spans']:
            t = dict((t[0], t[2]) for t in sp['tags'])['t']
            x.check(sp['operation'] not in got, 'span %r sent twice' % sp['operation'])
            x.eq(pt['long'], t, 'limits of the process and of the span %r' % sp['operation'])
            got[sp['operation']] = (b['service'], addr[1], t, pt['no'])
    x.eq(got, want, 'service, agent port, text and tag of the process with each span')
    x.state((n, shared, late, again, tuple(order)))


def scenarios(tier):
    t = tier == 'thorough'
    return [Scenario('pump', pump)] + [Scenario('ids', ids), Scenario('times', times), Scenario('values', values, params={'pairs': False}),
            Scenario('value-pairs', values, params={'pairs': True}),
            Scenario('sequences', sequences, params={'depth': 5 if t else 4}), Scenario('references', references),
            Scenario('process', process), Scenario('several', several)]
