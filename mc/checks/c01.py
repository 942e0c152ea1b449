"""C01: a trace context injected into a carrier and extracted from it is the same context."""
from mc.lib import *
from mc import ctx as C
from mc import startspan as S

RULE = ('every context of the id x parent x flags x baggage alphabet through every format, and every sequence '
        'of formats on a path of services; distinct by (formats, context at every hop)')
BOUNDS = 'single hop: full alphabet, all 256 flag values; paths of 4 (5 thorough) services over 5 formats; 3 (4) changes of two spans between injections'


def verify(x, fmt, m, got, what):
    x.check(got is not None, '%s: nothing extracted' % what, context=m)
    want = C.after_hop(fmt, m)
    g = C.of(got)
    for k in ('trace', 'span', 'parent', 'flags', 'baggage'):
        x.eq(g[k], want[k], '%s: %s' % (what, k), sent=m)
    x.eq(got.debug_id, None, '%s: debug id' % what)


def one_hop(x):
    fmt = x.pick(C.FORMATS)
    bits = bool(x.choose(2))
    trace = x.pick(C.TRACE)
    f = C.formats()[fmt]
    tr = C.mk_tracer(x, bits)
    for span in C.SPAN:
        for parent in C.PARENT:
            for bag in C.bags(span, parent) + (C.BAG_BINARY if fmt == 'binary' else []):
                for flags in (0, 1, 2, 3, 8, 255):
                    m = dict(trace=trace, span=span, parent=parent, flags=flags, baggage=bag)
                    c = C.context(m)
                    car = C.empty(fmt)
                    tr.inject(c, f, car)
                    x.eq(C.of(c), m, 'inject changed the context')
                    copy = car.copy()
                    got = tr.extract(f, car)
                    x.eq(car, copy, 'extract changed the carrier')
                    verify(x, fmt, m, got, fmt)
                    x.case()
        x.state((fmt, bits, trace, span))


def all_flags(x):
    fmt = x.pick(C.FORMATS)
    f = C.formats()[fmt]
    tr = C.mk_tracer(x)
    for flags in range(256):
        for trace in (7, C.M128):
            m = dict(trace=trace, span=9, parent=None, flags=flags, baggage={})
            car = C.empty(fmt)
            tr.inject(C.context(m), f, car)
            verify(x, fmt, m, tr.extract(f, car), fmt)
            x.case()
        x.state((fmt, flags))


def surroundings(x):
    """Other entries of the carrier neither disturb nor are disturbed; a carrier can be re-used."""
    fmt = x.pick(['text_map', 'http_headers', 'b3'])
    f = C.formats()[fmt]
    tr = C.mk_tracer(x)
    for other in ({'Content-Type': 'a', 'x': 'y'}, {'Uber': '1', 'uberctx': 'z', 'X-B3': '1', 'uber-trace-idx': 'q'},
                  {'b3': '0'}, {'host': 'h', 'Cookie': 'uber-trace-id=1:2:3:4'}):
        for i, bag in enumerate(C.BAG):
            m = dict(trace=77, span=5, parent=None, flags=1, baggage=bag)
            m2 = dict(trace=78, span=6, parent=5, flags=3 if i % 2 else 1, baggage=bag)
            car = dict(other)
            tr.inject(C.context(m), f, car)
            for k, v in other.items():
                x.eq(car.get(k), v, 'inject changed the unrelated header %r' % k)
            verify(x, fmt, m, tr.extract(f, car), fmt)
            if fmt != 'b3' or i % 2 == 0:
                tr.inject(C.context(m2), f, car)
                verify(x, fmt, m2, tr.extract(f, car), fmt + ' (re-used carrier)')
            x.case()
            x.state((fmt, tuple(sorted(other)), i))


def changing(x, depth):
    """Two spans that change between injections: every carrier has the state at its injection."""
    tr = C.mk_tracer(x, bool(x.choose(2)), sampler=S.ScriptSampler([False]))
    from jaeger_client import SpanContext
    f = C.formats()
    spans = [tr.start_span('a', child_of=SpanContext(C.M128 - 6, 3, None, 1, {'a': '1'})), tr.start_span('b')]
    model = [dict(C.of(s.context)) for s in spans]
    seq, old = [], []
    for _ in range(depth):
        op = x.pick(['inject', 'extract again', 'on', 'off', 'baggage', 'empty', 'remove', 'tag', 'finish'])
        i = x.choose(2)
        s, m = spans[i], model[i]
        seq.append((op, i))
        if op == 'inject':
            for fmt in C.FORMATS:
                car = C.empty(fmt)
                tr.inject(s if len(seq) % 2 else s.context, f[fmt], car)
                verify(x, fmt, m, tr.extract(f[fmt], car), '%s after %r' % (fmt, seq))
                old.append((fmt, car, dict(m)))
        elif op == 'extract again':
            for fmt, car, then in old:
                verify(x, fmt, then, tr.extract(f[fmt], car), '%s again after %r' % (fmt, seq))
        elif op == 'on':
            s.set_tag('sampling.priority', 1)
            m['flags'] |= 3
        elif op == 'off':
            s.set_tag('sampling.priority', 0)
            m['flags'] &= ~3
        elif op == 'baggage':
            v = 'v%d' % len(seq)
            s.set_baggage_item('a', v)
            m['baggage'] = dict(m['baggage'], a=v)
        elif op == 'empty':
            s.set_baggage_item('e', '')
            m['baggage'] = dict(m['baggage'], e='')
        elif op == 'remove':
            s.set_baggage_item('a', None)
            m['baggage'] = {k: v for k, v in m['baggage'].items() if k != 'a'}
        elif op == 'tag':
            s.set_tag('k', 'v')
        else:
            s.finish()
    for i in (0, 1, 0):
        for fmt in C.FORMATS:
            car = C.empty(fmt)
            tr.inject(spans[i], f[fmt], car)
            verify(x, fmt, model[i], tr.extract(f[fmt], car), '%s at the end of %r' % (fmt, seq))
    x.state(tuple(seq))
    x.case()


def path(x, n):
    """A request travels through n services; each continues the trace with a child span."""
    bits = x.choose(2)
    trs = [C.mk_tracer(x, bool((bits + i) % 2), sampler=S.ScriptSampler([False]), service_name='s%d' % i)
           for i in range(2)]
    start = x.pick(['sampled', 'unsampled', 'debug', '128-sampled'])
    flags = {'sampled': 1, 'unsampled': 0, 'debug': 3, '128-sampled': 1}[start]
    trace = C.M128 - 5 if start.startswith('128') else 0x1111222233334444
    bag = {'user': 'a b%', 'k2': 'ü'}
    from jaeger_client import SpanContext
    span = trs[0].start_span('0', child_of=SpanContext(trace, 3, None, flags, bag))
    seq = []
    for i in range(n):
        fmt = x.pick(C.FORMATS)
        seq.append(fmt)
        f = C.formats()[fmt]
        if x.choose(2):
            span.set_baggage_item('hop%d' % i, 'v%d' % i)
            bag = dict(bag, **{'hop%d' % i: 'v%d' % i})
        car = C.empty(fmt)
        trs[i % 2].inject(span if i % 2 else span.context, f, car)
        x.eq(dict(span.context.baggage), bag, 'baggage before hop %d over %s' % (i, seq))
        ctx = trs[(i + 1) % 2].extract(f, car)
        x.check(ctx is not None, 'context lost on hop %s' % seq)
        nxt = trs[(i + 1) % 2].start_span(str(i + 1), child_of=ctx)
        if fmt in ('zipkin', 'b3'):
            bag = {}
        x.eq((nxt.trace_id, nxt.parent_id), (trace, span.span_id), 'lineage over %s' % seq)
        x.eq((nxt.is_sampled(), nxt.is_debug()), (bool(flags & 1), bool(flags & 2)), 'decision over %s' % seq)
        x.eq(dict(nxt.context.baggage), bag, 'baggage over %s' % seq)
        x.check(nxt.span_id != span.span_id, 'span id over %s' % seq)
        span = nxt
        x.state((bits, start, tuple(seq), tuple(sorted(bag))))
    x.case()


def pump(x):
    """Much baggage in one carrier, and a trace through very many services."""
    fmt = x.pick(C.FORMATS)
    f = C.formats()[fmt]
    what = x.pick(['items', 'value', 'key', 'hops'])
    tr = C.mk_tracer(x, True, sampler=S.ScriptSampler([False]))
    if what == 'hops':
        from jaeger_client import SpanContext
        bag = {'k': 'a b%', 'l': 'ü'}
        span = tr.start_span('0', child_of=SpanContext(C.M128 - 7, 3, None, 3, bag))
        for i in range(300):
            car = C.empty(fmt)
            tr.inject(span.context, f, car)
            nxt = tr.start_span('n', child_of=tr.extract(f, car))
            x.eq((nxt.trace_id, nxt.parent_id, nxt.flags, dict(nxt.context.baggage)),
                 (C.M128 - 7, span.span_id, 3, {} if fmt in ('zipkin', 'b3') else bag), 'hop %d over %s' % (i, fmt))
            span = nxt
        x.case(300)
        return
    for n in (15, 16, 17, 127, 128, 255, 256, 257, 300, 1100):
        bag = {'items': lambda: {'k%d' % i: 'v%d' % i for i in range(n)}, 'value': lambda: {'k': 'ab %' * n, 'l': 'x' * 97 * n},
               'key': lambda: {'k' * n: 'v', 'l' * 7 * n: 'w'}}[what]()
        m = dict(trace=C.M128 - 7, span=5, parent=6, flags=1, baggage=bag)
        car = C.empty(fmt)
        tr.inject(C.context(m), f, car)
        verify(x, fmt, m, tr.extract(f, car), '%s, %s x %d' % (fmt, what, n))
        x.case()
    x.state((fmt, what))


def scenarios(tier):
    t = tier == 'thorough'
    return [Scenario('pump', pump)] + [Scenario('one_hop', one_hop),
            Scenario('all_flags', all_flags), Scenario('surroundings', surroundings),
            Scenario('changing', changing, params={'depth': 4 if t else 3}),
            Scenario('path', path, params={'n': 5 if t else 4})]
