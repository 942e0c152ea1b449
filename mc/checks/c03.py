"""C03: carriers are written and read exactly as the published formats say."""
from mc.lib import *
from mc import ctx as C

RULE = ('every context of the id x parent x flags x baggage alphabet: the injected carrier equals an independently '
        'written encoding, and independently written carriers (several spellings each) extract to the context; '
        'distinct by (format, context)')
BOUNDS = '5 formats, 12 trace ids x 6 span ids x 5 parents x 16 flags x 16 baggage maps'


def inject(x):
    fmt = x.pick(C.FORMATS)
    bits = bool(x.choose(2))
    trace = x.pick(C.TRACE)
    f = C.formats()[fmt]
    tr = C.mk_tracer(x, bits)
    for span in C.SPAN:
        for parent in C.PARENT:
            for bag in C.bags(span, parent) + (C.BAG_BINARY if fmt == 'binary' else []):
                for flags in ((0, 1, 2, 3, 8, 0xa, 0x80, 0xff) if len(bag) != 1 else (1,)):
                    m = dict(trace=trace, span=span, parent=parent, flags=flags, baggage=bag)
                    car = C.empty(fmt)
                    tr.inject(C.context(m), f, car)
                    x.eq(car, C.encode(fmt, m, bits), '%s carrier' % fmt, context=m)
                    if fmt in ('text_map', 'http_headers', 'b3'):
                        for k, v in car.items():
                            x.check(isinstance(k, str) and isinstance(v, str), 'header %r: %r is not text' % (k, v))
                            if fmt == 'http_headers':
                                x.check(all(32 < ord(ch) < 127 for ch in v), 'header value %r is not printable ASCII' % v)
                    x.case()
        x.state((fmt, bits, trace, span))


def spellings(fmt, m):
    """Carriers other implementations produce for the same context."""
    if fmt in ('text_map', 'http_headers'):
        base = C.encode(fmt, m)
        i = base['uber-trace-id']
        t, s, p, f = i.split(':')
        for v in (i, i.upper(), ':'.join([t.zfill(32), s.zfill(16), p.zfill(16), f.zfill(2)]),
                  ':'.join([t.zfill(16), s.zfill(16), p, f])):
            yield dict(base, **{'uber-trace-id': v})
        yield {k.title(): v for k, v in base.items()}
        yield {k.upper(): v for k, v in base.items()}
        if fmt == 'http_headers':
            yield dict(base, **{'uber-trace-id': i.replace(':', '%3A')})
            yield dict(base, **{'uber-trace-id': i.replace(':', '%3a')})
            yield dict({'uberctx-' + k: ''.join('%%%02x' % b for b in v.encode('utf-8'))
                        for k, v in m['baggage'].items()}, **{'uber-trace-id': i})
    elif fmt == 'b3':
        base = C.encode_b3(m)
        yield base
        yield {k.lower(): v for k, v in base.items()}
        yield {k.upper(): v.upper() for k, v in base.items()}
        yield dict(base, **{'X-B3-TraceId': base['X-B3-TraceId'].zfill(32)})
        if m['parent'] is None:
            yield dict(base, **{'X-B3-ParentSpanId': '0' * 16})
        if m['flags'] & 2:
            yield dict(base, **{'X-B3-Sampled': '0'})
        elif not m['flags'] & 1:
            yield dict(base, **{'X-B3-Sampled': '0'})
            yield dict(base, **{'X-B3-Flags': '0'})
    elif fmt == 'binary':
        yield C.encode(fmt, m)
        if m['baggage']:
            yield bytearray(C.encode_binary(m))
    else:
        yield C.encode_zipkin(m)
        o = type('Tracing', (), {})()
        for k, v in C.encode_zipkin(m).items():
            setattr(o, k, v)
        yield o


def extract(x):
    fmt = x.pick(C.FORMATS)
    trace = x.pick(C.TRACE)
    f = C.formats()[fmt]
    tr = C.mk_tracer(x)
    for span in C.SPAN:
        for parent in C.PARENT:
            for bag in C.bags(span, parent) + (C.BAG_BINARY if fmt == 'binary' else []):
                for flags in ((0, 1, 2, 3, 8, 0xff) if len(bag) != 1 else (1,)):
                    m = dict(trace=trace, span=span, parent=parent, flags=flags, baggage=bag)
                    for car in spellings(fmt, m):
                        got = tr.extract(f, car)
                        x.check(got is not None, '%s carrier %r not recognized' % (fmt, car))
                        x.eq(C.of(got), C.after_hop(fmt, m), '%s extracted' % fmt, carrier=car)
                        x.case()
        x.state((fmt, trace, span))


def bytes_baggage(x):
    """Baggage given as bytes travels like the text it encodes."""
    fmt = x.pick(['text_map', 'http_headers', 'binary'])
    f = C.formats()[fmt]
    tr = C.mk_tracer(x)
    for k, v in ((b'k', b'v'), (b'k', 'é'.encode()), (b'k', b'a b')):
        m = dict(trace=5, span=6, parent=None, flags=1, baggage={k.decode(): v.decode()})
        car = C.empty(fmt)
        tr.inject(C.context(dict(m, baggage={k: v})), f, car)
        x.eq(car, C.encode(fmt, m), '%s carrier for bytes baggage' % fmt)
        x.case()
        x.state((fmt, k, v))


def formats(x):
    """Unknown formats, wrong carrier and context types are refused without touching the carrier."""
    import opentracing
    from opentracing import UnsupportedFormatException, InvalidCarrierException
    tr = C.mk_tracer(x)
    F = C.formats()
    ok = C.context(dict(trace=5, span=6, parent=None, flags=1, baggage={'a': 'b'}))
    for fmt in C.FORMATS:
        for bad in (None, 1, 'str', [], (), object()) + (() if fmt != 'binary' else ({}, b'bytes')):
            try:
                tr.inject(ok, F[fmt], bad)
                x.fail('inject accepted a %r carrier %r' % (fmt, bad))
            except InvalidCarrierException:
                pass
            try:
                tr.extract(F[fmt], bad)
                x.fail('extract accepted a %r carrier %r' % (fmt, bad))
            except InvalidCarrierException:
                pass
            x.case()
        for badctx in (None, 5, 'x', opentracing.SpanContext(), object()):
            car = C.empty(fmt)
            try:
                tr.inject(badctx, F[fmt], car)
                x.fail('inject accepted context %r' % (badctx,))
            except ValueError:
                pass
            x.eq(car, C.empty(fmt), 'carrier after a refused injection')
            x.case()
    for u in ('nope', None, 5):
        for call in (lambda: tr.inject(ok, u, {}), lambda: tr.extract(u, {})):
            try:
                call()
                x.fail('format %r accepted' % (u,))
            except UnsupportedFormatException:
                pass
            x.case()
    for fmt in ('text_map', 'http_headers', 'b3', 'zipkin'):
        x.eq(tr.extract(F[fmt], {}), None, 'context in an empty %s carrier' % fmt)
        x.eq(tr.extract(F[fmt], {'a': 'b'} if fmt != 'zipkin' else {'trace_id': 0}), None, 'no context in %s' % fmt)
    x.state('formats')


def pump(x):
    """Carriers with very much baggage have the documented form, too."""
    fmt = x.pick(['text_map', 'http_headers', 'binary'])
    what = x.pick(['items', 'value', 'key'])
    f = C.formats()[fmt]
    tr = C.mk_tracer(x)
    for n in (15, 16, 17, 127, 128, 255, 256, 257, 300, 1100):
        bag = {'items': lambda: {'k%d' % i: 'v%d' % i for i in range(n)}, 'value': lambda: {'k': 'ab %' * n, 'l': 'x' * 97 * n},
               'key': lambda: {'k' * n: 'v', 'l' * 7 * n: 'w'}}[what]()
        m = dict(trace=77, span=5, parent=6, flags=1, baggage=bag)
        car = C.empty(fmt)
        tr.inject(C.context(m), f, car)
        x.eq(car, C.encode(fmt, m), '%s, %s x %d' % (fmt, what, n))
        x.eq(C.of(tr.extract(f, C.encode(fmt, m))), m, '%s, %s x %d, as written by another client' % (fmt, what, n))
        x.case()
    x.state((fmt, what))


def scenarios(tier):
    return [Scenario('pump', pump)] + [Scenario('inject', inject), Scenario('extract', extract), Scenario('bytes_baggage', bytes_baggage),
            Scenario('formats', formats)]
