"""C02: no carrier content can make extraction fail in an undocumented way or poison the tracer."""
import itertools
import struct
import urllib.parse
from mc.lib import *
from mc import ctx as C
from mc import startspan as S
from mc.checks import c04

RULE = ('every trace-id string built from <= 6 segments of the segment alphabet, every truncation, single-character '
        'substitution and insertion of valid ids; every truncation and byte substitution of binary carriers; every '
        'combination of hostile header values; distinct by (format, input, outcome)')
BOUNDS = ('text: segment alphabet of 22, 4-part products complete over the short alphabet; binary: 4 base carriers, '
          'every length, every byte x 6 values; B3: 4 headers x 16 values; Zipkin: 4 fields x 11 values')

SEG = ['', '0', '1', 'a', 'F', '00', 'g', '-1', '-0', ' 1', '1 ', '1_0', '0x1', '+1', 'f' * 16, '1' + '0' * 16, 'f' * 32,
       '1' + '0' * 32, 'é', '\uff11', '\x00', '1' * 5000]
HEX = set('0123456789abcdefABCDEF')


def strict_int(s, limit):
    """-> int, 'reject' or 'lenient' (Python's int() also takes blanks, signs, underscores, 0x)."""
    if s and all(c in HEX for c in s):
        n = 0
        for c in s[-40:]:
            n = n * 16 + '0123456789abcdef'.index(c.lower())
        if len(s.lstrip('0')) > 34:
            return 'reject'
        return n if n <= limit else 'reject'
    try:
        n = int(s, 16)
    except ValueError:
        return 'reject'
    return 'lenient' if 0 <= n <= limit else 'reject'


def parse_id(v):
    """-> (trace, span, parent, flags), 'reject' or 'lenient'"""
    if isinstance(v, list):
        if len(v) != 1:
            return 'reject'
        v = v[0]
    if not isinstance(v, str):
        return 'reject'
    parts = v.split(':')
    if len(parts) != 4:
        return 'reject'
    vals = [strict_int(p, l) for p, l in zip(parts, (C.M128, C.M64, C.M64, 255))]
    if 'reject' in vals:
        return 'reject'
    if 'lenient' in vals:
        return 'lenient'
    if vals[0] == 0 or vals[1] == 0:
        return 'reject'
    return (vals[0], vals[1], vals[2] or None, vals[3])


class Env(object):
    def __init__(self, x):
        self.x = x
        self.rep = S.RecordingReporter()
        self.tr = C.mk_tracer(x, rep=self.rep, sampler=S.ScriptSampler([True]))
        self.F = C.formats()
        self.n = 0

    def extract(self, fmt, car):
        """-> context or None or the name of the documented exception"""
        from opentracing import InvalidCarrierException, SpanContextCorruptedException
        x = self.x
        copy = car.copy() if isinstance(car, (dict, bytearray)) else None
        x.case()
        try:
            r = self.tr.extract(self.F[fmt], car)
        except SpanContextCorruptedException:
            r = 'corrupt'
        except InvalidCarrierException:
            r = 'invalid'
        except Exception as e:
            x.fail('extract(%s) raised %s: %s' % (fmt, type(e).__name__, e), carrier=repr(car)[:300])
        if copy is not None:
            x.check(car == copy, 'extract changed the carrier %r' % (car,))
        return r

    def use(self, ctx, car):
        """Whatever was extracted can be continued, reported and injected."""
        x = self.x
        try:
            s = self.tr.start_span('op', child_of=ctx)
            for fmt in C.FORMATS:
                self.tr.inject(s, self.F[fmt], C.empty(fmt))
            s.finish()
            from jaeger_client import thrift
            x.check(1 <= s.trace_id <= C.M128 and 1 <= s.span_id <= C.M64 and 0 <= (s.parent_id or 0) <= C.M64
                    and 0 <= s.flags <= 255, 'ids %r out of range' % (s,), carrier=repr(car)[:300])
        except Exception as e:
            x.fail('the extracted context cannot be used: %s: %s' % (type(e).__name__, e), carrier=repr(car)[:300])
        return s

    def send_all(self):
        """The spans continued from hostile contexts serialize."""
        x = self.x
        rep = reporter(x, queue_capacity=100000)
        rep.set_process('svc', {}, 1024)
        spans = self.rep.spans[:400:3] + self.rep.spans[-50:]
        for s in spans:
            rep.report_span(s)
        rep.close()
        x.world.advance(5)
        x.eq(sum(len(b['spans']) for b in batches(x)), len(spans), 'spans received by the agent')


def judge_id(e, fmt, raw, decoded):
    x = e.x
    want = parse_id(decoded)
    car = {'uber-trace-id': raw}
    r = e.extract(fmt, car)
    if want == 'reject':
        x.eq(r, 'corrupt', 'extract(%s) of trace id %r' % (fmt, raw))
    elif want == 'lenient':
        x.check(r == 'corrupt' or (r is not None and not isinstance(r, str)), 'trace id %r: %r' % (raw, r))
    else:
        x.check(r is not None and not isinstance(r, str), 'trace id %r refused: %r' % (raw, r))
        x.eq((r.trace_id, r.span_id, r.parent_id, r.flags), want, 'trace id %r' % raw)
    if r is not None and not isinstance(r, str):
        e.use(r, car)


def ids_product(x, full):
    e = Env(x)
    fmt = x.pick(['text_map', 'http_headers'])
    first = x.pick(SEG)
    q = (lambda s: s) if fmt == 'text_map' else (lambda s: urllib.parse.quote(s))
    for n in (1, 2, 3, 5, 6):
        short = ['', '1', 'a', 'g'] if n > 3 else SEG[:12]
        for rest in itertools.product(short, repeat=n - 1):
            v = ':'.join((first,) + rest)
            judge_id(e, fmt, q(v), v)
    mid = SEG if full else ['', '0', '1', 'F', 'g', '-1', ' 1', 'f' * 16, '1' + '0' * 16, 'é']
    for rest in itertools.product(SEG, mid, mid):
        v = ':'.join((first,) + rest)
        judge_id(e, fmt, q(v), v)
    x.state((fmt, first))
    e.send_all()


VALID = ['1:2:3:1', '0123456789abcdef:fedcba9876543210:0:3', 'f' * 32 + ':' + 'f' * 16 + ':' + 'f' * 16 + ':ff', 'A:B:C:0']


def ids_mutated(x):
    e = Env(x)
    fmt = x.pick(['text_map', 'http_headers'])
    base = x.pick(VALID)
    subs = ['', '0', 'f', 'g', ':', '::', ' ', '-', '%', '%3A', '+', '\n', 'é', '\x00', ',', ';', '\u0661', '.', 'x']
    dec = (lambda s: s) if fmt == 'text_map' else urllib.parse.unquote
    for i in range(len(base) + 1):
        judge_id(e, fmt, base[:i], dec(base[:i]))
        judge_id(e, fmt, base[i:], dec(base[i:]))
        for s in subs:
            v = base[:i] + s + base[i:]
            judge_id(e, fmt, v, dec(v))
            v = base[:i] + s + base[i + 1:]
            judge_id(e, fmt, v, dec(v))
    x.state((fmt, base))
    e.send_all()


def typed_values(x):
    """Header values that are not plain strings."""
    e = Env(x)
    fmt = x.pick(['text_map', 'http_headers'])
    vals = [None, 5, 1.5, True, [], ['1:2:0:1'], ['1:2:0:1', '1:2:0:1'], ['x'], [None], [5], [[]], [['1:2:0:1']], {}, (), object(),
            ['1:2:0:1', None], '']
    for v in vals:
        if v == [[]] or v == [['1:2:0:1']]:
            want = 'reject'
        else:
            want = parse_id(v)
        r = e.extract(fmt, {'uber-trace-id': v, 'other': None})
        if want == 'reject':
            x.eq(r, 'corrupt', '%s trace id header %r' % (fmt, v))
        else:
            x.check(r is not None and not isinstance(r, str), 'header %r: %r' % (v, r))
            x.eq((r.trace_id, r.span_id, r.parent_id, r.flags), want, 'header %r' % (v,))
            e.use(r, v)
        x.state((fmt, repr(v)[:40]))
    if fmt == 'http_headers':
        for h in ('uberctx-k', 'jaeger-debug-id', 'jaeger-baggage'):
            for v in vals[:-1]:
                for tid in (None, '1:2:3:1'):
                    car = {h: v}
                    if tid:
                        car['uber-trace-id'] = tid
                    r = e.extract(fmt, car)
                    if isinstance(r, str):
                        x.eq(r, 'corrupt', 'header %s: %r' % (h, v))
                        x.check(not (isinstance(v, list) and len(v) == 1 and isinstance(v[0], str)),
                                'the array header %s: %r is refused' % (h, v))
                    elif r is not None:
                        for k, b in r.baggage.items():
                            x.check(isinstance(k, str) and isinstance(b, str), 'baggage %r' % r.baggage)
                        x.check(r.debug_id is None or isinstance(r.debug_id, str), 'debug id %r' % (r.debug_id,))
                        e.use(r, car)
    e.send_all()


HOSTILE = ['', ' ', '%', '%4', '%zz', '%ff%fe', '%00', '\x00', 'é', '=', ',', ',,,=', 'a=b', 'a=b=c', 'a', 'a=,b', '=v',
           'x' * 70000, '%E4%B8%AD', '+', '"', 'a=b,c=d,e']


def other_headers(x):
    """Hostile baggage, debug-id and jaeger-baggage values, alone and together, with and without a trace."""
    e = Env(x)
    fmt = x.pick(['text_map', 'http_headers'])
    bag = x.pick([None] + HOSTILE)
    dec = (lambda s: s) if fmt == 'text_map' else urllib.parse.unquote
    for dbg in [None] + HOSTILE:
        for jb in [None] + HOSTILE:
            for tid in (None, '1:2:3:1'):
                car = {}
                if tid:
                    car['uber-trace-id'] = tid
                if bag is not None:
                    car['uberctx-k'] = bag
                if dbg is not None:
                    car['jaeger-debug-id'] = dbg
                if jb is not None:
                    car['jaeger-baggage'] = jb
                r = e.extract(fmt, car)
                x.check(not isinstance(r, str), 'the tolerable carrier %s is refused: %s' % (short_car(car), r))
                want = {}
                if bag is not None:
                    want['k'] = dec(bag)
                if jb is not None:
                    for part in dec(jb).split(','):
                        kv = part.strip().split('=')
                        if len(kv) == 2:
                            want[kv[0]] = kv[1]
                if r is None:
                    x.check(not tid and not want and not dbg, 'context of %s dropped' % short_car(car))
                    continue
                x.eq(dict(r.baggage), want, 'baggage of %s' % short_car(car))
                x.eq(r.debug_id or None, dec(dbg) or None if dbg is not None else None, 'debug id of %s' % short_car(car))
                x.eq((r.trace_id, r.span_id, r.parent_id, r.flags), (1, 2, 3, 1) if tid else (None, None, None, None),
                     'ids of %s' % short_car(car))
                s = e.use(r, car)
                if tid:
                    x.eq((s.trace_id, s.parent_id), (1, 2), 'continued trace')
    x.state((fmt, bag and bag[:20]))
    e.rep.spans[:] = e.rep.spans[:60]
    e.send_all()


def short_car(car):
    return {k: v[:40] for k, v in car.items()}


def parse_binary(b):
    """Strict reading of the binary format; trailing bytes are tolerated."""
    if len(b) < 37:
        return 'reject'
    t = int.from_bytes(b[:16], 'big')
    s, p = int.from_bytes(b[16:24], 'big'), int.from_bytes(b[24:32], 'big')
    n = int.from_bytes(b[33:37], 'big')
    bag, i = {}, 37
    for _ in range(n):
        kv = []
        for _ in range(2):
            if len(b) < i + 4:
                return 'reject'
            ln = int.from_bytes(b[i:i + 4], 'big')
            i += 4
            if len(b) < i + ln:
                return 'reject'
            try:
                kv.append(bytes(b[i:i + ln]).decode('utf-8'))
            except UnicodeDecodeError:
                return 'reject'
            i += ln
        bag[kv[0]] = kv[1]
    return dict(trace=t, span=s, parent=p or None, flags=b[32], baggage=bag)


def judge_binary(e, b):
    x = e.x
    want = parse_binary(b)
    r = e.extract('binary', bytearray(b))
    if want == 'reject':
        x.eq(r, 'corrupt', 'extract of the malformed binary carrier %s' % bytes(b).hex())
    elif r is None or isinstance(r, str):
        x.check(not want['trace'] or not want['span'], 'valid binary carrier refused: %s' % r, carrier=bytes(b).hex())
    else:
        x.eq(C.of(r), want, 'binary carrier %s' % bytes(b).hex())
        e.use(r, b)


def binary(x):
    e = Env(x)
    bases = [dict(trace=1, span=2, parent=None, flags=1, baggage={}),
             dict(trace=C.M128, span=C.M64, parent=5, flags=3, baggage={'k': 'v'}),
             dict(trace=1 << 64, span=2, parent=3, flags=0, baggage={'é': '中', '': ''}),
             dict(trace=9, span=2, parent=3, flags=1, baggage={'a': 'b' * 20, 'c': 'd'})]
    b = C.encode_binary(x.pick(bases))
    how = x.pick(['truncate', 'subst', 'insert', 'trailing', 'ones', 'two'])
    vals = [0, 1, 0x7f, 0x80, 0xc3, 0xff]
    if how == 'truncate':
        for i in range(len(b) + 1):
            judge_binary(e, b[:i])
            judge_binary(e, b[i:])
    elif how == 'subst':
        for i in range(len(b)):
            for v in vals:
                judge_binary(e, b[:i] + bytes([v]) + b[i + 1:])
    elif how == 'insert':
        for i in range(len(b)):
            for v in vals:
                judge_binary(e, b[:i] + bytes([v]) + b[i:])
            judge_binary(e, b[:i] + b[i + 1:])
    elif how == 'trailing':
        for v in vals:
            for n in (1, 4, 100):
                judge_binary(e, b + bytes([v]) * n)
    elif how == 'ones':
        for n in range(80):
            for v in vals:
                judge_binary(e, bytes([v]) * n)
    else:
        for i in range(32, len(b)):
            for j in range(i + 1, len(b)):
                for v, w in ((0xff, 0xff), (0, 1), (1, 0), (0x80, 0)):
                    judge_binary(e, b[:i] + bytes([v]) + b[i + 1:j] + bytes([w]) + b[j + 1:])
    x.state((b, how))
    e.send_all()


STRANGE = [None, 0, 5, 1.5, True, b'', b'uber-trace-id', (), ('a', 'b'), frozenset(), 'uber-trace-id', '']


def carriers(x):
    """Carriers of the wrong type, and entries of any type in those of the right one."""
    from opentracing import InvalidCarrierException, UnsupportedFormatException
    from jaeger_client import SpanContext
    e = Env(x)
    fmt = x.pick(C.FORMATS)
    ctx = SpanContext(1, 2, 3, 1, {'k': 'v'})
    binary = [b'', C.encode_binary(dict(trace=1, span=2, parent=3, flags=1, baggage={'k': 'v'}))]
    bad = [None, 0, 5, True, 1.5, '', 'uber-trace-id', (), object(), C, len, set(), frozenset(['a']), [], ['a'], [1] * 40,
           [('uber-trace-id', '1:2:3:1')], iter([])]
    bad += [{}, {'uber-trace-id': '1:2:3:1'}, {1: 2}] if fmt == 'binary' else binary + [bytearray(b) for b in binary]
    bad += [b for b in binary] + [memoryview(b) for b in binary]
    for car in bad:
        x.eq(e.extract(fmt, car), 'invalid', 'extract(%s) from %r' % (fmt, car))
        before = repr(car)
        try:
            e.tr.inject(ctx, e.F[fmt], car)
        except InvalidCarrierException:
            pass
        except Exception as err:
            x.fail('inject(%s) into %r raised %s: %s' % (fmt, car, type(err).__name__, err))
        else:
            x.fail('inject(%s) into %r succeeded' % (fmt, car))
        x.eq(repr(car), before, 'carrier after a refused inject(%s)' % fmt)
        x.case()
    for f in (None, '', 'x', 5, ('a',)):
        for call in (lambda: e.tr.extract(f, {}), lambda: e.tr.inject(ctx, f, {})):
            try:
                call()
            except UnsupportedFormatException:
                x.case()
                continue
            x.fail('format %r is accepted' % (f,))
    for c in (None, 5, 'x', {}, object()):
        car = C.empty(fmt)
        try:
            e.tr.inject(c, e.F[fmt], car)
        except ValueError:
            x.eq(len(car), 0, 'carrier after inject of %r' % (c,))
            x.case()
            continue
        x.fail('%r is injected' % (c,))
    if fmt == 'binary':
        x.state(fmt)
        return
    # entries that are not ours do not matter, whatever their names and values are
    for base in ({}, {'uber-trace-id': '1:2:3:1', 'X-B3-TraceId': '1', 'X-B3-SpanId': '2', 'X-B3-ParentSpanId': '3', 'X-B3-Sampled': '1',
                      'trace_id': 1, 'span_id': 2, 'parent_id': 3, 'traceflags': 1}):
        for k in STRANGE:
            if isinstance(k, str) and k:
                continue
            for v in [None, 5, 'x', '1:2:3:1', b'x', [], ['x'], {}, object()]:
                for first in (False, True):
                    car = {k: v, **base} if first else dict(base, **{}) if k in base else {**base, k: v}
                    r = e.extract(fmt, car)
                    if not base:
                        x.eq(r, None, 'extract(%s) from %r' % (fmt, car))
                    else:
                        x.check(r is not None and not isinstance(r, str), 'extract(%s) from %r: %r' % (fmt, car, r))
                        x.eq((r.trace_id, r.span_id, r.parent_id, r.flags, dict(r.baggage)), (1, 2, 3, 1, {}),
                             'extract(%s) from %r' % (fmt, car))
    if fmt in ('text_map', 'http_headers'):
        # our entries with values of any type
        for h in ('uberctx-k', 'jaeger-debug-id', 'jaeger-baggage', 'uber-trace-id'):
            for v in STRANGE + [[], [5], ['x'], ['1:2:3:1', 'x'], [None], {}, object(), b'\xff', '\udfff']:
                for other in ({}, {'uber-trace-id': '1:2:3:1'}, {'uberctx-a': 'b'}, {'jaeger-baggage': 'c=d'}):
                    for car in ({h: v, **other}, {**other, h: v}):
                        r = e.extract(fmt, car)
                        x.check(r != 'invalid', 'extract(%s) from %r: %r' % (fmt, car, r))
                        if r is not None and not isinstance(r, str) and r.trace_id is not None:
                            x.check(car.get('uber-trace-id') in ('1:2:3:1', ['1:2:3:1']), 'context from %r' % car)
                            x.eq((r.trace_id, r.span_id, r.parent_id, r.flags), (1, 2, 3, 1), 'context from %r' % car)
    x.state(fmt)


def big(x):
    """Carriers far larger than usual."""
    e = Env(x)
    n = x.pick([10, 100, 900, 1100, 5000])
    size = x.pick([0, 1, 100])
    kind = x.pick(['binary', 'binary-cut', 'binary-short', 'binary-more', 'entries', 'header', 'header-blank', 'foreign', 'debug-id', 'name'])
    want = {'k%05d' % i: 'v' * size for i in range(n)}
    ids = (1, 2, 3, 1)
    if kind.startswith('binary'):
        b = bytearray(C.encode_binary(dict(trace=1, span=2, parent=3, flags=1, baggage=want)))
        if kind == 'binary-cut':
            b = b[:len(b) // 2]
        elif kind == 'binary-short':
            b = b[:-1]
        elif kind == 'binary-more':
            b = b + b'\0' * 1000
        r = e.extract('binary', b)
        if kind in ('binary-cut', 'binary-short'):
            judge_binary(e, bytes(b))
        else:
            x.check(r is not None and not isinstance(r, str), 'binary carrier with %d items of %d bytes: %r' % (n, size, r))
            x.eq((r.trace_id, r.span_id, r.parent_id, r.flags), ids, 'binary carrier with %d items' % n)
            x.eq(dict(r.baggage), want, 'baggage of a binary carrier with %d items' % n)
            e.use(r, 'binary carrier with %d items' % n)
    else:
        for fmt in ('text_map', 'http_headers'):
            car = {'uber-trace-id': '1:2:3:1'}
            exp = {}
            if kind == 'entries':
                car.update(('uberctx-' + k, v) for k, v in want.items())
                exp = want
            elif kind.startswith('header'):
                sep = ',' if kind == 'header' else ' , '
                car['jaeger-baggage'] = sep.join('%s=%s' % kv for kv in want.items())
                exp = want
            elif kind == 'foreign':
                car.update(want)
            elif kind == 'debug-id':
                car['jaeger-debug-id'] = 'd' * (n * max(size, 1))
            elif kind == 'name':
                car['uberctx-' + 'n' * (n * max(size, 1))] = 'v'
                exp = {'n' * (n * max(size, 1)): 'v'}
            r = e.extract(fmt, car)
            x.check(r is not None and not isinstance(r, str), '%s carrier (%s, %d entries): %r' % (fmt, kind, n, r))
            x.eq((r.trace_id, r.span_id, r.parent_id, r.flags), ids, '%s carrier (%s, %d entries)' % (fmt, kind, n))
            x.check(dict(r.baggage) == exp, '%s carrier (%s, %d entries): baggage' % (fmt, kind, n))
            if kind != 'foreign':
                e.use(r, kind)
    x.state((kind, n, size))


B3V = [None, '', '0', '1', 'a', 'F' * 16, '1' + '0' * 16, '0' * 20 + '1', 'f' * 32, '1' + '0' * 32, 'g', '-1', 5, ['1'], b'1', 'é', ()]


def b3(x):
    e = Env(x)
    H = ['X-B3-TraceId', 'X-B3-SpanId', 'X-B3-ParentSpanId']
    trace = x.pick(['absent'] + B3V)
    for span in ['absent'] + B3V:
        for parent in ['absent'] + B3V:
            for samp, flag in ((None, None), ('1', None), ('0', None), (None, '1'), ('1', '1'), ('x', ''), (5, []), ('0', '1')):
                car = {}
                for h, v in zip(H, (trace, span, parent)):
                    if v != 'absent':
                        car[h] = v
                if samp is not None:
                    car['X-B3-Sampled'] = samp
                if flag is not None:
                    car['X-B3-Flags'] = flag
                ids = []
                for v, lim in ((trace, C.M128), (span, C.M64), (parent, C.M64)):
                    if v == 'absent' or v is None:
                        ids.append(0)
                    elif not isinstance(v, str):
                        ids.append('reject')
                    else:
                        ids.append(strict_int(v, lim))
                r = e.extract('b3', car)
                if 'reject' in ids:
                    x.eq(r, 'corrupt', 'extract of B3 headers %r' % car)
                    continue
                x.check(r != 'corrupt', 'valid B3 headers %r refused' % car)
                if not ids[0] or not ids[1]:
                    x.eq(r, None, 'context of B3 headers %r' % car)
                    continue
                fl = (1 if samp == '1' else 0) | (2 if flag == '1' else 0)
                x.eq(C.of(r), dict(trace=ids[0], span=ids[1], parent=ids[2] or None, flags=fl, baggage={}),
                     'B3 headers %r' % car)
                e.use(r, car)
    x.state(trace if not isinstance(trace, list) else 'list')
    e.send_all()


ZV = [None, 0, 1, 255, 256, -1, C.M64, 1 << 64, C.M128 + 1, 'a', 1.5, []]


def zipkin(x):
    e = Env(x)
    trace = x.pick(ZV)
    obj = x.choose(2)
    lim = (C.M128, C.M64, C.M64, 255)
    for span, parent, flags in itertools.product(ZV, ZV, ZV):
        vals = (trace, span, parent, flags)
        names = ('trace_id', 'span_id', 'parent_id', 'traceflags')
        if obj:
            car = type('T', (), dict(zip(names, vals)))()
        else:
            car = dict(zip(names, vals))
        r = e.extract('zipkin', car)
        if not trace:
            x.eq(r, None, 'Zipkin context without trace id')
        elif any(v is not None and not (isinstance(v, int) and 0 <= v <= l) for v, l in zip(vals, lim)):
            x.eq(r, 'corrupt', 'extract of the Zipkin context %r' % (vals,))
        else:
            x.check(not isinstance(r, str), 'Zipkin context %r refused' % (vals,))
            if r is not None:
                x.eq((r.trace_id, r.span_id, r.parent_id, r.flags), (trace, span, parent or None, flags), 'Zipkin')
                e.use(r, vals)
    if obj:
        for miss in range(4):
            names = ['trace_id', 'span_id', 'parent_id', 'traceflags']
            car = type('T', (), {n: 1 for i, n in enumerate(names) if i != miss})()
            x.eq(e.extract('zipkin', car), 'invalid', 'Zipkin carrier without %s' % names[miss])
    x.state((trace if not isinstance(trace, list) else 'list', obj))
    e.send_all()


def scenarios(tier):
    t = tier == 'thorough'
    return [Scenario('ids_product', ids_product, params={'full': t}), Scenario('ids_mutated', ids_mutated),
            Scenario('typed_values', typed_values), Scenario('other_headers', other_headers),
            Scenario('carriers', carriers), Scenario('big', big), Scenario('binary', binary), Scenario('b3', b3), Scenario('zipkin', zipkin),
            Scenario('neighbours', c04.neighbours)]
