"""C04: the order and spelling of headers do not matter; configured header names are honoured."""
import itertools
from mc.lib import *
from mc import ctx as C

RULE = ('every permutation of every subset of the headers x letter-case styles x tracer header configurations; '
        'distinct by (configuration, carrier)')
BOUNDS = 'up to 5 relevant headers + 1 unrelated, all orders; 4 case styles; 8 header configurations'

CONFIGS = [dict(), dict(trace_id_header='Trace-Id'), dict(trace_id_header='MY_TRACE_ID', baggage_header_prefix='MY_bag_'),
           dict(debug_id_header='Force_Trace'), dict(baggage_header_prefix='x-ctx-', debug_id_header='x-ctx'),
           dict(trace_id_header='T', baggage_header_prefix='b', debug_id_header='D'),
           # names that begin with the baggage prefix keep their own meaning
           dict(trace_id_header='X-App-Trace', baggage_header_prefix='X-App-', debug_id_header='X-App-Debug'),
           dict(baggage_header_prefix='Jaeger-')]
STYLES = [str.lower, str.upper, str.title, lambda s: ''.join(c.upper() if i % 2 else c for i, c in enumerate(s))]


def norm(s):
    return s.lower().replace('_', '-')


def orders(x):
    cfg = x.pick(CONFIGS)
    style = x.pick(STYLES)
    fmt = x.pick(['http_headers', 'text_map'])
    tr = C.mk_tracer(x, **cfg)
    f = C.formats()[fmt]
    th = norm(cfg.get('trace_id_header', 'uber-trace-id'))
    px = norm(cfg.get('baggage_header_prefix', 'uberctx-'))
    dh = norm(cfg.get('debug_id_header', 'jaeger-debug-id'))
    parts = {'trace': (th, '1f:2e:3d:1'), 'bag1': (px + 'k1', 'v 1'), 'bag2': (px + 'k-2', 'v2'), 'dbg': (dh, 'why'),
             'jbag': ('jaeger-baggage', 'm1=n1, m2=n2')}
    if px == 'b':
        parts['bag1'] = ('bk1', 'v 1')
    for r in range(6):
        for subset in itertools.combinations(sorted(parts), r):
            for order in itertools.permutations(subset + ('other',)):
                car = {}
                for p in order:
                    k, v = parts[p] if p != 'other' else ('accept', 'x')
                    if fmt == 'http_headers':
                        v = C.q(v).replace('%2C', ',').replace('%3D', '=')
                    car[style(k)] = v
                ctx = tr.extract(f, car)
                x.case()
                if not subset:
                    x.eq(ctx, None, 'context from unrelated headers')
                    continue
                x.check(ctx is not None, 'no context in %r' % car, config=cfg)
                bag = {}
                if 'bag1' in subset:
                    bag['k1'] = 'v 1'
                if 'bag2' in subset:
                    bag['k-2'] = 'v2'
                if 'jbag' in subset:
                    bag.update(m1='n1', m2='n2')
                x.eq(dict(ctx.baggage), bag, 'baggage from %r' % car, config=cfg)
                x.eq(ctx.debug_id, 'why' if 'dbg' in subset else None, 'debug id from %r' % car, config=cfg)
                x.eq((ctx.trace_id, ctx.span_id, ctx.parent_id, ctx.flags),
                     (0x1f, 0x2e, 0x3d, 1) if 'trace' in subset else (None, None, None, None), 'ids from %r' % car, config=cfg)
            x.state((str(cfg), STYLES.index(style), fmt, subset))


def inject(x):
    cfg = x.pick(CONFIGS)
    fmt = x.pick(['http_headers', 'text_map'])
    tr = C.mk_tracer(x, **cfg)
    f = C.formats()[fmt]
    th = norm(cfg.get('trace_id_header', 'uber-trace-id'))
    px = norm(cfg.get('baggage_header_prefix', 'uberctx-'))
    dh = norm(cfg.get('debug_id_header', 'jaeger-debug-id'))
    for bag in C.BAG:
        if any(px + (k.decode() if isinstance(k, bytes) else k).lower() in (th, dh, 'jaeger-baggage') for k in bag):
            continue            # one header name with two configured meanings
        m = dict(trace=5, span=6, parent=7, flags=1, baggage=bag)
        car = {}
        tr.inject(C.context(m), f, car)
        x.eq(car, C.encode_text(m, fmt == 'http_headers', th, px), 'carrier', config=cfg)
        x.eq(C.of(tr.extract(f, car)), C.after_hop(fmt, m), 'context extracted again', config=cfg)
        # a peer whose configuration spells the names otherwise understands it
        peer = C.mk_tracer(x, **{k: v.upper() for k, v in cfg.items()})
        x.eq(C.of(peer.extract(f, {k.upper(): v for k, v in car.items()})), C.after_hop(fmt, m), 'context at a peer')
        # and one with other names sees nothing
        if cfg:
            other = C.mk_tracer(x, trace_id_header='zz-id', baggage_header_prefix='zzctx-', debug_id_header='zz-dbg')
            x.eq(other.extract(f, car), None, 'context under foreign header names')
        x.case()
        x.state((str(cfg), fmt, str(bag)[:50]))


def repeats(x):
    """Only the leading prefix of a header name is the prefix: the rest is the baggage key, whatever it holds."""
    cfg = x.pick(CONFIGS)
    fmt = x.pick(['http_headers', 'text_map'])
    style = x.pick(STYLES)
    tr = C.mk_tracer(x, **cfg)
    f = C.formats()[fmt]
    th, px, dh = [norm(cfg.get(k, d)) for k, d in (('trace_id_header', 'uber-trace-id'), (
        'baggage_header_prefix', 'uberctx-'), ('debug_id_header', 'jaeger-debug-id'))]
    keys = [px + 'k', 'k' + px, 'k' + px + 'k', px, th, dh, th + 'x', 'x' + th, 'jaeger-baggage', 'my-' + px + 'k-' + px + 'l',
            px[1:] + 'k', px[:-1], '-', 'a_b', 'a.b']
    for n in (1, 2):
        for ks in itertools.combinations(keys, n):
            if any(px + k in (th, dh, 'jaeger-baggage') for k in ks):
                continue        # one header name with two configured meanings
            for with_id in (True, False):
                want = {k: 'v%d' % i for i, k in enumerate(ks)}
                car = {style(px + k): v for k, v in want.items()}
                car.update({style('x' + px + k): 'unrelated' for k in ks})
                if any(norm(k).startswith(px) and k.lower()[len(px):] not in want for k in car):
                    continue
                if with_id:
                    car[style(th)] = '1f:2e:3d:1'
                if fmt == 'text_map' and style is str.lower:
                    own = {}
                    tr.inject(C.context(dict(trace=0x1f, span=0x2e, parent=0x3d, flags=1, baggage=want)), f, own)
                    got = tr.extract(f, own)
                    x.eq(dict(got.baggage), want, 'baggage after inject and extract', carrier=own)
                ctx = tr.extract(f, car)
                x.case()
                x.check(ctx is not None, 'no context in %r' % car, config=cfg)
                x.eq(dict(ctx.baggage), want, 'baggage from %r' % car, config=cfg)
                x.eq((ctx.trace_id, ctx.debug_id), (0x1f if with_id else None, None), 'ids from %r' % car, config=cfg)
        x.state((str(cfg), fmt, STYLES.index(style), n))


def jaeger_baggage(x):
    """The debugging header jaeger-baggage: comma separated key=value pairs."""
    tr = C.mk_tracer(x)
    fmt = x.pick(['http_headers', 'text_map'])
    f = C.formats()[fmt]
    parts = ['a=b', ' c=d ', 'e=', '=f', 'g', 'h=i=j', '', 'k = l']
    for n in range(1, 4):
        for combo in itertools.product(parts, repeat=n):
            for pre in ({}, {'uberctx-z': 'y'}, {'uber-trace-id': '1:2:0:1'}):
                car = dict(pre, **{'jaeger-baggage': ','.join(combo)})
                want = {}
                if 'uberctx-z' in pre:
                    want['z'] = 'y'
                for p in combo:
                    kv = p.strip().split('=')
                    if len(kv) == 2:
                        want[kv[0]] = kv[1]
                ctx = tr.extract(f, car)
                x.case()
                if ctx is None:
                    x.check(not want and 'uber-trace-id' not in pre, 'context lost from %r' % car)
                    continue
                x.eq(dict(ctx.baggage), want, 'baggage from %r' % car)
                s = tr.start_span('op', child_of=ctx)
                x.eq(dict(s.context.baggage), want, 'baggage of the span started from %r' % car)
    x.state(fmt)


def b3_orders(x):
    tr = C.mk_tracer(x)
    style = x.pick(STYLES)
    f = C.formats()['b3']
    parts = {'X-B3-TraceId': 'ab', 'X-B3-SpanId': 'cd', 'X-B3-ParentSpanId': 'ef', 'X-B3-Sampled': '1', 'X-B3-Flags': '1', 'o': 'p'}
    for r in range(7):
        for subset in itertools.combinations(sorted(parts), r):
            for order in itertools.permutations(subset):
                car = {style(k): parts[k] for k in order}
                ctx = tr.extract(f, car)
                x.case()
                if 'X-B3-TraceId' not in subset or 'X-B3-SpanId' not in subset:
                    x.eq(ctx, None, 'context from %r' % car)
                    continue
                fl = (1 if 'X-B3-Sampled' in subset else 0) | (2 if 'X-B3-Flags' in subset else 0)
                x.check(ctx is not None, 'no context in %r' % car)
                x.eq(C.of(ctx), dict(trace=0xab, span=0xcd, parent=0xef if 'X-B3-ParentSpanId' in subset else None,
                                     flags=fl, baggage={}), 'context from %r' % car)
            x.state((STYLES.index(style), subset))


def neighbours(x):
    """Headers whose names resemble the configured ones, but are others, are unrelated."""
    cfg = x.pick(CONFIGS)
    fmt = x.pick(['http_headers', 'text_map', 'b3'])
    style = x.pick(STYLES)
    tr = C.mk_tracer(x, **cfg)
    f = C.formats()[fmt]
    th, px, dh = [norm(cfg.get(k, d)) for k, d in (('trace_id_header', 'uber-trace-id'), (
        'baggage_header_prefix', 'uberctx-'), ('debug_id_header', 'jaeger-debug-id'))]
    if fmt == 'b3':
        names = ['x-b3-traceid', 'x-b3-spanid', 'x-b3-parentspanid', 'x-b3-sampled', 'x-b3-flags']
        own = dict(zip(names, ['1f', '2e', '3d', '1', '0']))
        taken = set(names)
    else:
        names = [th, dh, 'jaeger-baggage']
        own = {th: '1f:2e:3d:1'}
        taken = set(names)
    for full in (True, False):
        for n in names:
            for other in (n + 'x', n + '-old', n + '-', 'x' + n, '-' + n, 'x-' + n, n[:-1], n[1:], n.replace('-', '_'), n.replace('-', ''),
                          n.replace('-', '--'), n + n, n + ':', n + ' ', ' ' + n, n[:-1] + chr(ord(n[-1]) + 1), n[::-1], n.split('-')[0],
                          n + '\u0130', 'http_' + n, 'http-' + n, 'http_' + n.replace('-', '_'), 'x-forwarded-' + n, 'x-original-' + n, 'grpc-' + n, n + '-bin',
                          'x-ot-' + n.split('-')[-1], 'my' + n.split('-')[-1], n.split('-')[-1], n.rpartition('-')[0] + '-', n.replace('b3', 'b4'),
                          n + '[]', n + '0', n + '/1', n + ';q=1', '"' + n + '"', '$' + n, n + '\n', n + '\x00', '_' + n, n + '*', n.replace('-', '.'), n.replace('-', ' '), n.replace('s', '\u017f').replace('i', '\u0131') + '\u2126'):
                if other in taken or not other or fmt != 'b3' and other.startswith(px):
                    continue
                for value in ('3:4:5:0', 'a=b', '77', 'zz', ''):
                    for first in (True, False):
                        items = [(style(k), v) for k, v in own.items()] if full else []
                        items.insert(0 if first else len(items), (other if ord(max(other)) > 127 else style(other), value))
                        ctx = tr.extract(f, dict(items))
                        x.case()
                        if not full:
                            x.check(ctx is None, 'a context from the unrelated header %r: %r' % (other, value), config=cfg)
                            continue
                        x.check(ctx is not None, 'no context next to the unrelated header %r' % other, config=cfg)
                        x.eq((C.of(ctx), ctx.debug_id), (dict(trace=0x1f, span=0x2e, parent=0x3d, flags=1, baggage={}), None),
                             'context next to the unrelated header %r: %r' % (other, value), config=cfg)
    x.state((str(cfg), fmt, STYLES.index(style)))


def pump(x):
    """Carriers with many headers and long values, and one after the other through one tracer."""
    cfg = x.pick([{}, CONFIGS[2]])
    tr = C.mk_tracer(x, **cfg)
    th, px = norm(cfg.get('trace_id_header', 'uber-trace-id')), norm(cfg.get('baggage_header_prefix', 'uberctx-'))
    fmt = x.pick(['http_headers', 'text_map'])
    back = bool(x.choose(2))
    f = C.formats()[fmt]

    for n in list(range(0, 70)) + [99, 100, 101, 127, 128, 129, 180, 255, 256, 257, 300, 1100]:
        items = [('accept-%d' % i, 'x%d' % i) for i in range(n)] + [(px + 'k%d' % i, 'v%d' % i) for i in range(n % 70)]
        items.insert(0 if back else len(items), (th, '%x:2e:3d:1' % (n + 1)))
        items.append((px + 'long', 'w' * n))
        car = dict(reversed(items) if n % 2 else items)
        ctx = tr.extract(f, car)
        x.check(ctx is not None, 'no context from %d headers' % len(car))
        x.eq((ctx.trace_id, ctx.span_id, ctx.parent_id, ctx.flags), (n + 1, 0x2e, 0x3d, 1), 'ids from %d headers' % len(car))
        want = {'k%d' % i: 'v%d' % i for i in range(n % 70)}
        want['long'] = 'w' * n
        x.eq(dict(ctx.baggage), want, 'baggage from %d headers' % len(car))
        x.case()
        x.state((str(cfg), fmt, back, n))


def scenarios(tier):
    return [Scenario('pump', pump), Scenario('orders', orders), Scenario('inject', inject), Scenario('repeats', repeats), Scenario('jaeger_baggage', jaeger_baggage),
            Scenario('b3_orders', b3_orders), Scenario('neighbours', neighbours)]
