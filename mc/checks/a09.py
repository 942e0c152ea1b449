"""A09: what a span tells about itself, and the convenience calls for logging on it."""
from mc.lib import *
from mc import startspan as S

RULE = ('every sequence of updates, convenience calls and with-blocks on a span x the ways to start it; after each '
        'step everything the span tells is compared with a model; distinct by (start, operations)')
CAP_THOROUGH = 1500

M64 = (1 << 64) - 1
STARTS = {
    'root': {}, 'unsampled': {}, 'remote': dict(ctx=((0xabc << 64) | 0x12, 0x34, 0x56, 1)), 'remote-0': dict(ctx=(5, 6, None, 0)),
    'debug': dict(ctx=(M64, M64, 0xf, 3)), 'flags': dict(ctx=(1, 1, 1, 0xf9)), 'server': dict(tags=[('span.kind', 'server')]),
    'client': dict(tags=[('x', 1), ('span.kind', 'client')]), 'none': dict(op=None),
}
KINDS = ['server', 'client', 'producer', 'consumer', 'CLIENT', '', 7, True, None]
KV = 'kv'


class Boom(ValueError):
    pass


class Odd(Exception):
    def __str__(self):
        return 'x' * 30


OPS = ([('kind', k) for k in KINDS] + [('tag', 'error'), ('tag', 'span.kind2')] +
       [('prio', 1), ('prio', 0), ('rename', 'new name'), ('rename', '')] +
       [('bag', 'k', 'v'), ('bag', 'k', None), ('bag', 'K', 'w')] +
       [(f, p) for f in ('info', 'error') for p in (None, '', 'pay', 0, {'a': 1})] +
       [('log_event', None), ('log_event', 'pay'), ('log_event', ''), ('log', {'event': 'e'}), ('log', {'payload': 5}), ('log', {}),
        ('log', {'event': 'e', 'payload': '', 'timestamp': 12.5, 'other': 1})] +
       [('raise', 'Boom'), ('raise', 'Odd'), ('raise', 'none')])

BOUNDS = '9 starts x all sequences of 2-3 (3-4 thorough) operations out of %d; text limits 7 and 1024' % len(OPS)


def text(v, limit):
    if isinstance(v, (bool, float)) or type(v) is int:
        return v
    return str(v)[:limit]


def history(x, start, depth, limit):
    from jaeger_client import SpanContext
    import traceback
    cfg = STARTS[start]
    rep = S.RecordingReporter()
    tr = tracer(x, rep, S.ScriptSampler([start != 'unsampled']), service_name='svc', max_tag_value_length=limit,
                max_traceback_length=limit + 3)
    kw = {}
    if 'tags' in cfg:
        kw['tags'] = dict(cfg['tags'])
    op = cfg.get('op', 'op')
    if 'ctx' in cfg:
        kw['child_of'] = SpanContext(*cfg['ctx'])
    s = tr.start_span(op, **kw)
    name = op or ''
    flags = cfg['ctx'][3] if 'ctx' in cfg else int(start != 'unsampled')
    kind = [v for k, v in cfg.get('tags', []) if k == 'span.kind'][:1]
    bag, logs, ntags, done = {}, [], [], False
    t0, p0 = s.trace_id, s.span_id
    if 'ctx' in cfg:
        x.eq((s.trace_id, s.parent_id), cfg['ctx'][:2], 'ids')
    else:
        x.eq(s.parent_id, None, 'parent of a root')
    par = s.parent_id
    base = tags_of(s)
    seq = [start]

    def log(fields, ts=None):
        if flags & 1:
            logs.append(([(k, v) for k, v in fields], ts))

    def tag(k, v):
        if flags & 1:
            ntags.append((k, text(v, limit)))
            if k == 'span.kind' and not kind:
                kind.append(v)

    def judge():
        what = ' '.join(map(str, seq))
        x.eq((s.trace_id, s.span_id, s.parent_id, s.flags), (t0, p0, par, flags), '%s: ids and flags' % what)
        c = s.context
        x.eq((c.trace_id, c.span_id, c.parent_id, c.flags, dict(c.baggage)), (t0, p0, par, flags, bag), '%s: context' % what)
        x.eq((s.is_sampled(), s.is_debug()), (bool(flags & 1), bool(flags & 2)), '%s: sampled, debug' % what)
        x.eq((bool(s.is_rpc()), bool(s.is_rpc_client())), (kind[:1] in (['server'], ['client']), kind[:1] == ['client']),
             '%s: RPC kind' % what)
        x.eq(s.operation_name, name, '%s: operation name' % what)
        x.eq(repr(s), '%x:%x:%x:%x svc.%s' % (t0, p0, par or 0, flags, name), '%s: text form' % what)
        x.check(s.tracer is tr, '%s: tracer' % what)
        x.eq([s.get_baggage_item(k) for k in ('k', 'K', 'z', '')], [bag.get('k'), bag.get('K'), None, None], '%s: baggage item' % what)
        x.eq(tags_of(s), base + ntags, '%s: tags' % what)
        x.eq(len(s.logs), len(logs), '%s: logs' % what)
        for l, (want, ts) in zip(s.logs, logs):
            x.eq([(f.key, tag_value(f)) for f in l.fields], want, '%s: fields of a log' % what)
            x.eq(l.timestamp, int((env.clock.wall() if ts is None else ts) * 1000000), '%s: time of a log' % what)
        x.eq(len(rep.spans), int(done), '%s: reports' % what)
    judge()
    for _ in range(depth):
        o = x.pick(OPS if not done else OPS[:1])
        if done:
            break
        seq.append(o)
        f, v = o[0], o[1]
        r = s
        if f == 'kind':
            r = s.set_tag('span.kind', v)
            tag('span.kind', v)
        elif f == 'tag':
            r = s.set_tag(v, 'client')
            tag(v, 'client')
        elif f == 'prio':
            r = s.set_tag('sampling.priority', v)
            if not v:
                flags &= ~3
            elif not flags & 2:
                flags |= 3
                tag('sampling.priority', v)
        elif f == 'rename':
            r = s.set_operation_name(v)
            name = v
        elif f == 'bag':
            r = s.set_baggage_item(v, o[2])
            log([('event', 'baggage'), ('key', v), ('value', text(o[2], limit))] + ([('override', 'true')] if bag.get(v) else []))
            bag = dict(bag)
            if o[2] is None:
                bag.pop(v, None)
            else:
                bag[v] = o[2]
        elif f in ('info', 'error'):
            r = getattr(s, f)('long message', v)
            if f == 'error':
                tag('error', True)
            log([('event', 'long message'[:limit])] + ([('payload', text(v, limit))] if v else []))
        elif f == 'log_event':
            r = s.log_event('long message', v)
            log([('event', 'long message'[:limit])] + ([('payload', text(v, limit))] if v is not None else []))
        elif f == 'log':
            r = s.log(**v)
            log([(k, text(v[k], limit)) for k in ('event', 'payload') if k in v], v.get('timestamp'))
        elif f == 'raise':
            exc = {'Boom': Boom('long message'), 'Odd': Odd(), 'none': None}[v]
            got = []
            try:
                with s as me:
                    got.append(me)
                    if exc is not None:
                        raise exc
            except (Boom, Odd) as e:
                got.append(e)
                x.check(e is exc, 'the exception is replaced')
            x.eq(len(got), 1 if exc is None else 2, '%s: exception through the block' % seq)
            x.check(got[0] is s, '%s: with-block does not give the span' % seq)
            if exc is not None:
                tag('error', True)
                # the traceback as it was when the exception left the block
                tb = ''.join(traceback.format_tb(exc.__traceback__))
                log([('event', 'error'), ('message', str(exc)[:limit]), ('error.object', str(exc)[:limit]),
                     ('error.kind', str(type(exc))[:limit]), ('stack', tb[:limit + 3])])
            done = bool(flags & 1)
        x.check(r is s, '%s does not return the span' % (o,))
        judge()
        x.state(tuple(map(str, seq)))
    x.case()


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('history-%s' % n, history, params=dict(start=n, depth=3 if t or n in ('root', 'remote-0') else 2, limit=7 if n in ('remote', 'client') else 1024))
           for n in STARTS]
    if t:
        out += [Scenario('deep-%s' % n, history, params=dict(start=n, depth=4, limit=1024)) for n in ('root', 'remote-0')]
    return out
