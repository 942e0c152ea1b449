"""X01: the crossdock server's messages and its trace generator."""
import itertools
import json
from mc.lib import *
from mc.checks.t02 import on_loop

RULE = ('every chain of downstream calls up to the depth with every subset of fields set, through JSON and thriftrw structures; '
        'every request to the trace generator; distinct by message')
BOUNDS = 'chains of up to 3 hops; 6 fields per hop; 3 tracer kinds x counts 0-3 x 4 tag sets x 4 agent addresses'

TEXT = ['s1', '', 'n\u00e9 "x"\n']


def ttypes():
    from crossdock.thrift_gen.tracetest import ttypes
    return ttypes


HOPS = [dict(), dict(serviceName='svc', serverRole='s2', host='h', port='80', transport=0),
        dict(serviceName='svc', serverRole='n\u00e9 "x"\n', host='', port='8082', transport=1), dict(transport=1), dict(host='only'),
        dict(serviceName='svc', serverRole='', host='h', port='')]


def chains(depth):
    yield None
    if depth:
        for h in HOPS:
            for d in chains(depth - 1):
                yield (h, d)


def down(c):
    """The repository's Downstream chain."""
    if c is None:
        return None
    return ttypes().Downstream(downstream=down(c[1]), **c[0])


NAMES = {0: 'HTTP', 1: 'TCHANNEL'}


def down_json(c):
    if c is None:
        return None
    out = {k: c[0].get(k) for k in ('serviceName', 'serverRole', 'host', 'port')}
    if 'transport' in c[0]:
        out['transport'] = NAMES[c[0]['transport']]
    if c[1] is not None:
        out['downstream'] = down_json(c[1])
    return out


def drop_none(v):
    if isinstance(v, dict):
        return {k: drop_none(w) for k, w in v.items() if w is not None}
    return v


def requests(x):
    from crossdock.server import serializer as S
    T = ttypes()
    for c in chains(3):
        for role in (None, 's2', '', 'n\u00e9 "x"\n'):
            d = down(c)
            text = S.join_trace_request_to_json(d, role)
            want = drop_none({'downstream': down_json(c), 'serverRole': role})
            x.eq(drop_none(json.loads(text)), want, 'request in JSON')
            for body in (text, text.encode('utf-8'), bytearray(text.encode('utf-8')), json.dumps(dict(want, unknown=[1], other=None))):
                got = S.join_trace_request_from_json(body)
                x.check(isinstance(got, T.JoinTraceRequest) and got == T.JoinTraceRequest(serverRole=role, downstream=d),
                        'request read from %r: %r, expected role %r, downstream %r' % (body, got, role, d))
                x.case()
            for sampled, bag in ((True, 'b'), (False, ''), (None, None)):
                v = {'serverRole': role, 'sampled': sampled, 'baggage': bag, 'downstream': down_json(c)}
                got = S.start_trace_request_from_json(json.dumps(v).encode())
                x.check(got == T.StartTraceRequest(serverRole=role, sampled=sampled, baggage=bag, downstream=d),
                        'start request read from %r: %r' % (v, got))
                x.case()
    x.state('requests')


SPANS = [None, dict(traceId='1f', sampled=True, baggage='b'), dict(traceId='', sampled=False, baggage=''),
         dict(traceId='a' * 32, sampled=False, baggage='n\u00e9 "x"\n'), dict(traceId='5', sampled=True)]


def responses_of(depth):
    yield None
    if depth:
        for s in SPANS:
            for e in (None, '', 'not implemented'):
                for d in responses_of(depth - 1):
                    yield (s, e, d)


def resp(r):
    T = ttypes()
    if r is None:
        return None
    return T.TraceResponse(span=T.ObservedSpan(**r[0]) if r[0] is not None else None, notImplementedError=r[1], downstream=resp(r[2]))


def resp_json(r):
    if r is None:
        return None
    out = {'notImplementedError': r[1]}
    if r[0] is not None:
        out['span'] = {k: r[0].get(k) for k in ('traceId', 'sampled', 'baggage')}
    if r[2] is not None:
        out['downstream'] = resp_json(r[2])
    return out


def responses(x):
    from crossdock.server import serializer as S
    for r in responses_of(2):
        if r is None:
            continue
        for r in (r, (SPANS[1], '', r)):
            o = resp(r)
            js = S.traced_service_object_to_json(o)
            x.eq(drop_none(js), drop_none(resp_json(r)), 'response in JSON')
            text = json.dumps(js)
            for body in (text, text.encode('utf-8'), bytearray(text.encode('utf-8')), json.dumps(dict(js, unknown={'a': 1}))):
                got = S.traceresponse_from_json(body)
                x.check(got == o, 'response read from %r: %r, expected %r' % (body, got, o))
                x.case()
    for bad in ('', '{', 'nul', b'\xff', '{"span": {"traceId": }'):
        try:
            got = S.traceresponse_from_json(bad)
        except ValueError:
            x.case()
            continue
        x.fail('response %r was read as %r' % (bad, got))
    x.state('responses')


class Service(object):
    """Stands in for a module made by thriftrw: its structures take only structures of its own as members."""

    def __init__(self):
        svc = self

        def struct(name, fields, own):
            class Struct(object):
                def __init__(self, *a, **kw):
                    vals = dict(zip(fields, a), **kw)
                    for k, v in vals.items():
                        assert k in fields, k
                        if k in own and v is not None and not isinstance(v, getattr(svc, own[k])):
                            raise TypeError('%s.%s is %r' % (name, k, v))
                        setattr(self, k, v)
                    self.fields = {f: vals.get(f) for f in fields}
            Struct.__name__ = name
            setattr(svc, name, Struct)
        struct('Downstream', ['serviceName', 'serverRole', 'host', 'port', 'transport', 'downstream'], {'downstream': 'Downstream'})
        struct('JoinTraceRequest', ['serverRole', 'downstream'], {'downstream': 'Downstream'})
        struct('ObservedSpan', ['traceId', 'sampled', 'baggage'], {})
        struct('TraceResponse', ['span', 'downstream', 'notImplementedError'], {'span': 'ObservedSpan', 'downstream': 'TraceResponse'})


def plain(o):
    if hasattr(o, 'fields'):
        return {k: plain(v) for k, v in o.fields.items() if v is not None}
    return o


def thriftrw(x):
    from crossdock.server import thriftrw_serializer as S
    T = ttypes()
    svc = Service()

    def want_down(c):
        if c is None:
            return None
        return drop_none(dict(c[0], downstream=want_down(c[1])))

    for c in chains(3):
        for role in (None, 's2', ''):
            got = plain(S.join_trace_request_to_thriftrw(svc, T.JoinTraceRequest(serverRole=role, downstream=down(c))))
            x.eq(got, drop_none({'serverRole': role, 'downstream': want_down(c)}), 'request as thriftrw structure')
            x.case()

    def want_resp(r):
        if r is None:
            return None
        return drop_none({'span': drop_none(dict(r[0])), 'downstream': want_resp(r[2]), 'notImplementedError': r[1] or ''})

    for r in responses_of(2):
        if r is None or r[0] is None or (r[2] is not None and r[2][0] is None):
            continue        # the span is observed before anything is answered
        for r in (r, (SPANS[3], None, r), (SPANS[1], '', (SPANS[4], 'e', r))):
            x.eq(plain(S.trace_response_to_thriftrw(svc, resp(r))), want_resp(r), 'response as thriftrw structure')
            x.case()
    x.eq(S.trace_response_to_thriftrw(svc, None), None, 'no response')
    x.state('thriftrw')


def fields(x):
    """Every combination of fields of one hop, at every depth of the chain."""
    from crossdock.server import serializer as S
    from crossdock.server import thriftrw_serializer as TS
    T = ttypes()
    svc = Service()
    depth = x.choose(6)
    role = x.pick([None, 's2', ''])
    plainhop = dict(serviceName='svc', serverRole='r', host='h', port='80', transport=0)
    for vals in itertools.product([None, '', 'x'], [None, '', 'y'], [None, '', 'z'], [None, '', '8'], [None, 0, 1]):
        hop = {k: v for k, v in zip(('serviceName', 'serverRole', 'host', 'port', 'transport'), vals) if v is not None}
        c = (hop, (plainhop, None))
        for i in range(depth):
            c = (dict(plainhop, port=str(i)), c)

        def want_down(c):
            return None if c is None else drop_none(dict(c[0], downstream=want_down(c[1])))
        d = down(c)
        got = plain(TS.join_trace_request_to_thriftrw(svc, T.JoinTraceRequest(serverRole=role, downstream=d)))
        x.eq(got, drop_none({'serverRole': role, 'downstream': want_down(c)}), 'request as thriftrw structure')
        text = S.join_trace_request_to_json(d, role)
        x.eq(drop_none(json.loads(text)), drop_none({'downstream': down_json(c), 'serverRole': role}), 'request in JSON')
        got = S.join_trace_request_from_json(text)
        x.check(got == T.JoinTraceRequest(serverRole=role, downstream=d), 'request read from %r: %r' % (text, got))
        x.case()
    x.state((depth, role))


class Req(object):
    def __init__(self, body):
        self.body = body


class Writer(object):
    def __init__(self):
        self.n = 0

    def finish(self):
        self.n += 1


ADDR = [(None, ('jaeger-agent', 6831)), ('agent7:16831', ('agent7', 16831)), ('nonsense', ('jaeger-agent', 6831)),
        ('h:p', ('jaeger-agent', 6831)), ('a:1:2', ('jaeger-agent', 6831))]
TAGS = [None, {}, {'key': 'value'}, {'a': 1, 'b': True, 'c': 0.5, 'd': ''}]


def generator(x):
    """create_traces: count traces of the operation with the tags are reported to the agent."""
    import os
    addr, (host, port) = x.pick(ADDR)
    os.environ.pop('AGENT_HOST_PORT', None)
    if addr:
        os.environ['AGENT_HOST_PORT'] = addr
    try:
        from crossdock.server.endtoend import EndToEndHandler
        h = EndToEndHandler()
    finally:
        os.environ.pop('AGENT_HOST_PORT', None)
    reqs = []
    want = []
    for step in range(2):
        body = {'operation': 'op%d' % step, 'count': x.pick([2, 0, 1, 3, None]), 'type': x.pick(['const', 'remote', None])}
        tags = x.pick(TAGS)
        if tags is not None:
            body['tags'] = tags
        body = {k: v for k, v in body.items() if v is not None}
        raw = json.dumps(body)
        w = Writer()
        on_loop(x, lambda: h.generate_traces(Req(raw if step else raw.encode()), w))
        x.world.run_ready()
        x.eq(w.n, 1, 'answers to the request %s' % raw)
        want += [(body['operation'], body.get('tags') or {})] * body.get('count', 0)
        reqs.append(raw)
    x.world.advance(5)
    got, addrs = [], set()
    for b in batches(x):
        x.eq(b['service'], 'crossdock-python', 'service')
        for s in b['spans']:
            tags = {k: v for k, _, v in s['tags'] if not k.startswith('sampler.')}
            got.append((s['operation'], tags))
            x.check(s['flags'] & 1 and s['parent_id'] == 0, 'a span of the generator is no sampled root: %r' % s)
    for _, a in x.world.net.packets:
        addrs.add(a[:2])
    key = lambda e: (e[0], sorted(e[1].items(), key=str))  # noqa
    x.eq(sorted(got, key=str), sorted(want, key=str), 'spans at the agent', requests=reqs)
    if want:
        x.eq(addrs, {(host, port)}, 'address of the agent for AGENT_HOST_PORT=%r' % addr)
    x.state((addr, str(reqs)))


def pump(x):
    """Many traces, many tags, many requests to one server: all of them are reported."""
    from crossdock.server.endtoend import EndToEndHandler
    n, per = x.pick([(1, 90), (40, 5), (30, 0), (12, 25), (3, 80)])
    big = x.choose(2)
    h = EndToEndHandler()
    want = []
    for i in range(n):
        tags = {'k%d' % j: 'v%d-%d' % (i, j) for j in range(30 if big and i % 5 == 0 else 1)}
        body = {'operation': 'op%d' % i, 'count': per, 'type': 'const', 'tags': tags}
        w = Writer()
        on_loop(x, lambda: h.generate_traces(Req(json.dumps(body)), w))
        x.world.advance(0.2)
        x.eq(w.n, 1, 'answers to request %d' % i)
        want += [('op%d' % i, tags)] * per
    x.world.advance(5)
    got = []
    for b in batches(x):
        for s in b['spans']:
            got.append((s['operation'], {k: v for k, _, v in s['tags'] if not k.startswith('sampler.')}))
    key = lambda e: (e[0], sorted(e[1].items(), key=str))  # noqa
    x.eq(len(got), len(want), 'spans at the agent after %d requests of %d' % (n, per))
    x.eq(sorted(got, key=key), sorted(want, key=key), 'spans at the agent')
    # the IDs of the traces differ
    ids = [s['trace_id'] if 'trace_id' in s else s['trace'] for b in batches(x) for s in b['spans']]
    x.eq(len(set(ids)), len(want), 'traces')
    x.case(n)
    x.state((n, per, big))


def scenarios(tier):
    return [Scenario('requests', requests), Scenario('responses', responses), Scenario('thriftrw', thriftrw), Scenario('fields', fields), Scenario('generator', generator), Scenario('pump', pump)]
