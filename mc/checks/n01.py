"""N01: what is asked of the agent and where it is asked."""
import itertools
import socket
from mc import env, net
from mc.lib import *

NAMES = ['svc', '', ' ', 'a b', 'a&b', 'a=b', 'a+b', 'a%20b', '50%', 'a/b?c#d', 'GET /x?y=1&z', u'\u00e9', u'\u20ac\u4e2d', u'\U0001f600', '\ud800', 'x\ud800y', 'a;b', 'a,b', "'\"<>\\",
         'a\nb', '\r\n\r\nHost: evil', 'tab\there', '\0', '~-_.!*()', 'service=x', 'A' * 300, 'op|{}[]^`', '\x7f\x80', 'http://h/p', '::', '#', '?', '&', '%zz']
RULE = ('every name of the alphabet as service, operation and client ID, alone and in pairs, through sampler, throttler, sender and Config; '
        'the URLs are taken apart by an independent strict parser; every host and port form; every answer of the resolver; distinct by inputs')
BOUNDS = '%d names, all pairs of (service, operation) and of operations; triples in thorough' % len(NAMES)
ASSUMPTIONS = ['host names are given as they belong in a URL', 'lone surrogates may be replaced']


def pct(s):
    """Strict decoder of one query component (+ or %20 for a space)."""
    out = bytearray()
    i = 0
    ok = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!*\'()/:@?$,;'
    b = s.encode('ascii')
    while i < len(b):
        c = b[i:i + 1]
        if c == b'+':
            out += b' '
        elif c == b'%':
            h = b[i + 1:i + 3]
            assert len(h) == 2 and all(ch in b'0123456789abcdefABCDEF' for ch in h), s
            out.append(int(h, 16))
            i += 2
        else:
            assert c in ok, s
            out += c
        i += 1
    return out.decode('utf-8')


def take_apart(x, url):
    x.check(isinstance(url, str), 'not a URL: %r' % (url,))
    try:
        url.encode('ascii')
        assert url.startswith('http://'), 'scheme'
        rest = url[7:]
        assert '#' not in rest and all(32 < ord(c) < 127 for c in rest), 'characters'
        host, _, rest = rest.partition('/')
        path, _, query = rest.partition('?')
        params = []
        for part in query.split('&') if query else []:
            k, eq, v = part.partition('=')
            assert eq, 'no value'
            params.append((pct(k), pct(v)))
    except (AssertionError, UnicodeError) as e:
        x.fail('malformed URL %r: %s' % (url, e))
    return host, '/' + path, params


def same(a, b):
    return a == b or a == b.encode('utf-8', 'replace').decode('utf-8')


class Agent(object):
    """Answers and remembers requests."""

    def __init__(self, x):
        self.x, self.w, self.reqs, self.kw = x, x.world, [], []
        self.w.net.on_http = self.on_http
        self.answer = b'{"strategyType":"PROBABILISTIC","probabilisticSampling":{"samplingRate":1.0}}'

    def on_http(self, url, kw):
        self.reqs.append(take_apart(self.x, url))
        self.kw.append(kw)
        return self.w.http_future(net.FakeResponse(b'{"balances":[]}' if '/credits' in url.split('?')[0] else self.answer))

    def sampling(self, svc, where='agent:5778'):
        r = [q for q in self.reqs if q[1] == '/sampling']
        self.x.check(r, 'no request for a sampling strategy')
        for host, path, params in r:
            self.x.eq(host, where, 'host and port asked for a strategy')
            self.x.check(len(params) == 1 and params[0][0] == 'service' and same(params[0][1], svc), 'service %r: asked for a strategy with %r' % (svc, params))
        return len(r)

    def credits(self, svc, uuid, ops, where='agent:5778'):
        r = [q for q in self.reqs if q[1] == '/credits']
        for host, path, params in r:
            self.x.eq(host, where, 'host and port asked for credits')
            what = 'service %r, uuid %r, operations %r: asked with %r' % (svc, uuid, ops, params)
            self.x.check({k for k, _ in params} <= {'service', 'uuid', 'operations'}, what)
            by = {k: [v for kk, v in params if kk == k] for k in ('service', 'uuid', 'operations')}
            self.x.check(len(by['service']) == 1 and same(by['service'][0], svc), what)
            self.x.check(uuid is None or len(by['uuid']) == 1 and same(by['uuid'][0], uuid), what)
            self.x.check(len(by['operations']) == len(ops) and all(any(same(v, o) for v in by['operations']) for o in ops)
                         and all(any(same(v, o) for o in ops) for v in by['operations']), what)
        return len(r)

    def rest(self):
        self.x.check(all(q[1] in ('/sampling', '/credits') for q in self.reqs), 'requests %r' % self.reqs)


def sampler(x):
    from jaeger_client.sampler import RemoteControlledSampler
    a = Agent(x)
    env.rand.float_hook = lambda: 0.5
    svc = x.pick(NAMES)
    s = RemoteControlledSampler(sender(x), svc, sampling_refresh_interval=8)
    x.world.advance(20)
    x.check(a.sampling(svc) >= 2, 'service %r: only %d requests' % (svc, len(a.reqs)))
    a.rest()
    s.close()
    x.state(svc)


def throttler(x, n):
    from jaeger_client.throttler import RemoteThrottler
    a = Agent(x)
    env.rand.float_hook = lambda: 0.5
    svc = x.pick(NAMES)
    ops_ = []
    for i in range(n):
        o = x.pick(NAMES)
        if o not in ops_:
            ops_.append(o)
    cid = x.pick(NAMES[1:]) if n == 1 else None
    t = RemoteThrottler(sender(x, throttling_port=5779), svc, refresh_interval=8)
    for o in ops_:
        t.is_allowed(o)
    if cid is not None:
        t.set_client_id(cid)
    x.world.advance(20)
    k = a.credits(svc, cid or None, ops_, 'agent:5779')
    if cid is not None:
        x.check(k >= 1, 'no request for credits')
    a.rest()
    t.close()
    x.state((svc, cid, tuple(ops_)))


def sender_(x):
    """The requests directly, with the forms of host and port."""
    a = Agent(x)
    host = x.pick(['localhost', '127.0.0.1', 'jaeger-agent.example.com', '[::1]'])
    sp, tp = x.pick([5778, '5778', 80, 65535]), x.pick([5779, '5781', 1])
    s = sender(x, host=host, sampling_port=sp, throttling_port=tp)
    how = x.choose(3)
    if how == 0:
        f1, f2 = s.request_sampling_strategy('svc'), s.request_throttling_credits('svc', '12', ['a', 'b'])
    elif how == 1:
        f1, f2 = s.request_sampling_strategy('svc', timeout=7), s.request_throttling_credits('svc', '12', ['a', 'b'], timeout=7)
    else:
        f1, f2 = s.request_sampling_strategy(service_name='svc'), s.request_throttling_credits(service_name='svc', client_id='12', operations=['a', 'b'])
    for k in a.kw:
        x.eq(k.get('request_timeout'), 7 if how == 1 else 15, 'timeout of the request')
    x.check(f1.result().body == a.answer and f2.result().body == b'{"balances":[]}', 'the answers were not passed on')
    x.eq(a.sampling('svc', '%s:%s' % (host, sp)), 1, 'requests')
    x.eq(a.credits('svc', '12', ['a', 'b'], '%s:%s' % (host, tp)), 1, 'requests')
    x.eq(len(a.reqs), 2, 'requests')
    x.state((host, sp, tp, how))


CFG = {'none': {}, 'host': {'reporting_host': 'h1'}, 'ports': {'sampling_port': 1001, 'reporting_port': 1002}, 'text-ports': {'sampling_port': '1001', 'reporting_port': '1002'},
       'all': {'reporting_host': 'h1', 'sampling_port': 1001, 'reporting_port': 1002, 'enabled': True}}


def config(x, svc_list):
    """Through Config: strategy, credits and spans go to the configured places, with the client ID of the process."""
    import os
    from jaeger_client import Config, SpanContext
    a = Agent(x)
    env.rand.float_hook = lambda: 0.5
    svc, op = x.pick(svc_list), x.pick(svc_list)
    c = x.pick(sorted(CFG)) if len(svc_list) <= 4 else 'all'
    e = x.pick([{}, {'JAEGER_AGENT_HOST': 'h2'}, {'JAEGER_AGENT_PORT': '2002'}, {'JAEGER_SAMPLING_ENDPOINT': 'http://x'}, {'JAEGER_AGENT_HOST': 'h2', 'JAEGER_AGENT_PORT': '2002'}]
               ) if len(svc_list) <= 4 else {}
    th = dict({'refresh_interval': 8}, **(x.pick([{}, {'port': 3001}, {'port': '3002'}]) if len(svc_list) <= 4 else {}))
    if not svc:
        return
    os.environ.update(e)
    try:
        tr = Config({'local_agent': dict(CFG[c]), 'throttler': th, 'sampling_refresh_interval': 8, 'reporter_flush_interval': 1}, service_name=svc
                    ).new_tracer(x.world.io_loop)
    finally:
        for k in e:
            del os.environ[k]
    x.world.run_ready()
    tp = int(th.get('port', 5778))
    host = CFG[c].get('reporting_host', e.get('JAEGER_AGENT_HOST', 'localhost'))
    sp, rp = int(CFG[c].get('sampling_port', 5778)), int(CFG[c].get('reporting_port', e.get('JAEGER_AGENT_PORT', 6831)))
    tr.start_span(op, child_of=SpanContext(1, 2, 3, 1)).finish()
    tr.start_span(op, tags={'sampling.priority': 1}).finish()
    x.world.advance(20)
    a.sampling(svc, '%s:%d' % (host, sp))
    x.check(a.credits(svc, None, [op], '%s:%d' % (host, tp)) >= 1, 'no credits were asked for')
    uuids = {v for q in a.reqs if q[1] == '/credits' for k, v in q[2] if k == 'uuid'}
    x.eq(len(uuids), 1, 'client IDs %r' % uuids)
    bs = batches(x)
    x.check(bs, 'nothing reported')
    for b in bs:
        x.eq([str(tg[-1]) for tg in b['tags'] if tg[0] == 'client-uuid'], list(uuids), 'the client-uuid of the process and the uuid asked with')
    for _, addr in x.world.net.packets:
        x.check(addr[0] == host and int(addr[1]) == rp, 'spans were sent to %r instead of %s:%d' % (addr, host, rp))
    a.rest()
    tr.close()
    x.world.advance(2)
    x.state((svc, op, c, tuple(sorted(e))))


V4 = (socket.AF_INET, socket.SOCK_DGRAM, 17, '', ('192.0.2.99', 6831))
V6 = (socket.AF_INET6, socket.SOCK_DGRAM, 17, '', ('2001:db8::1', 6831, 0, 0))


def udp(x):
    """The socket has the family of the first address of the agent; spans go to the agent as configured."""
    ans = x.pick([[V4], [V6], [V4, V6], [V6, V4], [], OSError(5, 'io'), socket.gaierror(-2, 'x'), UnicodeError('x')])
    host, port = x.pick(['agent', '192.0.2.99', '2001:db8::1', 'h.example']), x.pick([6831, 1, 65535])
    seen = []
    opened = []

    def resolve(h, p):
        seen.append((h, p))
        if isinstance(ans, Exception):
            raise ans
        return [a[:4] + ((a[4][0], p) + a[4][2:],) for a in ans]
    x.world.net.on_resolve = resolve
    n = len(x.world.net.sockets)
    rep = reporter(x, sender(x, host=host, reporting_port=port), batch_size=1)
    tr = tracer(x, rep)
    x.world.run_ready()
    socks = [s for s in x.world.net.sockets[n:] if s.type == socket.SOCK_DGRAM and not s.closed]
    x.eq(len(socks), 1, 'open sockets')
    want = ans[0][0] if isinstance(ans, list) and ans else socket.AF_INET
    x.eq(int(socks[0].family), int(want), 'family of the socket, resolver said %r' % (ans,))
    x.check(socks[0].blocking is False, 'sending spans may block')
    x.check(all(h == host and int(p) == port for h, p in seen), 'resolved %r' % seen)
    for i in range(3):
        tr.start_span('a').finish()
    x.world.advance(2)
    x.eq(len(x.world.net.packets), 3, 'datagrams')
    for _, addr in x.world.net.packets:
        x.check(int(addr[1]) == port and (addr[0] == host or isinstance(ans, list) and ans and addr[0] == ans[0][4][0]), 'sent to %r instead of %s:%d' % (addr, host, port))
    tr.close()
    x.world.advance(2)
    x.state((str(ans), host, port))


def pump(x):
    """Requests with very many operations and very long names."""
    from jaeger_client.throttler import RemoteThrottler
    a = Agent(x)
    env.rand.float_hook = lambda: 0.5
    n, length = x.pick([(99, 3), (101, 3), (257, 3), (1100, 3), (1, 1000), (2, 20000), (60, 400)])
    ops_ = ['%s%d' % ('o' * length, i) for i in range(n)]
    svc = 's' * length
    if x.choose(2):
        s = sender(x, throttling_port=5779)
        s.request_throttling_credits(svc, '12', ops_)
        s.request_sampling_strategy(svc)
        x.eq((a.credits(svc, '12', ops_, 'agent:5779'), a.sampling(svc)), (1, 1), 'requests')
    else:
        t = RemoteThrottler(sender(x, throttling_port=5779), svc, refresh_interval=8)
        for o in ops_:
            t.is_allowed(o)
        t.set_client_id('12')
        x.world.advance(20)
        x.check(a.credits(svc, '12', ops_, 'agent:5779') >= 1, 'no request for credits')
        t.close()
    a.rest()
    x.state((n, length))
    x.case()


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('sampler', sampler), Scenario('throttler-1', throttler, params=dict(n=1)), Scenario('throttler-2', throttler, params=dict(n=2)),
           Scenario('sender', sender_), Scenario('udp', udp), Scenario('config-names', config, params=dict(svc_list=NAMES)),
           Scenario('config-places', config, params=dict(svc_list=['svc', u'a b&\u00e9']))]
    if t:
        out.append(Scenario('throttler-3', throttler, params=dict(n=3)))
    return out + [Scenario('pump', pump)]
