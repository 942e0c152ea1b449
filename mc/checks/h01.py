"""H01: throttling credits against an exact model."""
import json
from fractions import Fraction
from urllib.parse import urlsplit, parse_qsl
from mc import env, net
from mc.lib import *
from mc.checks.s04 import Errors

RULE = ('every sequence of questions about operations and answers of the agent (valid, malformed, failing, late) against an exact '
        'model of the credits; the parameters of every credit request; distinct by (sequence, answers)')
ASSUMPTIONS = ['operations in answers are strings and balances numbers; others are malformed only as listed',
               'operations the agent grants credits to without having been asked for may or may not be asked for later']
INTERVAL = 0.0625
UOK, UERR = 'jaeger:throttler_update|result=ok', 'jaeger:throttler_update|result=err'
REFUSED = 'jaeger:throttled_debug_spans'


def bal(*ops, **kw):
    return dict({'balances': [{'operation': o, 'balance': b} for o, b in ops]}, **kw)


VALID = {
    'a1': bal(('a', 1)), 'a0': bal(('a', 0)), 'a.5': bal(('a', 0.5)), 'a2.25': bal(('a', 2.25)), 'b1': bal(('b', 1.0)),
    'a1b2': bal(('a', 1), ('b', 2)), 'b.75a.25': bal(('b', 0.75), ('a', 0.25)), 'aa': bal(('a', 1), ('a', 0.5)),
    'none': bal(), 'unasked': bal(('z', 3)), 'unasked+': bal(('z', 1), ('a', 1)), 'extra': bal(('a', 1), more=[1], operations='b'),
    'a.999': bal(('a', 1023 / 1024.0)), 'a1-': bal(('a', 1 - 2.0 ** -40)), 'a-tiny': bal(('a', 2.0 ** -40)), 'u': bal((u'\u00e9', 1), ('', 1)), 'aA': bal(('A', 1)), 'a3': bal(('a', 3)),
    'int': bal(('a', 1), ('b', 1), ('z', 0)),
    # credits taken back
    'a-1': bal(('a', -1)), 'a-.5b-2': bal(('a', -0.5), ('b', -2)),
}
BAD = {'t-%d' % i: v for i, v in enumerate([
    {}, [], 'balances', 7, None, True, {'balances': None}, {'balances': 5}, {'balance': [{'operation': 'a', 'balance': 3}]},
    [{'operation': 'a', 'balance': 3}], {'balances': [7]}, {'balances': ['a']}, {'balances': [['a', 3]]}, {'balances': [None]},
    {'balances': {'operation': 'a', 'balance': 3}}])}
BAD.update(('e-%d-%d' % (i, p), {'balances': ([{'operation': 'a', 'balance': 2}, {'operation': 'b', 'balance': 1}][:p] + [v] +
                                              [{'operation': 'a', 'balance': 2}, {'operation': 'b', 'balance': 1}][p:])})
           for i, v in enumerate([{}, {'operation': 'a'}, {'balance': 1}, {'operation': 'a', 'balance': '1'},
                                  {'operation': 'b', 'balance': None}, {'operation': 'b', 'balance': [1]},
                                  {'operation': 'b', 'balance': {}}, {'operation': ['a'], 'balance': 1}, {'operation': {}, 'balance': 1},
                                  None, 7, 'ab', []]) for p in range(3))
BODIES = {'empty': b'', 'text': b'nope', 'cut': b'{"balances": [{"operation": "a", "balance": 1}', 'latin': b'{"balances": ["\xff"]}',
          'deep': b'[' * 100000, 'none': None, 'number': 17, 'two': b'{"balances": []} {}', 'comma': b'{"balances": [],}'}
HTTP = ['http-500', 'http-599', 'oserror', 'timeout', 'raise', 'raise-value']
BOUNDS = ('%d valid, %d malformed answers and %d failures; every malformed one between questions and valid answers; all sequences of '
          '5 (6 thorough) steps out of 10; 14 sets of names' % (len(VALID), len(BAD) + len(BODIES), len(HTTP)))


def response(name):
    if name in VALID:
        return 'valid', json.dumps(VALID[name], ensure_ascii=len(name) % 2 == 0).encode()
    if name.startswith('s:'):
        return 'valid', json.dumps(VALID[name[2:]], ensure_ascii=False)
    if name in BAD:
        return 'bad', json.dumps(BAD[name]).encode()
    if name in BODIES:
        return 'bad', BODIES[name]
    return 'http', name


class Rig(object):
    def __init__(self, x, service='svc', client='abc', via=None):
        from jaeger_client.throttler import RemoteThrottler
        self.x, self.w = x, x.world
        env.clock.mono = 0.0
        env.rand.float_hook = lambda: 0.5
        self.errors = Errors()
        self.service, self.client = service, client
        self.todo, self.late, self.polls = [], [], []
        self.w.net.on_http = self.on_http
        self.t = RemoteThrottler(sender(x, throttling_port=5779), service, refresh_interval=INTERVAL,
                                 metrics_factory=self.w.metrics.factory(), error_reporter=self.errors)
        if client is not None:
            self.t.set_client_id(client)
        self.w.run_ready()
        self.first = True
        self.credit, self.asked = {}, set()
        self.n = {UOK: 0, UERR: 0, REFUSED: 0}

    def on_http(self, url, kw):
        import tornado.httpclient as hc
        self.check_url(url)
        if not self.todo:
            self.x.fail('a second request in the same interval')
        name = self.todo.pop(0)
        late = name.startswith('late:')
        if late:
            name = name[5:]
        kind, body = response(name)
        self.polls.append(name)
        exc = None
        if kind == 'http':
            exc = {'http-500': hc.HTTPError(500, 'no'), 'http-599': hc.HTTPError(599, 'timeout'), 'oserror': OSError(111, 'refused'),
                   'timeout': TimeoutError(), 'raise': OSError(1, 'x'), 'raise-value': ValueError('x')}[name]
            if name.startswith('raise'):
                self.account(name)
                raise exc
        f = self.w.http_future()
        if late:
            self.late.append((name, f, body, exc))
        else:
            f.set_exception(exc) if exc is not None else f.set_result(net.FakeResponse(body))
            self.account(name)
        return f

    def check_url(self, url):
        u = urlsplit(url)
        self.x.eq((u.hostname, u.port, u.path), ('agent', 5779, '/credits'), 'URL')
        q = parse_qsl(u.query, keep_blank_values=True)
        got = sorted(v for k, v in q if k == 'operations')
        self.x.check(len(got) == len(set(got)), 'an operation is asked for twice: %r' % (q,))
        must = set(o.encode('utf-8', 'replace').decode() for o in self.asked)
        may = must | set(o for o in self.credit)
        self.x.check(must <= set(got) <= may, 'the request asks for %r, the application asked for %r' % (got, sorted(must)))
        self.x.eq([v for k, v in q if k == 'service'], [self.service], 'service')
        if self.client is not None:
            self.x.eq([v for k, v in q if k == 'uuid'], [str(self.client)], 'client ID')

    def account(self, name):
        kind = response(name)[0]
        if kind != 'valid':
            self.n[UERR] += 1
            return
        self.n[UOK] += 1
        for e in VALID[name[2:] if name.startswith('s:') else name]['balances']:
            self.credit[e['operation']] = self.credit.get(e['operation'], 0) + Fraction(e['balance'])

    def poll(self, name):
        before = len(self.polls)
        self.todo = [name]
        self.w.advance(INTERVAL / 2 if self.first else INTERVAL)
        self.first = False
        if self.asked:
            self.x.check(len(self.polls) == before + 1, 'no request within an interval')
        self.todo = []

    def deliver(self):
        for name, f, body, exc in self.late:
            f.set_exception(exc) if exc is not None else f.set_result(net.FakeResponse(body))
            self.account(name)
            self.w.run_ready()
        del self.late[:]

    def ask(self, op):
        got = self.t.is_allowed(op)
        self.asked.add(op)
        want = self.credit.get(op, 0) >= 1
        if want:
            self.credit[op] -= 1
        else:
            self.n[REFUSED] += 1
        self.x.check(bool(got) == want, 'operation %r with %s credits: allowed %r, expected %r (answers %r)'
                     % (op, float(self.credit.get(op, 0)) + want, got, want, self.polls))
        return want

    def judge(self, ops=('a', 'b', 'z'), drain=True):
        g = self.w.metrics.get
        out = []
        if drain:
            for o in ops:
                k = 0
                while self.ask(o):
                    k += 1
                    self.x.check(k < 50, 'credits never end')
                out.append(k)
        for k, v in sorted(self.n.items()):
            self.x.eq(g(k), v, k)
        self.x.eq(self.errors.n, self.n[UERR], 'errors reported')
        return tuple(out)


def act(r, a):
    if a.startswith('?'):
        r.ask(a[1:])
    elif a == 'deliver':
        r.deliver()
    else:
        r.poll(a)


def sequence(x, acts, depth):
    r = Rig(x)
    seq = []
    for i in range(depth):
        a = x.pick(acts)
        seq.append(a)
        act(r, a)
        x.note(' '.join(seq))
        x.state((tuple(seq), tuple(sorted(r.credit.items()))))
    r.deliver()
    x.outcome(r.judge())


def pairs(x, names):
    r = Rig(x)
    r.ask('a')
    for i in range(2):
        r.poll(x.pick(names))
        if i or x.choose(2):
            r.judge(drain=bool(i) or x.choose(2))
    r.deliver()
    x.state(tuple(r.polls))
    x.outcome(r.judge())


def bad(x, names):
    """A malformed answer between valid ones."""
    r = Rig(x)
    r.ask('a')
    if x.choose(2):
        r.ask('b')
    first = x.pick([None, 'a1b2', 'a2.25'])
    if first:
        r.poll(first)
    if x.choose(2):
        r.ask('a')
    r.poll(x.pick(names))
    if x.choose(2):
        r.ask('b')
    r.poll(x.pick(['a.5', 'a1b2', 'none']))
    x.state((tuple(r.polls), r.judge()))


NAMES = [['a'], ['a b'], ['a&operations=b', 'b'], ['a', 'a ', 'A'], ['a=b'], ['a+b', 'a b'], ['%20', ' '], [''], [u'\u00e9', u'e\u0301'],
         [u'\U0001f600'], ['a#b'], ['a/b?c'], ['x' * 5000], [u'\udc80', 'a'], ['op%d' % i for i in range(60)], ['a;b', 'a,b']]


def names(x):
    """Every operation asked about is in the requests, under its own name."""
    r = Rig(x, service=x.pick(['svc', 's v&c', u'\u00e9', '']), client=x.pick(['abc', 'a&b c', '0', 12345678901234567890, 'A%20+']))
    ns = x.pick(NAMES)
    later = x.choose(2) and len(ns) > 1
    for n in ns[:1] if later else ns:
        r.ask(n)
    r.poll('none')
    x.check(r.polls == ['none'], 'no request')
    for n in ns:
        r.ask(n)
    r.poll('a1')
    r.poll('a1')
    r.judge(ops=ns)
    x.state((tuple(ns), later))


def order(x):
    """Client ID given before, after the first question, after the first request or never; the first one stays."""
    when = x.pick(['before', 'after', 'never', 'later', 'latest'])
    r = Rig(x, client='id-1' if when == 'before' else None)
    if when == 'before' and x.choose(2):
        r.t.set_client_id('id-3')       # of another tracer, before anything was asked
    r.ask('a')
    if when == 'after':
        r.t.set_client_id('id-1')
        r.client = 'id-1'
    if when in ('before', 'after') and x.choose(2):
        r.t.set_client_id('id-2')       # of another tracer with the same throttler
    r.poll('a1')
    for n in range({'later': 1, 'latest': 2}.get(when, 0)):
        if n:
            r.poll('e-3-1')
    if when.startswith('late'):
        # after requests were made without it
        r.t.set_client_id('id-1')
        r.client = 'id-1'
        if x.choose(2):
            r.t.set_client_id('id-2')
    r.ask('a')
    r.poll('a3')
    x.outcome(r.judge())


def through_tracer(x, how):
    """The same seen through a tracer: debug spans are sampled exactly as far as there are credits."""
    from jaeger_client.reporter import InMemoryReporter
    from jaeger_client import ConstSampler
    from opentracing.propagation import Format
    r = Rig(x, client=None)
    rep = InMemoryReporter()
    tr = tracer(x, rep, ConstSampler(False), throttler=r.t)
    uid = tr.tags.get('client-uuid')
    x.check(uid, 'the tracer has no client-uuid')
    r.client = uid
    seq = []
    acts = ['a', 'b', 'poll:a1', 'poll:a1b2', 'poll:e-3-1', 'child']
    last = None
    n_child = 0
    for i in range(5):
        a = x.pick(acts)
        seq.append(a)
        if a.startswith('poll:'):
            r.poll(a[5:])
            continue
        if a == 'child':
            if last is None:
                continue
            s = tr.start_span('a', child_of=last)
            x.eq(s.is_debug(), last.is_debug(), '%r: child is debug' % seq)
            continue
        want = r.credit.get(a, 0) >= 1
        if how == 'debug-id':
            s = tr.start_span(a, child_of=tr.extract(Format.TEXT_MAP, {'jaeger-debug-id': 'dbg'}))
        elif how == 'start-tag':
            s = tr.start_span(a, tags={'sampling.priority': 1})
        else:
            s = tr.start_span(a)
            s.set_tag('sampling.priority', 1)
        r.asked.add(a)
        if want:
            r.credit[a] -= 1
        else:
            r.n[REFUSED] += 1
        x.check(s.is_debug() == want and s.is_sampled() == want, '%s, %r: debug %r, expected %r' % (how, seq, s.is_debug(), want))
        last = s
    x.state((how, tuple(seq)))
    x.outcome(r.judge())


def pump(x):
    """Many operations, many credits, many failures in a row."""
    what = x.pick(['operations', 'credits', 'grants', 'failures', 'refusals'])
    r = Rig(x)
    if what == 'operations':
        ns = ['op%d' % i for i in range(300)]
        for o in ns:
            r.ask(o)
        r.poll('none')
        VALID['pump'] = bal(*[(o, i % 3) for i, o in enumerate(ns)])
        r.poll('pump')
        x.eq(r.judge(ops=ns), tuple(i % 3 for i in range(300)), 'credits left')
    elif what == 'credits':
        r.ask('a')
        for n in (100, 1000, 2500, 70000):
            VALID['pump'] = bal(('a', n))
            r.poll('pump')
            k = 0
            while k < 3000 and r.ask('a'):
                k += 1
            x.eq(k, min(n, 3000), 'allowed with %d credits' % n)
    elif what == 'grants':
        r.ask('a')
        for i in range(300):
            r.poll('a1')
        x.eq(sum(r.ask('a') for _ in range(400)), 300, 'allowed after 300 grants of one')
    elif what == 'failures':
        r.ask('a')
        for name in ('http-500', 'raise', 'cut', 'e-3-1', 'oserror'):
            for i in range(60):
                r.poll(name)
            r.poll('a1')
            x.eq((r.ask('a'), r.ask('a')), (True, False), 'allowed after 60 failures (%s) and a grant' % name)
    else:
        for i in range(500):
            r.ask('a')
            r.ask('b%d' % i)
        r.poll('a1')
        x.eq((r.ask('a'), r.ask('a')), (True, False), 'allowed after 500 refusals and a grant')
    VALID.pop('pump', None)
    r.judge(drain=False)
    x.case()
    x.state(what)


def scenarios(tier):
    t = tier == 'thorough'
    late = ['late:' + n for n in ('a1', 'a1b2', 'cut', 'http-500', 'e-3-1')]
    acts = ['?a', '?b', 'a1', 'a.5', 'b1', 'aa', 'e-3-1', 'http-500', 'late:a1b2', 'deliver']
    allbad = sorted(BAD) + sorted(BODIES) + HTTP
    out = [Scenario('sequence', sequence, params=dict(acts=acts, depth=6 if t else 5)),
           Scenario('consume', sequence, params=dict(acts=['?a', '?b', 'a2.25', 'b.75a.25'], depth=8 if t else 7)),
           Scenario('pairs', pairs, params=dict(names=sorted(VALID) + late + ['s:a1', 's:b1'])),
           Scenario('bad', bad, params=dict(names=allbad)),
           Scenario('names', names), Scenario('order', order)]
    out += [Scenario('tracer-%s' % h, through_tracer, params=dict(how=h)) for h in ('debug-id', 'start-tag', 'set-tag')]
    return out + [Scenario('pump', pump)]
