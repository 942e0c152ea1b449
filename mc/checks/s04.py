"""S04: strategies from the agent take effect completely or not at all, whatever the agent answers."""
import itertools
import json
from fractions import Fraction
from mc import env, net
from mc.lib import *
from mc.checks.s02 import Model as Bucket
from mc.checks import s03

RULE = ('every sequence of answers of the agent from an alphabet of valid and malformed ones x initial sampler; after each, '
        'the decisions for probe IDs and operations, the budgets, counters and logged errors are compared with a model; '
        'distinct by (initial sampler, answers, decisions)')
M = 1 << 64
DEF_P, DEF_RL = 0.001, 1.0 / 600.0


def prob(r):
    return {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': r}}


def rl(r):
    return {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': r}}


def ad(dp, lb, *ops, **kw):
    return dict({'strategyType': 'PROBABILISTIC', 'operationSampling': s03.strat(dp, lb, *ops)}, **kw)


VALID = {
    'p0.5': prob(0.5), 'p0.25': prob(0.25), 'p1': prob(1), 'p0': prob(0.0), 'p0.001': prob(0.001),
    'p-default': {'strategyType': 'PROBABILISTIC'},
    'p-extra': dict(prob(0.5), rateLimitingSampling={'maxTracesPerSecond': -7}, other=[1, {}]),
    'p+null-op': dict(prob(0.25), operationSampling=None),
    'r4': rl(4), 'r2': rl(2), 'r0': rl(0), 'r0.5': rl(0.5), 'r499': rl(499), 'r-extra': dict(rl(2), probabilisticSampling={'samplingRate': 9}),
    'a1': ad(0.5, 1, ('a', 0.25)), 'a2': ad(0.25, 2, ('a', 0.5), ('b', 0.0)), 'a0': ad(0, 0), 'a-none': ad(0.5, 1),
    'a3': ad(0, 0.5, ('b', 1.0), ('c', 0.25), strategyType='NONSENSE'), 'a-same': ad(0.5, 1, ('a', 0.25)),
    'p0.5+': prob(0.5 + 2.0 ** -30), 'a2+': ad(0.25, 2, ('a', 0.5 + 2.0 ** -30), ('\u00e9\U0001F47E', 0.25)),
    # more operations than max_operations, which limits only those that are discovered
    'a-many': ad(0, 0, ('z1', 0.5), ('z2', 0.5), ('a', 0.5), ('b', 0.25), ('c', 1), ('n', 1)),
}
BAD_RATES = [-0.1, 1.1, float('nan'), float('inf'), -float('inf'), '0.5', None, [], {}, 1e300]
BAD_LIMITS = [-1, 500, 1000, float('nan'), float('inf'), '4', None, [], {}]
INVALID = {'type-%d' % i: v for i, v in enumerate([
    {}, [], 'PROBABILISTIC', 7, None, True, {'strategyType': 'LUCK'}, {'strategyType': None}, {'strategyType': 1},
    {'strategyType': ['PROBABILISTIC']}, {'strategyType': 'probabilistic', 'probabilisticSampling': {'samplingRate': 1}},
    {'probabilisticSampling': {'samplingRate': 1.0}}, {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': [1]},
    {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': 'x'}, {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': 'x'},
    dict(prob(0.5), operationSampling=[1]), dict(prob(0.5), operationSampling='x'), dict(rl(2), operationSampling=5),
    [prob(0.5)]])}
INVALID.update(('rate-%d' % i, prob(v)) for i, v in enumerate(BAD_RATES))
INVALID.update(('limit-%d' % i, rl(v)) for i, v in enumerate(BAD_LIMITS))
INVALID.update(('default-rate-%d' % i, ad(v, 4, ('a', 0.75), ('n', 1.0))) for i, v in enumerate(BAD_RATES) if v is not None)
INVALID.update(('default-bound-%d' % i, ad(0.75, v, ('a', 0.75), ('n', 1.0))) for i, v in enumerate([-1, float('nan'), float('inf'), '1', [], {}]))
INVALID.update(('op-rate-%d-%d' % (i, p), ad(0.75, 4, *([('a', 0.75), ('n', 1.0)][:p] + [('bad', v)] + [('a', 0.75), ('n', 1.0)][p:])))
               for i, v in enumerate([-0.1, 1.1, 'x', float('nan'), []]) for p in range(3))
INVALID.update(('op-entry-%d' % i, {'operationSampling': {
    'defaultSamplingProbability': 0.75, 'defaultLowerBoundTracesPerSecond': 4,
    'perOperationStrategies': [{'operation': 'a', 'probabilisticSampling': {'samplingRate': 0.75}}, v]}})
    for i, v in enumerate([None, 7, 'x', [1], {'operation': ['a'], 'probabilisticSampling': {'samplingRate': 1}},
                           {'operation': 'b', 'probabilisticSampling': 'x'}, {'operation': 'b', 'probabilisticSampling': {'samplingRate': 'x'}},
                           {'operation': 'a', 'probabilisticSampling': {'samplingRate': 2}}]))
INVALID.update(('ops-%d' % i, {'operationSampling': {'defaultSamplingProbability': 0.75, 'perOperationStrategies': v}})
               for i, v in enumerate([7, 'x', {'operation': 'a'}]))
BODIES = {'empty': b'', 'text': b'nope', 'html': b'<html>404</html>', 'cut': b'{"strategyType": "PROBABIL', 'latin': b'{"a": "\xff"}',
          'bom': b'\xef\xbb\xbf{}', 'none': None, 'deep': b'[' * 100000, 'two': b'{} {}', 'quote': b"{'strategyType': 'PROBABILISTIC'}",
          'number': 17}
HTTP = ['http-500', 'http-599', 'oserror', 'timeout', 'raise', 'raise-value']


def response(name):
    """-> (kind, payload)"""
    if name in VALID:
        return 'valid', json.dumps(VALID[name], ensure_ascii=name == 'a1').encode()
    if name.startswith('s:'):          # the body as a string
        return 'valid', json.dumps(VALID[name[2:]], ensure_ascii=False)
    if name in INVALID:
        return 'invalid', json.dumps(INVALID[name]).encode()
    if name in BODIES:
        return 'body', BODIES[name]
    return 'http', name


class Cur(object):
    """The model of the sampler in force."""

    def __init__(self, init, max_ops, fill):
        self.fill, self.max = fill, max_ops
        self.kind, self.v = 'p', DEF_P
        if init == 'const':
            self.kind, self.v = 'c', True
        elif init.startswith('p'):
            self.v = float(init[1:])
        elif init.startswith('r'):
            self.kind, self.v = 'r', Bucket(float(init[1:]), fill)
            self.v.take(0.0)        # RemoteControlledSampler tries its initial sampler once
        elif init == 'adaptive':
            self.kind, self.v = 'a', s03.Model(VALID['a2']['operationSampling'], 3, 0.0, fill)
            self.v.ask('', 0, 0.0)
        elif init == 'guaranteed':
            self.kind, self.v = 'g', s03.Op(2, 0.5, 0.0, fill)
            self.v.ask(0, 0.0)

    def apply(self, name, now):
        """-> None if unchanged, True if changed, 'maybe' if it may count either way."""
        st = VALID[name[2:] if name.startswith('s:') else name]
        if st.get('operationSampling'):
            if self.kind == 'a':
                self.v.update(st['operationSampling'], now)
                return 'maybe' if name in ('a1', 'a-same', 'a2', 'a0', 'a-none', 'a3', 'a2+', 'a-many') else True
            self.kind, self.v = 'a', s03.Model(st['operationSampling'], self.max, now, self.fill)
            return True
        if st['strategyType'] == 'PROBABILISTIC':
            r = st.get('probabilisticSampling', {}).get('samplingRate', DEF_P)
            if (self.kind, self.v) == ('p', r):
                return None
            self.kind, self.v = 'p', r
            return True
        r = st.get('rateLimitingSampling', {}).get('maxTracesPerSecond', DEF_RL)
        if self.kind == 'r':
            if self.v.rate == r:
                return None
            self.v.update(now, r)
            return True
        self.kind, self.v = 'r', Bucket(r, self.fill)
        self.v.t = now
        return True

    def ask(self, op, tid, now):
        if self.kind == 'c':
            return True, {'sampler.type': 'const', 'sampler.param': True}
        if self.kind == 'p':
            return tid % M < Fraction(self.v) * M, {'sampler.type': 'probabilistic', 'sampler.param': self.v}
        if self.kind == 'r':
            return self.v.take(now), {'sampler.type': 'ratelimiting', 'sampler.param': self.v.rate}
        if self.kind == 'g':
            return self.v.ask(tid, now)
        return self.v.ask(op, tid, now)


PROBES = [('a', 1), ('a', M // 2), ('b', M - 1), ('c', M // 4 - 1), ('n', M - 1), ('bad', M - 1), ('a', M - 1), ('\u00e9\U0001F47E', M // 2)]
INTERVAL = 0.0625


def init_sampler(init):
    from jaeger_client import sampler as S
    if init == 'const':
        return S.ConstSampler(True)
    if init == 'default':
        return None
    if init[0] == 'p':
        return S.ProbabilisticSampler(float(init[1:]))
    if init[0] == 'r':
        return S.RateLimitingSampler(float(init[1:]))
    if init == 'adaptive':
        return S.AdaptiveSampler(json.loads(json.dumps(VALID['a2']['operationSampling'])), 3)
    return S.GuaranteedThroughputProbabilisticSampler('op', 2, 0.5)


class Errors(object):
    def __init__(self):
        self.n = 0

    def error(self, fmt, *args):
        fmt % args
        self.n += 1


QOK, QERR = 'jaeger:sampler_queries|result=ok', 'jaeger:sampler_queries|result=err'
UOK, UERR = 'jaeger:sampler_updates|result=ok', 'jaeger:sampler_updates|result=err'


class Rig(object):
    def __init__(self, x, init, max_ops=3, fill=0.5):
        from jaeger_client.sampler import RemoteControlledSampler
        self.x, self.w = x, x.world
        env.clock.mono = 0.0
        env.rand.float_hook = lambda: fill
        self.errors = Errors()
        kw = {} if init == 'default' else {'init_sampler': init_sampler(init)}
        self.todo, self.late, self.polls = [], [], []
        self.w.net.on_http = self.on_http
        env.rand.float_hook = lambda: 0.5       # the first delay
        self.s = RemoteControlledSampler(sender(x), 'svc', sampling_refresh_interval=INTERVAL, max_operations=max_ops,
                                         metrics_factory=self.w.metrics.factory(), error_reporter=self.errors, **kw)
        self.m = Cur(init if init != 'default' else 'p0.001', max_ops, fill)
        self.w.run_ready()
        env.rand.float_hook = lambda: fill
        self.want = {QOK: 0, 'err': 0, UOK: 0}
        self.maybe = 0

    def on_http(self, url, kw):
        import tornado.httpclient as hc
        name = self.todo.pop(0)
        late = name.startswith('late:')
        if late:
            name = name[5:]
        kind, body = response(name)
        self.polls.append((name, late))
        if kind == 'http':
            exc = {'http-500': hc.HTTPError(500, 'no'), 'http-599': hc.HTTPError(599, 'timeout'), 'oserror': OSError(111, 'refused'),
                   'timeout': TimeoutError(), 'raise': OSError(1, 'x'), 'raise-value': ValueError('x')}[name]
            if name.startswith('raise'):
                raise exc
            if late:
                f = self.w.http_future()
                self.late.append((name, f, None, exc))
                return f
            return self.w.http_future(exc=exc)
        f = self.w.http_future()
        if late:
            self.late.append((name, f, net.FakeResponse(body), None))
        else:
            f.set_result(net.FakeResponse(body))
        return f

    def account(self, name, at):
        kind = response(name)[0]
        if kind == 'valid':
            self.want[QOK] += 1
            r = self.m.apply(name, at)
            if r == 'maybe':
                self.maybe += 1
            elif r:
                self.want[UOK] += 1
        else:
            if kind == 'invalid':
                self.want[QOK] += 1
            self.want['err'] += 1

    def deliver_late(self):
        for name, f, res, exc in self.late:
            f.set_exception(exc) if exc is not None else f.set_result(res)
            self.w.run_ready()
            self.account(name, env.clock.mono)
        del self.late[:]

    def poll(self, name, first):
        self.todo.append(name)
        at = env.clock.mono + (INTERVAL / 2 if first else INTERVAL)
        self.w.advance(INTERVAL / 2 if first else INTERVAL)
        self.x.check(not self.todo, 'no request within an interval (answers so far: %r)' % self.polls)
        if not name.startswith('late:'):
            self.account(name, at)

    def judge(self, what, probes=PROBES):
        x, w = self.x, self.w
        g = w.metrics.get
        x.eq(g(QOK), self.want[QOK], '%s: retrieved' % what)
        x.check(self.want[UOK] <= g(UOK) <= self.want[UOK] + self.maybe, '%s: counted as updated %d times, not %d'
                % (what, g(UOK), self.want[UOK]))
        x.eq(g(QERR) + g(UERR), self.want['err'], '%s: counted as failed' % what)
        x.eq(self.errors.n, self.want['err'], '%s: errors reported' % what)
        out = []
        now = env.clock.mono
        for op, tid in probes:
            got, want = self.s.is_sampled(tid, op), self.m.ask(op, tid, now)
            if got[0] != want[0] or (want[0] and got[1] != want[1]):
                x.fail('%s: operation %r, ID %x: got %r, expected %r' % (what, op, tid, got, want))
            out.append(want[0])
        return tuple(out)


def sequence(x, init, names, depth):
    r = Rig(x, init)
    r.judge('before the first answer', PROBES[:3])
    seq = []
    for i in range(depth):
        n = x.pick(names)
        seq.append(n)
        r.poll(n, i == 0)
        d = r.judge('%s, answers %r' % (init, seq), PROBES if i == depth - 1 or x.choose(2) else [])
        x.state((init, tuple(seq), d))
    r.deliver_late()
    d = r.judge('%s, answers %r, late ones delivered' % (init, seq))
    x.outcome((seq[-1], d))


def after(x, init, first, name):
    """A malformed answer between two valid ones: nothing of it remains."""
    r = Rig(x, init)
    if first:
        r.poll(first, True)
    n = x.choose(3)
    r.judge('first', PROBES[:n])
    r.poll(name, not first)
    r.judge('%s, %s, %s' % (init, first, name), PROBES if x.choose(2) else [])
    nxt = x.pick(['p0.25', 'r4', 'a2', 'a-none', 'r2', 'http-500'])
    r.poll(nxt, False)
    d = r.judge('%s, %s, %s, %s' % (init, first, name, nxt))
    x.state((init, first, name, nxt, d))


def after_all(x, init, first, names):
    after(x, init, first, x.pick(names))


def budgets(x, kind):
    """A strategy repeated over and over does not refill anything."""
    r = Rig(x, 'default')
    name = {'rl': 'r2', 'ad': 'a1', 'rl4': 'r4', 'ad2': 'a2'}[kind]
    r.poll(name, True)
    for i in range(24):
        r.poll(x.pick([name, 'http-500', 'rate-1']) if i in (3, 9) else name, False)
        r.judge('%s repeated %d times' % (name, i), PROBES[:3])
    x.outcome(kind)


INITS = ['default', 'const', 'p0.5', 'r2', 'adaptive', 'guaranteed']
MIX = ['p0.5', 'p0.25', 'r4', 'r2', 'a1', 'a2', 'a3', 'rate-1', 'limit-1', 'op-rate-1-1', 'cut', 'http-500', 'late:r4']
BOUNDS = ('%d valid and %d malformed answers, %d transport failures; all pairs of valid answers x 6 initial samplers; every '
          'malformed answer between every two of a set of valid ones; sequences of 3 (4 thorough) of %d answers'
          % (len(VALID), len(INVALID) + len(BODIES), len(HTTP), len(MIX)))


def pump(x):
    """Many answers in a row: the last valid one counts, after however many of whatever kind."""
    init = x.pick(['default', 'adaptive', 'r2'])
    cyc = x.pick([('r2', 'r4'), ('p0.5', 'p0.25'), ('a1', 'a2'), ('rate-1',), ('http-500',), ('cut', 'http-599'), ('a1', 'http-500', 'r2', 'cut', 'p0.5'),
                  ('limit-1', 'op-rate-1-1', 'type-6'), ('oserror',), ('timeout', 'p0.5'), ('p0.5',)])
    after_ = x.pick(['p1', 'r4', 'a3'])
    r = Rig(x, init)
    for i in range(150):
        r.poll(cyc[i % len(cyc)], i == 0)
        if i % 10 == 9:
            r.judge('%s, answer %d of %r in turn' % (init, i, cyc), PROBES[:2])
    r.poll(after_, False)
    r.judge('%s, 150 of %r in turn, then %s' % (init, cyc, after_))
    x.case(151)
    x.state((init, cyc, after_))


def scenarios(tier):
    t = tier == 'thorough'
    bad = sorted(INVALID) + sorted(BODIES) + HTTP
    late = ['late:' + n for n in ('p0.5', 'r4', 'a1', 'cut', 'http-500', 'rate-1')]
    out = []
    for init in INITS:
        out.append(Scenario('pairs-%s' % init, sequence, params=dict(init=init, names=sorted(VALID) + late + ['s:p0.5', 's:a1', 's:a2+'], depth=2)))
        for first in (None, 'p0.5', 'r2', 'a1') if t or init == 'default' else (None,):
            out.append(Scenario('bad-%s-%s' % (init, first), after_all, params=dict(init=init, first=first, names=bad)))
        if t or init in ('default', 'adaptive'):
            out.append(Scenario('seq-%s' % init, sequence, params=dict(init=init, names=MIX, depth=4 if t else 3)))
    out += [Scenario('pump', pump)] + [Scenario('budgets-%s' % k, budgets, params=dict(kind=k)) for k in ('rl', 'ad', 'rl4', 'ad2')]
    return out
