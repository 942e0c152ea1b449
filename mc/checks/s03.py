"""S03: guaranteed-throughput and adaptive sampling against an exact model."""
import itertools
import json
from fractions import Fraction
from mc import env, net
from mc.lib import *
from mc.checks.s02 import Model as Bucket

RULE = ('every sequence of sampling calls (operation x trace ID), pauses and strategy updates x initial strategies x maximum '
        'number of operations x initial credit, against an exact model; distinct by (configuration, sequence, answers)')
BOUNDS = ('6 initial strategies x 4 maxima x 2 initial credits; all sequences of 3 (4 thorough) of 22 operations and of 5 (6) of 9; '
          'the same through a remotely controlled sampler for sequences of 3 (4)')
ASSUMPTIONS = ['lower bounds and times are binary fractions, so that the arithmetic is exact']
M = 1 << 64
DEF_P, DEF_LB = 0.001, 1.0 / 600.0


def strat(dp=None, lb=None, *ops):
    s = {'perOperationStrategies': [
        dict({'operation': o}, **({} if p is None else {'probabilisticSampling': {'samplingRate': p}})) for o, p in ops]}
    if dp is not None:
        s['defaultSamplingProbability'] = dp
    if lb is not None:
        s['defaultLowerBoundTracesPerSecond'] = lb
    return s


STRATS = {
    'none': strat(0.5, 1),
    'one': strat(0.5, 0.5, ('a', 0.25)),
    'two': strat(0.25, 2, ('a', 0.0), ('b', 1.0)),
    'zero-lb': strat(0, 0, ('a', 0.5), ('b', 0)),
    'three': strat(1.0, 1, ('c', 0.0), ('b', 0.0), ('a', 0.0)),
    'defaults': strat(None, 4, ('a', None), ('b', 0.5)),
    'twice': strat(0.5, 1, ('a', 0.25), ('a', 0.75)),
    'empty-name': strat(0, 1, ('', 1.0)),
}


class Op(object):
    def __init__(self, lb, p, now, fill):
        self.lb, self.p = lb, p
        self.b = Bucket(lb, fill)
        self.b.t = now

    def ask(self, tid, now):
        prob = tid % M < Fraction(self.p) * M
        low = self.b.take(now)
        if prob:
            return (True, {'sampler.type': 'probabilistic', 'sampler.param': self.p})
        return (low, {'sampler.type': 'lowerbound', 'sampler.param': self.p})

    def update(self, lb, p, now):
        self.p = p
        if lb != self.lb:
            self.b.update(now, lb)
            self.lb = lb


class Model(object):
    def __init__(self, st, max_ops, now, fill):
        self.max, self.fill, self.ops = max_ops, fill, {}
        self.default(st)
        for e in st.get('perOperationStrategies', []):
            self.ops[e['operation']] = Op(self.lb, self.rate(e), now, fill)

    @staticmethod
    def rate(e):
        return e.get('probabilisticSampling', {}).get('samplingRate', DEF_P)

    def default(self, st):
        self.dp = st.get('defaultSamplingProbability', DEF_P)
        self.lb = st.get('defaultLowerBoundTracesPerSecond', DEF_LB)

    def update(self, st, now):
        self.default(st)
        for e in st.get('perOperationStrategies', []):
            o = self.ops.get(e['operation'])
            if o is None:
                self.ops[e['operation']] = Op(self.lb, self.rate(e), now, self.fill)
            else:
                o.update(self.lb, self.rate(e), now)

    def ask(self, op, tid, now):
        o = self.ops.get(op)
        if o is None:
            if len(self.ops) >= self.max:
                return tid % M < Fraction(self.dp) * M, {'sampler.type': 'probabilistic', 'sampler.param': self.dp}
            o = self.ops[op] = Op(self.lb, self.dp, now, self.fill)
        return o.ask(tid, now)


IDS = {'lo': 1, 'q': M // 4 - 1, 'h': M // 2, 'hi': (M - 1), 'wide': (3 << 64) | 7, 'k': M // 1000 + 1}
OPS = ([('ask', o, i) for o in ('a', 'b', 'c') for i in ('lo', 'q', 'h', 'hi')] + [('ask', 'd', 'h'), ('ask', '', 'hi'), ('ask', 'a', 'k')]
       + [('adv', 0.5), ('adv', 1.0), ('adv', 2.0 ** 20)] + [('upd', s) for s in ('none', 'one', 'two', 'zero-lb')])
OPS2 = [('ask', 'a', 'hi'), ('ask', 'a', 'q'), ('ask', 'b', 'hi'), ('ask', 'c', 'h'), ('adv', 1.0), ('adv', 0.25),
        ('upd', 'one'), ('upd', 'two'), ('upd', 'three')]


def remote(x, st, max_ops, fill):
    """A sampler that got the strategy from the agent."""
    from jaeger_client.sampler import RemoteControlledSampler
    w = x.world
    box, polls = [st], []

    def on_http(url, kw):
        polls.append((box[0], env.clock.mono))
        return w.http_future(net.FakeResponse(json.dumps(
            {'strategyType': 'PROBABILISTIC', 'operationSampling': box[0]}).encode()))
    w.net.on_http = on_http
    s = RemoteControlledSampler(sender(x), 'svc', sampling_refresh_interval=1024.0, max_operations=max_ops,
                                metrics_factory=w.metrics.factory())
    w.run_ready()
    return s, box, polls


def run_seq(x, cfg, max_ops, fill, seq):
    from jaeger_client.sampler import AdaptiveSampler
    env.clock.reset()
    env.rand.reset()
    env.rand.float_hook = lambda: fill
    given = json.loads(json.dumps(STRATS[cfg]))
    s = AdaptiveSampler(given, max_ops)
    t0 = env.clock.mono
    m = Model(STRATS[cfg], max_ops, 0.0, fill)
    answers = []
    for op in seq:
        now = env.clock.mono - t0
        if op[0] == 'ask':
            tid = IDS[op[2]]
            got, want = s.is_sampled(tid, op[1]), m.ask(op[1], tid, now)
            if got[0] != want[0] or (want[0] and got[1] != want[1]):
                x.fail('strategies %s, at most %d operations: after %r, operation %r with ID %x: got %r, expected %r'
                       % (cfg, max_ops, seq, op[1], tid, got, want))
            answers.append(want[0])
        elif op[0] == 'adv':
            env.clock.advance(op[1])
        else:
            s.update(json.loads(json.dumps(STRATS[op[1]])))
            m.update(STRATS[op[1]], now)
    if given != STRATS[cfg]:
        x.fail('the strategies passed were modified')
    x.case()
    x.state((cfg, max_ops, fill, seq, tuple(answers)))


def sequences(x, cfg, max_ops, fill, ops, depth, pre):
    head = tuple(x.pick(ops) for _ in range(pre))
    for rest in itertools.product(ops, repeat=depth - pre):
        if rest[-1][0] == 'ask':
            run_seq(x, cfg, max_ops, fill, head + rest)
    x.outcome(head)


def through_remote(x, cfg, max_ops, depth):
    """The same with the strategies coming from the agent and the decisions of a tracer's root spans."""
    fill = 0.75
    w = x.world
    env.rand.float_hook = lambda: 0.5
    env.clock.mono = 0.0
    s, box, polls = remote(x, STRATS[cfg], max_ops, fill)
    fill = 0.5
    t0 = env.clock.mono
    w.advance(512.0)         # the first poll, half an interval in
    x.eq(w.metrics.get('jaeger:sampler_updates|result=ok'), 1, 'updates')
    m = Model(STRATS[cfg], max_ops, polls[0][1], fill)
    del polls[:]
    tr = tracer(x, sampler=s)
    for i in range(depth):
        op = x.pick(OPS2)
        if op[0] == 'ask':
            tid = IDS[op[2]]
            env.rand.bits_hook = lambda k: tid & ((1 << k) - 1) or 1
            sp = tr.start_span(op[1])
            env.rand.bits_hook = None
            want = m.ask(op[1], sp.trace_id, env.clock.mono)
            x.eq(sp.is_sampled(), want[0], 'operation %r, ID %x' % (op[1], sp.trace_id))
            if want[0]:
                x.eq(dict(tags_of(sp)), want[1], 'tags')
        elif op[0] == 'adv':
            w.advance(op[1])
        else:
            box[0] = STRATS[op[1]]
            w.advance(1024.0)
        for st, at in polls:
            m.update(st, at)
        del polls[:]
        x.state((cfg, max_ops, i, op))
    x.outcome(cfg)


def single(x):
    """One operation's sampler on its own: GuaranteedThroughputProbabilisticSampler."""
    from jaeger_client.sampler import GuaranteedThroughputProbabilisticSampler as G
    ops = [('ask', 1), ('ask', M // 2 - 1), ('ask', M // 2), ('ask', M - 1), ('adv', 0.5), ('adv', 2.0), ('upd', 2, 0.25), ('upd', 0.5, 0.75),
           ('upd', 0, 0)]
    lb, p = x.pick([(1, 0.5), (0.5, 0.0), (0, 0.5), (4, 1.0), (2, 0.25)])
    for fill in (x.pick([0.0, 0.5, 0.75]),):
        first = x.pick(ops)
        if True:
            for rest in itertools.product(ops, repeat=4):
                seq = (first,) + rest
                if seq[-1][0] != 'ask':
                    continue
                env.clock.reset()
                env.rand.reset()
                env.rand.float_hook = lambda: fill
                s = G('op', lb, p)
                t0 = env.clock.mono
                m = Op(lb, p, 0.0, fill)
                for op in seq:
                    now = env.clock.mono - t0
                    if op[0] == 'ask':
                        got, want = s.is_sampled(op[1], 'op'), m.ask(op[1], now)
                        if got[0] != want[0] or (want[0] and got[1] != want[1]):
                            x.fail('lower bound %r, rate %r, %r: got %r, expected %r' % (lb, p, seq, got, want))
                    elif op[0] == 'adv':
                        env.clock.advance(op[1])
                    else:
                        s.update(op[1], op[2])
                        m.update(op[1], op[2], now)
                x.case()
            x.state((lb, p, fill))


def many(x):
    """Discovery up to the maximum: every operation keeps its own budget, the next one has none."""
    from jaeger_client.sampler import AdaptiveSampler
    for max_ops in (1, 2, 5, 50, 2000):
        env.clock.reset()
        env.rand.reset()
        env.rand.float_hook = lambda: 0.75
        s = AdaptiveSampler(strat(0, 2), max_ops)
        for r in range(2):
            for i in range(max_ops + 5):
                got = [s.is_sampled(M - 1, 'op%d' % i)[0] for _ in range(3)]
                want = [i < max_ops, False if r == 0 else i < max_ops, False]
                x.eq(got, want, 'operation %d of at most %d' % (i, max_ops))
                x.case()
                x.state((max_ops, i, r))
            env.clock.advance(64)


NAMES = ['a', 'A', ' a', 'a ', 'a\n', 'a\0', '\ta', 'a/', '/a', 'a/1', 'a/2', 'a?q', 'a%20', 'a+', 'aa', 'a' * 64, 'a' * 65, 'a' * 1000,
         'a' * 999 + 'b', '\xe9', 'e\u0301', '\uff41', 'ss', '\xdf', '', ' ', '0', '00', '1', '1.0', 'True', 'None', 'GET::/x', 'GET:/x',
         'get::/x', '\u0131', 'i', 'I', '\u0130', '.', '..', '*', 'default', '_', '__other__']


def names(x):
    """Operations are told apart by their exact names, whether listed by the strategy or discovered."""
    from jaeger_client.sampler import AdaptiveSampler
    first = x.pick(NAMES)
    remotely = x.choose(2)
    for second in NAMES:
        if second == first:
            continue
        for st in (strat(0.0, 0, (first, 1.0)), strat(1.0, 0, (first, 0.0)), strat(0.5, 1, (first, 0.0), (second, 1.0)),
                   strat(0.0, 1)):
            for mo in (2000, 1):
                env.clock.reset()
                env.rand.reset()
                env.rand.float_hook = lambda: 0.5
                s = AdaptiveSampler(strat(0.25, 2, ('z', 0.5)) if remotely else json.loads(json.dumps(st)), mo)
                m = Model(strat(0.25, 2, ('z', 0.5)) if remotely else st, mo, 0.0, 0.5)
                if remotely:
                    s.update(json.loads(json.dumps(st)))
                    m.update(st, 0.0)
                t0 = env.clock.mono
                env.clock.advance(4.0)
                for op, tid in ((second, 1), (first, M - 1), (first, M // 2), (second, M - 1), (first, 1), (second, M // 2)):
                    got, want = s.is_sampled(tid, op), m.ask(op, tid, env.clock.mono - t0)
                    if got[0] != want[0] or want[0] and got[1] != want[1]:
                        x.fail('strategy %r (%s), at most %d operations: operation %r with ID %x: got %r, expected %r'
                               % (st, 'update' if remotely else 'initial', mo, op, tid, got, want))
                x.case()
    x.state((first, remotely))


def pump(x):
    """Very many operations, known and discovered: each keeps its strategy and its budget."""
    from jaeger_client.sampler import AdaptiveSampler
    known = x.pick([0, 1, 150, 1100])
    max_ops = x.pick([2000, 5000, 300])
    upd = x.choose(2)
    env.clock.reset()
    env.rand.reset()
    env.rand.float_hook = lambda: 0.0
    st = strat(0, 0, *[('k%d' % i, 1) for i in range(known)])
    s = AdaptiveSampler(st, max_ops)
    room = max(0, max_ops - known)
    n = 1500
    disc = ['n%d' % i for i in range(n)]
    for i, o in enumerate(disc):
        x.eq(s.is_sampled(M - 1, o)[0], False, 'discovery %d' % i)
    # a budget for everyone who has one
    if upd:
        s.update(strat(1, 0, *[('k%d' % i, 0) for i in range(0, known, 2)]))
    for i in range(known):
        x.eq(s.is_sampled(M - 1, 'k%d' % i)[0], not (upd and i % 2 == 0), 'known operation %d of %d after %d others' % (i, known, n))
    for i, o in enumerate(disc):
        x.eq(s.is_sampled(M - 1, o)[0], bool(upd and i >= room), 'operation discovered as number %d (%d known, at most %d, updated %d)' % (i, known, max_ops, upd))
    x.case(n)
    x.state((known, max_ops, upd))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('single', single), Scenario('many', many), Scenario('names', names)]
    for cfg in sorted(STRATS):
        for mo in (0, 1, 2, 4):
            for fill in (0.0, 0.75):
                out.append(Scenario('seq-%s-%d-%s' % (cfg, mo, fill), sequences, params=dict(
                    cfg=cfg, max_ops=mo, fill=fill, ops=OPS, depth=4 if t else 3, pre=2 if t else 1)))
        for mo in (1, 2):
            out.append(Scenario('long-%s-%d' % (cfg, mo), sequences, params=dict(
                cfg=cfg, max_ops=mo, fill=0.75, ops=OPS2, depth=6 if t else 5, pre=2)))
            out.append(Scenario('remote-%s-%d' % (cfg, mo), through_remote, params=dict(cfg=cfg, max_ops=mo, depth=4 if t else 3)))
    return out + [Scenario('pump', pump)]
