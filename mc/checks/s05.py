"""S05: the remote sampler and the throttler poll once per interval, whatever happens, until they are closed."""
import itertools
from mc import env, net
from mc.lib import *
from mc.checks.s04 import Errors

RULE = ('every combination of poller, random first delay, answers of the agent (valid, malformed, failing, raising, slow, never) '
        'over several intervals and point of close(); every interleaving of close() and credit requests with the loop; '
        'distinct by (poller, delay, answers, closing point, request times)')
BOUNDS = ('2 pollers x 3 delays x 9 answers over 3 intervals (4 thorough) x 13 closing points; threads with preemption bound 2 '
          '(3 thorough)')
ASSUMPTIONS = ['the throttler has no reason to ask before it knows an operation',
               'a request that was being made when close() was called may still be sent']
I = 8.0
ANSWERS = ['ok', 'fail', 'raise', 'raise2', 'never', 'late', 'bad', 'garbage', 'changed']
CLOSES = [None, 'at-once', 'before-delay', 'in-delay', 'in-request-0', 'after-0', 'mid-0', 'in-request-1', 'mid-1', 'in-request-2',
          'mid-2', 'twice', 'late-answer']


class Poller(object):
    def __init__(self, x, kind, delay, answers, via='direct'):
        self.x, self.w, self.kind, self.answers = x, x.world, kind, list(answers)
        self.times, self.pending = [], []
        self.on_request = None
        self.closed_at = None
        env.clock.mono = 0.0
        env.rand.float_hook = lambda: delay
        self.w.net.on_http = self.on_http
        self.tr = None
        kw = dict(metrics_factory=self.w.metrics.factory(), error_reporter=Errors())
        ch = sender(x, throttling_port=5778)
        if kind == 'sampler':
            from jaeger_client.sampler import RemoteControlledSampler
            self.p = RemoteControlledSampler(ch, 'svc', sampling_refresh_interval=I, **kw)
        else:
            from jaeger_client.throttler import RemoteThrottler
            self.p = RemoteThrottler(ch, 'svc', refresh_interval=I, **kw)
            self.p.is_allowed('op')
        if via == 'tracer':
            from jaeger_client.reporter import InMemoryReporter
            self.tr = tracer(x, InMemoryReporter(), **({'sampler': self.p} if kind == 'sampler' else {'throttler': self.p}))

    def close(self):
        (self.tr or self.p).close()
        if self.closed_at is None:
            self.closed_at = env.clock.mono

    def on_http(self, url, kw):
        n = len(self.times)
        self.times.append(env.clock.mono)
        if self.on_request is not None:
            self.on_request(n)
        a = self.answers[n] if n < len(self.answers) else 'ok'
        if a == 'raise':
            raise OSError(113, 'no route')
        if a == 'raise2':
            raise ValueError('bad URL')
        f = self.w.http_future()
        if a == 'fail':
            f.set_exception(OSError(111, 'refused'))
        elif a == 'never':
            pass
        elif a == 'late':
            self.pending.append(f)
        else:
            f.set_result(net.FakeResponse(self.body(a)))
        return f

    def body(self, a='ok'):
        if a == 'bad':
            return b'[17]'
        if a == 'garbage':
            return b'\xff{'
        if self.kind == 'sampler':
            return b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": %s}}' % (
                b'0.5' if a == 'changed' else b'0.25')
        return b'{"balances": [{"operation": "op", "balance": %s}]}' % (b'2' if a == 'changed' else b'1')

    def deliver(self):
        for f in self.pending:
            f.set_result(net.FakeResponse(self.body()))
        del self.pending[:]
        self.w.run_ready()


def judge(x, p, delay, periods, what):
    first = delay * I
    end = env.clock.mono
    want = []
    t = first
    while t <= end + 1e-9:
        if p.closed_at is not None and t > p.closed_at + 1e-9:
            break
        want.append(t)
        t += I
    at_edge = p.closed_at is not None and want and abs(want[-1] - p.closed_at) < 1e-9
    ok = p.times == want or (at_edge and p.times == want[:-1])
    x.check(ok, '%s: requests at %r, expected %r (closed at %r)' % (what, p.times, want, p.closed_at))


def history(x, kind, periods, answers, via):
    delay = x.pick([0.0, 0.5, 0.9375])
    cl = x.pick(CLOSES)
    ans = []
    # answers behind the closing point are never asked for
    n_ans = {'at-once': 0, 'before-delay': 0, 'in-delay': 0, 'in-request-0': 1, 'after-0': 1, 'mid-0': 1, 'in-request-1': 2,
             'mid-1': 2, 'twice': 2}.get(cl, periods)
    for i in range(n_ans):
        ans.append(x.pick(answers))
    p = Poller(x, kind, delay, ans, via)
    w = x.world
    if cl and cl.startswith('in-request'):
        k = int(cl[-1])
        p.on_request = lambda n: p.close() if n == k else None
    if cl == 'at-once':
        p.close()
    w.run_ready()
    if cl == 'before-delay':
        p.close()
    first = delay * I
    if first:
        w.advance(first / 2)
        if cl == 'in-delay':
            p.close()
        w.advance(first / 2)
    elif cl == 'in-delay':
        p.close()
    if cl == 'after-0':
        p.close()
    for i in range(periods):
        w.advance(I / 2)
        if cl == 'mid-%d' % i:
            p.close()
        if cl == 'twice' and i == 1:
            p.close()
            p.close()
        if cl == 'late-answer' and i == 1:
            p.close()
            p.deliver()
        if i == periods - 1 or x.choose(2):
            p.deliver()
        w.advance(I / 2)
    w.advance(2.5 * I)
    judge(x, p, delay, periods, '%s, delay %r, answers %r, close %r' % (kind, delay, ans, cl))
    p.close()
    n = len(p.times)
    p.deliver()
    w.advance(3 * I)
    x.eq(len(p.times), n, 'requests after close()')
    x.state((kind, delay, tuple(ans), cl, tuple(p.times)))
    x.outcome((cl, len(p.times)))


def delays(x):
    """The first delay is at most one interval, for any interval and draw."""
    import random
    kind = x.pick(['sampler', 'throttler'])
    for interval in (0.001, 0.25, 1, 1.5, 5, 60, 100, 3600):
        for draw in (0.0, 0.25, 0.5, 0.999999):
            env.clock.reset()
            env.rand.reset()
            env.rand.float_hook = lambda: draw
            w = x.world
            from jaeger_client.sampler import RemoteControlledSampler
            from jaeger_client.throttler import RemoteThrottler
            times = []

            def on_http(url, kw):
                times.append(env.clock.mono)
                return w.http_future(net.FakeResponse(b'{}'))
            w.net.on_http = on_http
            ch = sender(x, throttling_port=1)
            if kind == 'sampler':
                p = RemoteControlledSampler(ch, 'svc', sampling_refresh_interval=interval)
            else:
                p = RemoteThrottler(ch, 'svc', refresh_interval=interval)
                p.is_allowed('op')
            t0 = env.clock.mono
            w.run_ready()
            w.advance(interval * 1.0001)
            x.check(1 <= len(times) <= 2, '%s, interval %r, draw %r: %d requests in the first interval' % (kind, interval, draw, len(times)))
            w.advance(interval * 10)
            x.check(len(times) in (10, 11, 12), '%s, interval %r: %d requests in 11 intervals' % (kind, interval, len(times)))
            gaps = [b - a for a, b in zip(times, times[1:])]
            x.check(all(abs(g - interval) <= interval * 0.01 + 1e-6 for g in gaps), '%s, interval %r: gaps %r' % (kind, interval, gaps))
            p.close()
            n = len(times)
            w.advance(interval * 5)
            x.eq(len(times), n, 'requests after close()')
            x.case()
            x.state((kind, interval, draw))


def operations(x, depth):
    """The throttler asks from the first interval on in which it knows an operation."""
    delay = 0.5
    p = Poller.__new__(Poller)
    env.clock.mono = 0.0
    env.rand.float_hook = lambda: delay
    w = x.world
    from jaeger_client.throttler import RemoteThrottler
    times = []

    def on_http(url, kw):
        times.append(env.clock.mono)
        return w.http_future(net.FakeResponse(b'{"balances": []}'))
    w.net.on_http = on_http
    t = RemoteThrottler(sender(x, throttling_port=1), 'svc', refresh_interval=I)
    w.run_ready()
    known = x.choose(depth)
    w.advance(1.0)
    want = []
    for i in range(depth):
        if i == known:
            t.is_allowed('op')
        tick = I / 2 + i * I
        w.advance(I)
        if i >= known:
            want.append(tick)
    x.eq(times, want, 'requests when the first operation is known after %d intervals' % known)
    t.close()
    w.advance(3 * I)
    x.eq(times, want, 'requests after close()')


def no_loop(x):
    """Without an event loop there is no polling, but sampling and throttling work."""
    from jaeger_client.sampler import RemoteControlledSampler, ConstSampler
    from jaeger_client.throttler import RemoteThrottler

    class Ch(object):
        io_loop = None
    s = RemoteControlledSampler(Ch(), 'svc', init_sampler=ConstSampler(True))
    x.eq(s.is_sampled(1, 'op')[0], True, 'decision')
    s.close()
    t = RemoteThrottler(Ch(), 'svc')
    x.eq(t.is_allowed('op'), False, 'allowed')
    t.close()
    x.check(sum(lv == 'ERROR' for _, lv, m in x.world.log.records) == 2, 'logged')


def race(x, kind, steps, via, when):
    """close() in another thread at any moment of the loop's work."""
    p = Poller(x, kind, 0.5, ['ok'] * 4, via)
    w = x.world
    if when != 'init':
        w.run_ready()
        env.clock.mono += I / 2
        if when == 'periodic':
            w.advance(0)
            env.clock.mono += I
    done = [0]

    def app():
        p.close()
        if steps == 2:
            p.close()
        done[0] = 1

    def loop():
        # the timer that is due, and everything that follows at once
        for _ in range(3):
            w.vloop.step()
        while w.vloop.ready():
            w.vloop.step()
    n0 = len(p.times)
    run_threads(x, [app, loop], names=['app', 'loop'])
    n = len(p.times)
    x.check(n - n0 <= 1, '%d requests at once' % (n - n0))
    w.advance(4 * I)
    x.eq(len(p.times), n, '%s: requests after close() during %s' % (kind, when))
    x.outcome((n,))


def race_ops(x, n):
    """Threads make operations known while the throttler collects them."""
    p = Poller(x, 'throttler', 0.0, ['ok'] * 6, 'direct')
    w = x.world
    w.run_ready()
    w.advance(0)
    env.clock.mono += I

    def app(i):
        def f():
            p.p.is_allowed('new%d' % i)
        return f

    def loop():
        for _ in range(3):
            w.vloop.step()
        while w.vloop.ready():
            w.vloop.step()
    run_threads(x, [app(i) for i in range(n)] + [loop], names=['app%d' % i for i in range(n)] + ['loop'])
    w.advance(I)
    from urllib.parse import urlsplit, parse_qsl
    ops_ = sorted(v for k, v in parse_qsl(urlsplit(w.net.http_log[-1]).query) if k == 'operations')
    x.eq(ops_, sorted(['op'] + ['new%d' % i for i in range(n)]), 'operations asked for in the end')
    x.eq(len(p.times), 3, 'requests')


def pump(x):
    """A very long life: hundreds of intervals in which everything fails in one way, then works again."""
    kind, ans = x.pick(['sampler', 'throttler']), x.pick([a for a in ANSWERS if a != 'late'])
    via = x.pick(['direct', 'tracer'])
    n = 200
    p = Poller(x, kind, 0.5, [ans] * n + ['ok'] * 10, via)
    w = x.world
    w.run_ready()
    w.advance(0.5 * I)
    for i in range(n + 5):
        w.advance(I)
        x.eq(len(p.times), i + 2, '%s, all answers %s: requests after %d intervals' % (kind, ans, i + 1))
    gaps = [b - a for a, b in zip(p.times, p.times[1:])]
    x.check(all(abs(g - I) <= I * 0.01 + 1e-6 for g in gaps), '%s, all answers %s: gaps %r' % (kind, ans, sorted(set(gaps))))
    p.close()
    w.advance(3 * I)
    x.eq(len(p.times), n + 6, 'requests after close()')
    x.case()
    x.state((kind, ans, via))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('delays', delays), Scenario('operations', operations, params={'depth': 4}), Scenario('no-loop', no_loop)]
    for kind in ('sampler', 'throttler'):
        out.append(Scenario('history-%s' % kind, history, params=dict(kind=kind, periods=4 if t else 3, answers=ANSWERS, via='direct')))
        out.append(Scenario('tracer-%s' % kind, history, params=dict(kind=kind, periods=3, answers=['ok', 'raise', 'late'], via='tracer')))
        for when in ('init', 'first', 'periodic'):
            for via in ('direct', 'tracer'):
                for steps in (1, 2):
                    out.append(Scenario('race-%s-%s-%s-%d' % (kind, when, via, steps), race, sched=True, bound=3 if t else 2,
                                        params=dict(kind=kind, steps=steps, via=via, when=when)))
    out += [Scenario('race-ops-%d' % n, race_ops, sched=True, bound=(3 if t else 2) if n == 1 else (2 if t else 1), params=dict(n=n)) for n in (1, 2)]
    return out + [Scenario('pump', pump)]
