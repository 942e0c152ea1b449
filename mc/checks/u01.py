"""U01: the error reporter logs without flooding."""
import socket
from tornado.httpclient import HTTPError
from mc import env, net
from mc.lib import *

RULE = ('every sequence of errors and time steps for several intervals, against a model; every combination of outages of the three paths to '
        'the agent over an hour, with the errors logged compared with those that happened; distinct by sequence or combination')
BOUNDS = 'sequences of 6 (8 thorough) steps x 5 intervals; 5 x 5 x 5 x 3 outages (x 4 timings in thorough)'
ASSUMPTIONS = ['errors are reported by one thread (the event loop) and the clock is not stepped', 'an error exactly one interval after the last '
               'logged one may be logged or not']
ARGS = [('plain',), ('%s failed', 'x'), ('%d of %s', 3, u'\u00e9'), ('no args %s',), ('two %s %s', None, ValueError('v')), (u'\u20ac 100%',)]


class Logger(object):
    def __init__(self):
        self.got = []

    def error(self, *args, **kw):
        self.got.append((args, kw))

    def __getattr__(self, name):
        raise Violation('the error reporter called %s of the logger' % name)


def direct(x, minutes, depth, logged, same=False):
    from jaeger_client.metrics import Metrics
    from jaeger_client.utils import ErrorReporter
    log = Logger() if logged else None
    kw = {} if minutes == 15 else {'log_interval_minutes': minutes}
    er = ErrorReporter(Metrics(), log, **kw) if x.choose(2) else ErrorReporter(metrics=None, logger=log, **kw)
    last, seq, n = env.clock.wall(), [], 0
    iv = minutes * 60
    for i in range(depth):
        a = x.pick(['error', 'half', 'iv-', 'iv+', '3iv'])
        seq.append(a)
        if a != 'error':
            env.clock.advance({'half': iv / 2.0, 'iv-': max(0, iv - 0.25), 'iv+': iv + 0.25, '3iv': 3 * iv + 1}[a])
            continue
        args = ARGS[1] if same else ARGS[i % len(ARGS)]
        er.error(*args)
        if not logged:
            continue
        dt = env.clock.wall() - last
        what = 'interval %s min: %r (%.2f s since the last)' % (minutes, seq, dt)
        got = log.got[n:]
        if dt > iv + 1e-3:
            x.eq(got, [(args, {})], what)
        elif dt < iv - 1e-3:
            x.eq(got, [], what)
        else:
            x.check(got in ([], [(args, {})]), '%s: logged %r' % (what, got))
        if got:
            last = env.clock.wall()
        n = len(log.got)
        x.state((minutes, dt > iv, a))
    x.state((minutes, logged, tuple(seq)))


PATTERN = {'never': lambda t: False, 'always': lambda t: True, 'early': lambda t: t < 880, 'late': lambda t: t > 1300, 'burst': lambda t: 1000 < t < 1100,
           'on-off': lambda t: int(t / 400) % 2 == 0}
SEND = [OSError(111, 'refused'), ValueError('odd'), OSError(90, 'too long'), socket.gaierror(-2, 'unknown'), socket.timeout('timed out'),
        PermissionError(1, 'no'), socket.herror(1, 'host'), BlockingIOError(11, 'again'), UnicodeError('label'), OSError('no number'), RuntimeError(),
        Exception('%s %d'), KeyError('k')]
HTTP = [OSError(111, 'refused'), OSError(110, 'timed out'), HTTPError(599, 'timeout'), HTTPError(404, 'none'), socket.gaierror(-2, 'unknown'),
        ConnectionResetError(104, 'reset'), ValueError('url'), RuntimeError(), Exception('%s'), HTTPError(500), TimeoutError()]
LOGGING = {'on': {'logging': True}, 'off': {'logging': False}, 'unset': {}, 'text': {'logging': 'true'}, 'text-off': {'logging': '0'}}


def tracer_life(x, logging, steps, patterns):
    """An hour in the life of a tracer whose agent fails in every way."""
    from jaeger_client import Config, SpanContext
    w = x.world
    env.clock.mono = 0.0
    fails, shown = [], []
    pat = [x.pick(patterns) for _ in range(3)]
    kind = x.choose(3)
    w.allow_unhandled = False

    def on_http(url, kw):
        which = 0 if '/sampling' in url else 1
        t = env.clock.mono
        if not PATTERN[pat[which]](t):
            body = (b'{"strategyType":"PROBABILISTIC","probabilisticSampling":{"samplingRate":1.0}}' if which == 0 else
                    b'{"balances":[{"operation":"a","balance":1.0}]}')
            return w.http_future(net.FakeResponse(body))
        fails.append(t)
        mode = (kind + len(fails)) % 3
        if mode == 0:
            raise HTTP[len(fails) % len(HTTP)]
        if mode == 1:
            return w.http_future(exc=HTTP[(len(fails) + which) % len(HTTP)])
        return w.http_future(net.FakeResponse([b'', b'{', b'[]', b'{"strategyType":"X","balances":[{"operation":"a"}]}'][len(fails) % 4]))

    def on_send(data, addr):
        if PATTERN[pat[2]](env.clock.mono):
            fails.append(env.clock.mono)
            raise SEND[(kind + 4 * len(fails)) % len(SEND)]

    def hook(rec, msg):
        if rec.levelname in ('ERROR', 'CRITICAL', 'WARNING') and rec.name.startswith('jaeger'):
            shown.append((env.clock.mono, msg))
    w.net.on_http, w.net.on_send, w.log.hook = on_http, on_send, hook
    cfg = dict(LOGGING[logging], throttler={'refresh_interval': 97}, sampling_refresh_interval=61, reporter_flush_interval=1)
    tr = Config(cfg, service_name='svc', metrics_factory=w.metrics.factory()).new_tracer(w.io_loop)
    start = 0.0
    k = 0
    for dt in steps:
        tr.start_span('b', child_of=SpanContext(1, 2, 3, 1)).finish()
        s = tr.start_span('a', tags={'sampling.priority': 1})
        s.finish()
        w.advance(dt)
        k += 1
    w.log.hook = None
    what = 'sampling %s, credits %s, spans %s' % tuple(pat)
    on = logging in ('on', 'text')
    if not on:
        x.check(not shown, '%s: logged without logging: %r' % (what, shown))
    else:
        # replay: an error is logged iff more than 900 s since the last
        last, want = start, []
        for t in fails:
            if t > last + 900:
                want.append(t)
                last = t
        x.eq([round(t, 3) for t, _ in shown], [round(t, 3) for t in want], '%s: times of the logged errors' % what)
        x.check(all(m and not m.startswith('bad log call') for _, m in shown), '%s: %r' % (what, shown))
    if pat == ['always'] * 3:
        x.check(len(fails) > 60, 'only %d failures' % len(fails))
    x.state((logging, tuple(pat), kind, len(shown)))
    x.outcome((logging, len(shown)))
    tr.close()
    w.advance(5)


def pump(x):
    """A very long outage: one error in each interval, also in the hundredth."""
    from jaeger_client.utils import ErrorReporter
    from jaeger_client.metrics import Metrics
    minutes, step = x.pick([15, 1, 60]), x.pick([1.01, 0.51, 0.334, 0.05, 3.0])
    log = Logger()
    er = ErrorReporter(Metrics(), log, log_interval_minutes=minutes)
    iv = minutes * 60
    last, want = env.clock.wall(), 0
    for i in range(1100):
        env.clock.advance(step * iv)
        now = env.clock.wall()
        er.error('error %d', i)
        if now - last > iv + 1e-3:
            last, want = now, want + 1
            x.check(log.got and log.got[-1] == (('error %d', i), {}), 'error %d of an outage, every %s intervals: not logged' % (i, step))
        x.eq(len(log.got), want, 'errors logged of %d, every %s intervals' % (i + 1, step))
    x.case(1100)
    x.state((minutes, step))


def several(x, depth):
    """Several error reporters with intervals of their own do not affect each other."""
    from jaeger_client.utils import ErrorReporter
    from jaeger_client.metrics import Metrics
    metrics = Metrics()
    one = x.choose(2)
    logs = [Logger(), Logger()]
    if one:
        logs[1] = logs[0]       # the same logger
    mins = x.pick([(15, 15), (15, 1), (0, 15)])
    ers = []
    last = []
    for i in range(2):
        ers.append(ErrorReporter(metrics, logs[i], log_interval_minutes=mins[i]))
        last.append(env.clock.wall())
        if i == 0:
            env.clock.advance(100)
    seq = []
    for d in range(depth):
        op = x.pick(['e0', 'e1', 'wait', 'long'])
        seq.append(op)
        if op in ('wait', 'long'):
            env.clock.advance(61 if op == 'wait' else 901)
            continue
        i = int(op[1])
        n = len(logs[i].got)
        other = len(logs[1 - i].got)
        ers[i].error('%s of %d', 'error', i)
        now = env.clock.wall()
        want = now - last[i] > mins[i] * 60 + 1e-3
        if abs(now - last[i] - mins[i] * 60) <= 1e-3:
            return
        x.eq(logs[i].got[n:], [(('%s of %d', 'error', i), {})] if want else [], 'intervals %r: %r' % (mins, seq))
        if not one:
            x.eq(len(logs[1 - i].got), other, 'intervals %r: %r: logs of the other' % (mins, seq))
        if want:
            last[i] = now
    x.state((one, mins, tuple(seq)))
    x.case()


def repeated(x):
    """Errors of the same kind much more often than they may be logged."""
    from jaeger_client.utils import ErrorReporter
    from jaeger_client.metrics import Metrics
    minutes, step = x.pick([15, 1]), x.pick([0.011, 0.07, 0.3, 0.49, 0.98, 1.02])
    log = Logger()
    er = ErrorReporter(Metrics(), log, log_interval_minutes=minutes)
    kind = x.choose(3)
    iv = minutes * 60
    exc = OSError(111, 'refused')
    last, want = env.clock.wall(), 0
    for i in range(400):
        env.clock.advance(step * iv)
        args = [('Failed: %s', exc), ('Failed: %s', OSError(111, 'refused')), (('a', 'b', 'c')[i // 3 % 3],)][kind]
        er.error(*args)
        now = env.clock.wall()
        if now - last > iv + 1e-3:
            last, want = now, want + 1
            x.check(log.got and log.got[-1] == (args, {}), 'error %d, every %s intervals: not logged' % (i, step))
        x.eq(len(log.got), want, 'errors logged of %d, every %s intervals' % (i + 1, step))
    x.case(400)
    x.state((minutes, step, kind))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('direct-%s-%d' % (m, lg), direct, params=dict(minutes=m, depth=(8 if t else 6) if lg else 4, logged=bool(lg)))
           for m in (15, 1, 0, 0.5, 60) for lg in (1, 0)]
    pats = sorted(PATTERN)
    steps = [[120] * 25, [440] * 7, [905] * 4, [37] * 60]
    for i, s in enumerate(steps if t else steps[:2]):
        for lg in sorted(LOGGING):
            out.append(Scenario('tracer-%d-%s' % (i, lg), tracer_life, params=dict(logging=lg, steps=s, patterns=pats if lg == 'on' else ['never', 'always'])))
    out += [Scenario('direct-same-%s' % m, direct, params=dict(minutes=m, depth=7 if t else 5, logged=True, same=True)) for m in (15, 1)]
    return out + [Scenario('pump', pump), Scenario('several', several, params={'depth': 7 if t else 5}), Scenario('repeated', repeated)]
