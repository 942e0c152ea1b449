"""A08: the tracer never deadlocks, whatever user code it calls does and whatever locks that code holds."""
import logging
from mc.lib import *
from mc import startspan as S
import json

RULE = ('a scripted life of a fully equipped tracer in which every call-back into user code (log records, metrics, '
        'str() of values, samplers, throttlers, reporters) may perform any tracing action; and every interleaving of a '
        'thread that makes the tracer call user code with a thread that uses the tracer inside that code\'s lock')
BOUNDS = ('re-entrance: 1 deviating call-back (2 thorough, nested ones included) x 14 actions; lock order: 10 triggers x '
          '14 actions at preemption bound 2 (3 thorough)')
ASSUMPTIONS = ['call-backs of metrics backends do not raise',
               'a throttler or metrics backend does not hold a lock of its own while it updates the span that is calling it '
               'from another thread (log handlers and str() of values may)']

ACTIONS = ['tag', 'log', 'baggage', 'finish', 'name', 'repr', 'inject', 'child', 'sampler', 'throttler', 'initialized',
           'active', 'process', 'priority']


def act(tr, span, a):
    from jaeger_client import Config
    from opentracing import Format
    if a == 'tag':
        span.set_tag('re', 'entrant')
    elif a == 'log':
        span.log_kv({'re': 1})
    elif a == 'baggage':
        span.set_baggage_item('re', 'b')
    elif a == 'finish':
        span.finish()
    elif a == 'name':
        span.set_operation_name('re')
    elif a == 'repr':
        repr(span), str(span.context.baggage), span.is_sampled()
    elif a == 'inject':
        tr.inject(span, Format.TEXT_MAP, {})
    elif a == 'child':
        tr.start_span('child', child_of=span).finish()
    elif a == 'sampler':
        tr.start_span('root', ignore_active_span=True).finish()
    elif a == 'throttler':
        if tr.throttler:
            tr.throttler.is_allowed('op')
    elif a == 'initialized':
        Config.initialized()
    elif a == 'active':
        with tr.start_active_span('a'):
            pass
    elif a == 'process':
        tr.reporter.set_process('svc', {'a': 'b'}, 100)
    elif a == 'priority':
        span.set_tag('sampling.priority', 1)


class Val(object):
    def __init__(self, cb):
        self.cb = cb

    def __str__(self):
        self.cb('str')
        return 'val'


def life(x, closing):
    """One process from initialization to shutdown; any call-back may re-enter the tracer."""
    import opentracing
    from jaeger_client import Config, SpanContext
    from jaeger_client.metrics import MetricsFactory
    w = x.world
    w.make_current()
    logging.getLogger('jaeger_tracing').setLevel(logging.DEBUG)
    st = {'tr': None, 'span': None, 'n': 0}
    acts = list(ACTIONS) + (['close', 'sampler-close', 'throttler-close'] if closing else [])

    def cb(site):
        if st['tr'] is None:
            # before the tracer exists only the Config can be used
            if x.choose(2, cost=1):
                x.note('%s: initialized()' % site)
                Config.initialized()
            return
        k = x.choose(len(acts) + 1, cost=1)
        if k:
            a = acts[k - 1]
            x.note('%s: %s' % (site, a))
            if a == 'close':
                st['tr'].close()
            elif a == 'sampler-close':
                st['tr'].sampler.close()
            elif a == 'throttler-close':
                st['tr'].throttler.close()
            else:
                act(st['tr'], st['span'], a)

    w.log.hook = lambda rec, msg: cb('log %s' % msg[:30])

    class F(MetricsFactory):
        def create_counter(self, name, tags=None):
            return lambda v: cb('counter ' + name)

        def create_gauge(self, name, tags=None):
            return lambda v: cb('gauge ' + name)
    bodies = [b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}', b'junk',
              b'{"operationSampling": {"defaultSamplingProbability": 1.0, "perOperationStrategies": []}}',
              b'{"strategyType": "?"}', b'{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 1}}']

    def http(url, kw):
        if 'credits' in url:
            return w.http_future(net.FakeResponse(b'{"balances": [{"operation": "op", "balance": 3}]}' if st['n'] % 2 else b'x'))
        st['n'] += 1
        return w.http_future(net.FakeResponse(bodies[(st['n'] - 1) % len(bodies)]))
    w.net.on_http = http
    env.rand.float_hook = lambda: 0.5
    cfg = Config({'logging': True, 'throttler': {'refresh_interval': 3}, 'sampling_refresh_interval': 2,
                  'reporter_queue_size': 1, 'reporter_batch_size': 1}, service_name='s', metrics_factory=F())
    tr = cfg.initialize_tracer(io_loop=w.io_loop)
    st['span'] = tr.start_span('first', child_of=SpanContext(3, 2, None, 1))
    st['tr'] = tr
    cfg.initialize_tracer(io_loop=w.io_loop)
    env.clock.advance(3600)              # errors are logged again
    w.advance(2)
    s = st['span']
    s.set_tag('k', Val(cb))
    s.log_kv({'e': Val(cb)})
    s.set_tag('sampling.priority', 1)
    tr.start_span('tagged', child_of=s, tags={'k': Val(cb)}).finish()
    tr.start_span('dbg', child_of=SpanContext.with_debug_id('d')).finish()
    tr.reporter.set_process('s', {'k': Val(cb)}, 100)
    s.finish()
    s.finish()

    def fail(data, addr):
        w.net.on_send = None
        raise OSError(111, 'refused')
    w.net.on_send = fail
    env.clock.advance(3600)
    w.advance(4)
    for _ in range(3):
        tr.start_span('more', child_of=s).finish()
    env.clock.advance(3600)
    w.advance(4)
    f = tr.close()
    w.advance(5)
    x.check(f.done(), 'close() does not complete')
    x.case()
    x.state(tuple(x.notes))


class LockingThrottler(object):
    """A throttler given by the application that guards its state with its own lock."""
    def __init__(self, lock):
        self.lock = lock

    def set_client_id(self, c):
        pass

    def is_allowed(self, op):
        with self.lock:
            return True

    def close(self):
        pass


class LockingSampler(object):
    def __init__(self, lock):
        self.lock = lock

    def is_sampled(self, trace_id, operation=''):
        with self.lock:
            return True, {'s': 1}

    def close(self):
        pass


class Reentering(object):
    """A sampler that traces while it decides."""
    def __init__(self, cb):
        self.cb, self.depth = cb, 0

    def is_sampled(self, trace_id, operation=''):
        if not self.depth:
            self.depth += 1
            try:
                self.cb('is_sampled')
            finally:
                self.depth -= 1
        return True, {'s': 1}

    def close(self):
        pass


def samplers(x):
    """The sampler given by the application, also as the initial one of a remote sampler, traces itself."""
    from jaeger_client import RemoteControlledSampler, SpanContext
    from jaeger_client.throttler import RemoteThrottler
    w = x.world
    w.net.on_http = lambda url, kw: w.http_future(net.FakeResponse(b'junk'))
    st = {}

    def cb(site):
        if 'span' in st:
            a = x.pick(ACTIONS + ['close', 'poll'])
            if a == 'close':
                tr.close()
            elif a == 'poll':
                w.advance(2)
            else:
                act(tr, st['span'], a)
    samp = Reentering(cb)
    remote = x.choose(2)
    if remote:
        samp = RemoteControlledSampler(sender(x), 'svc', init_sampler=samp, sampling_refresh_interval=1,
                                       metrics_factory=w.metrics.factory())
    tr = tracer(x, reporter(x), samp, throttler=RemoteThrottler(sender(x, throttling_port=5778), 'svc'))
    st['span'] = tr.start_span('op', child_of=SpanContext(1, 2, 3, 1))
    for i in range(2):
        s = tr.start_span('root', ignore_active_span=True)
        x.eq(s.is_sampled(), True, 'sampled')
    x.case()
    x.state(tuple(x.notes))


def order(x, trigger, action):
    """Thread 1 makes the tracer call user code that takes a lock; thread 2 traces while it holds that lock."""
    import threading
    from jaeger_client import Config, SpanContext, RemoteControlledSampler
    from jaeger_client.reporter import CompositeReporter, LoggingReporter, InMemoryReporter
    from jaeger_client.throttler import RemoteThrottler
    from jaeger_client.utils import ErrorReporter
    from jaeger_client.metrics import Metrics
    w = x.world
    H = threading.RLock()
    logger = logging.getLogger('jaeger_tracing')
    env.rand.float_hook = lambda: 0.0
    body = [b'{"operationSampling": {"defaultSamplingProbability": 1.0, "perOperationStrategies": []}}']
    w.net.on_http = lambda url, kw: w.http_future(net.FakeResponse(
        body[0] if 'sampling' in url else b'{"balances": [{"operation": "op", "balance": 3}]}' if body[0] != b'x' else b'x'))
    ch = sender(x)
    er = ErrorReporter(Metrics(), logger=logger, log_interval_minutes=0)
    if trigger == 'poll-fail':
        body[0] = b'x'
    samp = RemoteControlledSampler(ch, 'svc', metrics_factory=w.metrics.factory(), error_reporter=er,
                                   sampling_refresh_interval=1, init_sampler=S.ScriptSampler([True]))
    ch2 = sender(x, throttling_port=5778)
    thr = RemoteThrottler(ch2, 'svc', refresh_interval=1, metrics_factory=w.metrics.factory(), error_reporter=er)
    if trigger == 'own-throttler':
        thr = LockingThrottler(H)
    elif trigger == 'own-sampler':
        samp = LockingSampler(H)
    rep = reporter(x, ch, queue_capacity=1, batch_size=1, error_reporter=er)
    tr = tracer(x, CompositeReporter(rep, LoggingReporter(), InMemoryReporter()), samp, throttler=thr)
    span = tr.start_span('op', child_of=SpanContext(1, 2, 3, 1))
    w.run_ready()
    env.clock.advance(1)
    logger.setLevel(logging.DEBUG)
    armed = []

    def hook(rec, msg):
        if armed:
            with H:
                pass
    w.log.hook = hook

    class LV(object):
        def __str__(self):
            with H:
                return 'v'

    def t1():
        if trigger == 'finish-twice':
            span.finish()
            span.finish()
        elif trigger == 'str':
            span.set_tag('k', LV())
            span.log_kv({'k': LV()})
        elif trigger == 'start-str':
            tr.start_span('c', child_of=span, tags={'k': LV()})
        elif trigger == 'process-str':
            tr.reporter.set_process('svc', {'k': LV()}, 100)
        elif trigger == 'own-throttler':
            span.set_tag('sampling.priority', 1)
        elif trigger == 'own-sampler':
            tr.start_span('r', ignore_active_span=True)
        elif trigger in ('poll', 'poll-fail'):
            thr.is_allowed('op')
            w.advance(1.0)
        elif trigger == 'init':
            Config._initialized = True
            Config({}, service_name='s').initialize_tracer()
        elif trigger == 'drop':
            for _ in range(3):
                tr.start_span('c', child_of=span).finish()
            w.net.on_send = lambda d, a: (_ for _ in ()).throw(OSError(1, 'x'))
            w.advance(1)

    def t2():
        with H:
            act(tr, span, action)
    armed.append(1)
    run_threads(x, [t1, t2])
    armed[:] = []
    x.outcome((trigger, action))
    x.state((trigger, action, len(w.log.records)))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('life', life, bound=2 if t else 1, params={'closing': False}),
           Scenario('samplers', samplers), Scenario('life-closing', life, bound=1, params={'closing': True})]
    for tg in ('finish-twice', 'str', 'start-str', 'poll', 'poll-fail', 'init', 'drop', 'own-throttler', 'own-sampler', 'process-str'):
        for a in ACTIONS:
            if tg == 'init' and a != 'initialized':
                continue
            if tg == 'own-throttler' and a in ('tag', 'log', 'baggage', 'finish', 'name', 'priority'):
                continue                     # updates of the span the throttler is asked about: see ASSUMPTIONS
            if not t and tg in ('start-str', 'poll-fail') and a not in ('tag', 'finish', 'sampler', 'throttler'):
                continue
            if a in ('inject', 'repr', 'child') and tg not in ('own-throttler', 'own-sampler') or (a == 'initialized' and tg != 'init'):
                continue
            out.append(Scenario('order-%s-%s' % (tg, a), order, bound=2 if t else 1,
                                params={'trigger': tg, 'action': a}, sched=True))
    return out
