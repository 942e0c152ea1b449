"""One execution's environment: virtual event loop, network, logs, metrics."""
import asyncio
import collections
import heapq
import logging

from . import env, net, locks
from .explore import Violation, HarnessError

_world = None


def current():
    return _world


class _Selector(object):
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        return []

    def get_map(self):
        return {}


class VLoop(asyncio.BaseEventLoop):
    """An asyncio loop in virtual time: nothing runs unless the harness turns the crank."""

    def __init__(self):
        asyncio.BaseEventLoop.__init__(self)
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.unhandled = []
        self.fatal = None
        self.set_exception_handler(self._on_unhandled)

    def _on_unhandled(self, loop, ctx):
        e = ctx.get('exception')
        if e is not None and not isinstance(e, Exception) \
                and not isinstance(e, asyncio.CancelledError):
            self.fatal = self.fatal or e
            return
        self.unhandled.append('%s %r' % (ctx.get('message'), ctx.get('exception')))

    def time(self):
        return env.clock.mono

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass

    def ready(self):
        return bool(self._ready)

    def next_timer(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            self._timer_cancelled_count = max(0, self._timer_cancelled_count - 1)
            h._scheduled = False
        return self._scheduled[0]._when if self._scheduled else None

    def step(self):
        """Run the callbacks that are ready now (one batch)."""
        prev = asyncio._get_running_loop()
        asyncio._set_running_loop(self)
        try:
            self._run_once()
        finally:
            asyncio._set_running_loop(prev)
        if self.fatal is not None:
            f, self.fatal = self.fatal, None
            raise f

    def step_one(self):
        """Run only the first callback that is ready: threads may add others before the next one runs."""
        rest = list(self._ready)[1:]
        for _ in rest:
            self._ready.pop()
        self.step()
        self._ready.extendleft(reversed(rest))

    def run_ready(self, limit=10000):
        n = 0
        while self._ready:
            self.step()
            n += 1
            if n > limit:
                raise Violation('livelock: the event loop never becomes idle')
        return n


# every loop anyone makes is one in virtual time
asyncio.DefaultEventLoopPolicy._loop_factory = VLoop


class _LogCapture(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []
        self.hook = None

    def emit(self, rec):
        try:
            msg = rec.getMessage()
        except Exception as e:  # noqa
            msg = 'bad log call: %r' % (e,)
        self.records.append((rec.name, rec.levelname, msg))
        if self.hook is not None:
            self.hook(rec, msg)

    def handle(self, rec):     # no handler lock: the harness owns it
        self.emit(rec)
        return True


class CallTrace(object):
    """Counters/gauges as the user's metrics backend sees them."""

    def __init__(self):
        self.counters = collections.Counter()
        self.gauges = {}
        self.on_gauge = None
        self.timers = collections.defaultdict(list)
        self.calls = []

    def factory(self):
        from jaeger_client.metrics import MetricsFactory
        ct = self

        def key(name, tags):
            return name + ''.join('|%s=%s' % (k, tags[k]) for k in sorted(tags or {}))

        class F(MetricsFactory):
            def create_counter(self, name, tags=None):
                k = key(name, tags)

                def inc(v):
                    ct.counters[k] += v
                return inc

            def create_gauge(self, name, tags=None):
                k = key(name, tags)

                def upd(v):
                    ct.gauges[k] = v
                    if ct.on_gauge is not None:
                        ct.on_gauge(k, v)
                return upd

            def create_timer(self, name, tags=None):
                k = key(name, tags)

                def rec(v):
                    ct.timers[k].append(v)
                return rec
        return F()

    def get(self, k):
        return self.counters.get(k, 0)


class World(object):
    def __init__(self, x):
        self.x = x
        self.net = net.current = net.Net()
        self._vloop = None
        self._io_loop = None
        self.log = _LogCapture()
        self.metrics = CallTrace()
        self.allow_unhandled = False
        self.thread_loops = 0     # threads started to run a loop

    @property
    def vloop(self):
        if self._vloop is None:
            self._vloop = VLoop()
            asyncio.set_event_loop(None)
        return self._vloop

    @property
    def io_loop(self):
        if self._io_loop is None:
            from tornado.platform.asyncio import AsyncIOLoop
            from tornado.ioloop import IOLoop
            self._io_loop = AsyncIOLoop(asyncio_loop=self.vloop, make_current=False)
        return self._io_loop

    def make_current(self):
        """As in an application whose own thread runs this loop."""
        self.io_loop
        asyncio.set_event_loop(self.vloop)

    # -- time ---------------------------------------------------------------------------------
    def run_ready(self):
        self.vloop.run_ready()

    def advance(self, dt):
        """Let dt seconds pass, firing timers in order."""
        end = env.clock.mono + dt
        self.vloop.run_ready()
        n = 0
        while True:
            nt = self.vloop.next_timer()
            if nt is None or nt > end + 1e-9:
                break
            env.clock.mono = max(env.clock.mono, nt)
            self.vloop.step()
            self.vloop.run_ready()
            n += 1
            if n > 20000:
                raise Violation('livelock: timers never stop firing')
        env.clock.mono = max(env.clock.mono, end)
        self.vloop.step()
        self.vloop.run_ready()

    def http_future(self, result=None, exc=None):
        f = asyncio.Future(loop=self.vloop)
        if exc is not None:
            f.set_exception(exc)
        elif result is not None:
            f.set_result(result)
        return f


_LOGGERS = ('jaeger_tracing', 'tornado.application', 'tornado.general', 'asyncio', 'root')


def begin(x):
    global _world
    _world = World(x)
    root = logging.getLogger()
    root.handlers[:] = [_world.log]
    root.setLevel(logging.INFO)
    for n in ('jaeger_tracing', 'tornado.application', 'asyncio', 'tornado.general'):
        lg = logging.getLogger(n)
        lg.handlers[:] = []
        lg.propagate = True
        lg.disabled = False
        lg.setLevel(logging.NOTSET)
        lg.filters[:] = []
    asyncio.set_event_loop(None)
    x.world = _world
    return _world


def end_checks(x):
    """Nothing may blow up behind the application's back."""
    w = _world
    if w.allow_unhandled:
        return
    if w._vloop is not None and w._vloop.unhandled:
        raise Violation('unhandled exception in the event loop: %s' % w._vloop.unhandled[0])
    for name, level, msg in w.log.records:
        if name == 'tornado.application' and level in ('ERROR', 'CRITICAL'):
            raise Violation('unhandled exception in a callback: %s' % msg[:300])


def finish():
    global _world
    w = _world
    if w is not None:
        w.log.hook = None
        if w._vloop is not None:
            lp = w._vloop
            for h in list(lp._ready):
                h.cancel()
            lp._ready.clear()
            lp._scheduled.clear()
            lp.set_exception_handler(lambda l, c: None)
            asyncio.set_event_loop(None)
            try:
                if w._io_loop is not None:
                    from tornado.ioloop import IOLoop
                    IOLoop._ioloop_for_asyncio.pop(lp, None)
                lp._closed = True
            except Exception:  # noqa
                pass
        net.current = net.Net()
    _world = None
