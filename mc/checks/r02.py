"""R02: close() completes, whenever, wherever and however often it is called, after everything was flushed."""
import asyncio
import _thread
from mc.lib import *
from mc.rep import Rig
from mc import startspan as S, sched as SC
from mc.world import VLoop

RULE = ('every history of reports, loop turns, passing time, send faults and close() calls from the loop thread, a thread '
        'without loop, and one whose own loop is idle or running; every interleaving of closing threads with the loop; '
        'distinct by (configuration, history)')
BOUNDS = ('histories of 5 operations (6 thorough) over 4 configurations x 5 calling contexts; 2-3 threads, preemption '
          'bound 1 (2 thorough)')
ASSUMPTIONS = ['the event loop of the reporter keeps running until the future is complete']


class AppLoop(VLoop):
    """The application's own loop in another thread: asleep until a timer or a thread-safe call wakes it."""

    def __init__(self):
        VLoop.__init__(self)
        self.woken = False

    def _write_to_self(self):
        self.woken = True

    def start(self):
        self._thread_id = 424242

    def stop_running(self):
        self._thread_id = None

    def poll(self):
        """What happens when the loop's thread gets to run: nothing if it is asleep."""
        if self.woken:
            self.woken = False
            # entered with a select() that returned at once; callbacks may add more
            self.step()
            while self._ready:
                self.step()
            return True
        return False


class Closing(object):
    """One close() call and what must be true when it is complete."""

    def __init__(self, r, future, upto, x):
        self.r, self.future, self.upto, self.x = r, future, list(upto), x
        self.seen = False

    def look(self, what):
        f = self.future
        if self.seen or not f.done():
            return
        self.seen = True
        x = self.x
        x.check(not f.cancelled() and f.exception() is None, '%s: close() failed: %s' % (what, f))
        got = set(self.r.received())
        missing = [n for n in self.upto if n not in got]
        x.check(len(missing) <= self.r.err + self.r.dropped,
                '%s: close() complete before %r were sent or counted' % (what, missing))


CONTEXTS = ['bare', 'idle-loop', 'running-loop', 'in-loop', 'same-loop']


def history(x, depth, context):
    cap, batch, flush = x.pick([(2, 1, 1), (2, 2, 1), (3, 2, None), (10, 3, 1)])
    what = x.pick(['tracer', 'reporter'] if context in ('bare', 'running-loop') else ['tracer'])
    own = None
    r = Rig(x, cap, batch, flush)
    w = x.world
    w.vloop
    if context in ('idle-loop', 'running-loop'):
        own = AppLoop()
        asyncio.set_event_loop(own)
        if context == 'running-loop':
            own.start()
    elif context == 'same-loop':
        w.make_current()
    fault = [0]

    def on_send(data, addr):
        if fault[0]:
            fault[0] -= 1
            raise OSError(111, 'refused')
    w.net.on_send = on_send
    closings, seq, awaited = [], [], []

    def close():
        upto = list(r.reported)
        if context == 'in-loop':
            def do():
                closings.append(Closing(r, (r.tr if what == 'tracer' else r.rep).close(), upto, x))
            w.io_loop.add_callback(do)
            return
        if context == 'running-loop':
            asyncio._set_running_loop(own)          # called by a coroutine of the application
            try:
                f = (r.tr if what == 'tracer' else r.rep).close()
            finally:
                asyncio._set_running_loop(None)

            async def wait():
                await asyncio.wrap_future(f) if not asyncio.isfuture(f) else await f
                awaited.append(1)
            own.call_soon_threadsafe(lambda: own.create_task(wait()))
            own.poll()
        else:
            f = (r.tr if what == 'tracer' else r.rep).close()
        closings.append(Closing(r, f, upto, x))

    def look():
        if own is not None and context == 'running-loop':
            own.poll()
        for c in closings:
            c.look(seq)
    n_close = 0
    for i in range(depth):
        op = x.pick(['report', 'turn', 'run', 'second', 'fault', 'close'])
        if op in ('turn', 'run') and not w.vloop.ready():
            return
        if op == 'fault' and fault[0]:
            return
        seq.append(op)
        if op == 'report':
            r.report()
        elif op == 'turn':
            w.vloop.step()
        elif op == 'run':
            w.run_ready()
        elif op == 'second':
            w.advance(1.25)
        elif op == 'fault':
            fault[0] = 1
        else:
            n_close += 1
            close()
        look()
        x.state((cap, batch, flush, tuple(seq), r.ok, r.err, r.dropped, sum(c.seen for c in closings)))
    n_close += 1
    close()
    # let the loop work and time pass little by little
    for _ in range(6):
        w.advance(0.5)
        look()
    x.check(len(closings) == n_close, '%s: close() did not return' % seq)
    for c in closings:
        x.check(c.seen, '%s (%s, %s): the future of a close() never completes' % (seq, context, what))
    if context == 'running-loop':
        x.eq(len(awaited), n_close, '%s: coroutines resumed after close()' % seq)
    if context == 'idle-loop':
        # the application runs its loop only now
        got = []
        for c in closings:
            c.future.add_done_callback(lambda f: got.append(f.result()))
        own.run_ready()
        x.eq(len(got), n_close, '%s: futures usable on the loop of the application' % seq)
    r.account(what=str(seq))
    x.case()


def concurrent(x, plan, cap, batch, n_close, how):
    """Reporting threads, closing threads and the loop, in every order."""
    r = Rig(x, cap, batch, 1)
    w = x.world
    w.run_ready()
    done = [0]
    closings = []

    def app(i, n, closes):
        def f():
            own = None
            if how == 'app-loop':
                own = AppLoop()
                asyncio.set_event_loop(own)
            mine = []
            for k in range(n):
                s = r.tr.start_span('%s%d' % ('ABC'[i], k))
                r.reported.append(s.operation_name)
                s.finish()
                mine.append(s.operation_name)
            for k in range(closes):
                f = r.tr.close()
                closings.append(Closing(r, f, list(mine), x))
                if own is not None and k == closes - 1:
                    run_until_complete(x, own, f)
            done[0] += 1
        return f
    bodies = [app(i, n, 1 if i < n_close else 0) for i, n in enumerate(plan)]

    def step_and_look():
        for c in closings:
            c.look('concurrent')
        return False

    def all_done():
        return done[0] == len(plan)
    run_threads(x, bodies + [loop_body(w, all_done, step_and_look)],
                names=['ABC'[i] for i in range(len(plan))] + ['loop'])
    w.advance(3)
    if not n_close:
        closings.append(Closing(r, r.tr.close(), list(r.reported), x))
        w.advance(3)
    for c in closings:
        c.look('end')
        x.check(c.seen, 'the future of a concurrent close() never completes')
    f = r.tr.close()
    w.advance(3)
    x.check(f.done(), 'close() after everything never completes')
    r.account(order=False, what='concurrent')
    x.outcome((r.ok, r.err, r.dropped))


def run_until_complete(x, own, f):
    """loop.run_until_complete(f) in a scheduled thread: sleeps in select() unless woken."""
    own._thread_id = _thread.get_ident()
    finished = []
    f.add_done_callback(lambda _: finished.append(1))
    SC.yield_point()
    while not finished:
        if not own._ready:
            SC.yield_point()            # between looking and falling asleep
            SC.wait_until(lambda: own.woken)
        own.woken = False
        own.step()
        SC.yield_point()
    own._thread_id = None


def layers(x):
    """The tracer's own ways to build senders: everything closes, in every context."""
    from jaeger_client import Config, RemoteControlledSampler
    from jaeger_client.throttler import RemoteThrottler
    from jaeger_client.reporter import CompositeReporter, InMemoryReporter, LoggingReporter, NullReporter
    from jaeger_client.reporter import Reporter
    w = x.world
    w.net.on_http = lambda url, kw: w.http_future()
    context = x.pick(['bare', 'idle-loop', 'running-loop', 'same-loop', 'in-loop'])
    shape = x.pick(['reporter', 'composite', 'composite-last', 'nested', 'two', 'memory', 'logging', 'null', 'empty',
                    'config', 'config-logging'])
    extra = x.pick(['none', 'sampler', 'sampler+throttler'])
    when = x.pick(['at-once', 'started', 'polling'])
    own = None
    w.vloop
    if context in ('idle-loop', 'running-loop'):
        own = AppLoop()
        asyncio.set_event_loop(own)
    elif context == 'same-loop':
        w.make_current()
    snd = sender(x, loop=True, throttling_port=5778)
    mk = lambda: reporter(x, sender(x), batch_size=2)   # noqa
    mem = InMemoryReporter()
    reps = []
    if shape.startswith('config'):
        if context != 'same-loop':
            # the sender creates its own thread
            pass
        cfg = Config({'logging': shape == 'config-logging', 'sampler': {'type': 'const', 'param': 1},
                      'reporter_batch_size': 2, 'throttler': {'port': 5778} if extra.endswith('throttler') else None}
                     if extra.endswith('throttler') else
                     {'logging': shape == 'config-logging', 'sampler': {'type': 'const', 'param': 1},
                      'reporter_batch_size': 2}, service_name='svc', validate=True)
        if extra == 'sampler':
            cfg = Config({'logging': shape == 'config-logging', 'reporter_batch_size': 2}, service_name='svc',
                         validate=True)
        tr = cfg.new_tracer()
        expect_packets = extra != 'sampler'
    else:
        rep = {'reporter': lambda: mk(), 'composite': lambda: CompositeReporter(mk(), mem),
               'composite-last': lambda: CompositeReporter(NullReporter(), LoggingReporter(), mk()),
               'nested': lambda: CompositeReporter(CompositeReporter(mem, mk()), NullReporter()),
               'two': lambda: CompositeReporter(mk(), mk()), 'memory': lambda: mem, 'logging': LoggingReporter,
               'null': NullReporter, 'empty': CompositeReporter}[shape]()
        samp = S.ScriptSampler([True])
        kw = {}
        if extra != 'none':
            samp = RemoteControlledSampler(snd, 'svc', init_sampler=samp)
        if extra.endswith('throttler'):
            kw['throttler'] = RemoteThrottler(snd, 'svc')
        tr = tracer(x, rep, samp, **kw)
        expect_packets = shape in ('reporter', 'composite', 'composite-last', 'nested', 'two')
    if when != 'at-once':
        w.run_ready()
    if when == 'polling':
        w.advance(61)
    names = []
    for i in range(3):
        s = tr.start_span('s%d' % i)
        s.finish()
        names.append(s.operation_name)
    res, awaited = [], []
    if context == 'in-loop':
        w.io_loop.add_callback(lambda: res.append(tr.close()))
        w.run_ready()
    elif context == 'running-loop':
        own.start()
        asyncio._set_running_loop(own)
        try:
            res.append(tr.close())
        finally:
            asyncio._set_running_loop(None)

        async def wait():
            await res[0]
            awaited.append(1)
        own.call_soon_threadsafe(lambda: own.create_task(wait()))
        own.poll()
    else:
        res.append(tr.close())
    for _ in range(4):
        w.advance(0.5)
        if context == 'running-loop':     # an idle loop does not run at all
            own.poll()
    what = '%s/%s/%s/%s' % (context, shape, extra, when)
    x.check(res and res[0].done() and res[0].exception() is None, '%s: close() not complete: %s' % (what, res))
    if context == 'running-loop':
        x.check(awaited, '%s: the application waiting for close() is never resumed' % what)
    if expect_packets:
        got = ops(batches(x))
        x.eq(got if shape != 'two' else sorted(got), names if shape != 'two' else sorted(names * 2),
             '%s: spans received' % what)
    if shape in ('composite', 'nested', 'memory'):
        x.eq([s.operation_name for s in mem.get_spans()], names, '%s: in memory' % what)
    x.state(what)
    x.case()


def slow(x, depth):
    """A sender that takes its time: close() is complete only when everything reported before has been sent or counted."""
    import tornado.gen
    cap, batch, flush = x.pick([(2, 1, 1), (10, 2, 1), (10, 3, None)])
    dt = x.pick([1.25, 4000])
    r = Rig(x, cap, batch, flush)
    w = x.world
    w.vloop
    sending, sent, lost = [], [], []

    @tornado.gen.coroutine
    def send(b):
        names = [s.operationName for s in b.spans]
        f = w.http_future()
        sending.append((f, names))
        try:
            yield f
        except OSError:
            lost.extend(names)
            raise
        sent.extend(names)
    r.rep._send = send
    closings, seq = [], []

    def look():
        for f, upto in closings:
            if f.done():
                missing = [n for n in upto if n not in sent and n not in lost]
                x.check(len(missing) <= r.dropped, '%s: close() complete before %r were sent or counted' % (seq, missing))
                x.check(f.exception() is None, '%s: close() failed' % seq)
    for _ in range(depth):
        op = x.pick(['report', 'run', 'turn', 'second', 'sent', 'fail', 'close'])
        if op in ('sent', 'fail') and not (sending and not sending[-1][0].done()):
            return
        if op in ('turn', 'run') and not w.vloop.ready():
            return
        seq.append(op)
        if op == 'report':
            r.report()
        elif op == 'run':
            w.run_ready()
        elif op == 'turn':
            w.vloop.step()
        elif op == 'second':
            w.advance(dt)
        elif op == 'sent':
            sending[-1][0].set_result(None)
        elif op == 'fail':
            sending[-1][0].set_exception(OSError(111, 'refused'))
        else:
            closings.append((r.tr.close(), list(r.reported)))
        look()
        x.state((cap, batch, flush, tuple(seq)))
    closings.append((r.rep.close(), list(r.reported)))
    for _ in range(2 * len(r.reported) + 3):
        w.advance(dt if _ == 0 else 0.5)
        look()
        if sending and not sending[-1][0].done():
            x.check(not closings[-1][0].done(), '%s: close() complete during a send' % seq)
            sending[-1][0].set_result(None)
    for f, _ in closings:
        x.check(f.done(), '%s: the future of a close() never completes' % seq)
    x.eq(sum(len(n) for _, n in sending), len(sent) + len(lost), '%s: fates' % seq)
    x.eq((r.ok, r.err), (len(sent), len(lost)), '%s: counters' % seq)
    x.eq(r.ok + r.err + r.dropped, len(r.reported), '%s: spans' % seq)
    x.case()


def pump(x):
    """Long lives and many close() calls: each of them completes, after everything reported before it."""
    cap, batch, flush = x.pick([(300, 10, 1), (2000, 7, 1), (300, 300, None)])
    n = x.pick([0, 9, 10, 100, 128, 299])
    k = x.pick([1, 10, 60])
    what = x.pick(['tracer', 'reporter', 'both'])
    faults = bool(x.choose(2))
    r = Rig(x, cap, batch, flush)
    w = x.world
    sends = [0]

    def on_send(data, addr):
        sends[0] += 1
        if faults and sends[0] % 2:
            raise OSError(111, 'refused')
    w.net.on_send = on_send
    for _ in range(n):
        r.report()
    cl = []
    for i in range(k):
        o = r.tr if what == 'tracer' or what == 'both' and i % 2 else r.rep
        cl.append(Closing(r, o.close(), r.reported, x))
        if i % 3 == 1:
            w.run_ready()
    for _ in range(4):
        w.advance(0.5)
        for c in cl:
            c.look('%d spans, %d closes' % (n, k))
    for i, c in enumerate(cl):
        x.check(c.seen, '%d spans, close() number %d of %d on the %s does not complete' % (n, i + 1, k, what))
    r.account(what='%d spans, %d closes' % (n, k))
    x.eq(r.dropped, 0, 'dropped')
    x.case(k)
    x.state((cap, n, k, what, faults))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('history-%s' % c, history, params={'depth': (6 if t else 5) - (0 if c == 'bare' else 1), 'context': c})
           for c in CONTEXTS]
    out += [Scenario('layers', layers), Scenario('pump', pump), Scenario('slow', slow, params={'depth': 7 if t else 6})]
    cases = [((1, 1), 2, 1, 2, 'bare'), ((1,), 2, 2, 1, 'app-loop'), ((1, 1), 1, 1, 1, 'bare')]
    if t:
        cases += [((1, 1), 2, 2, 2, 'app-loop'), ((1, 1, 0), 3, 2, 2, 'bare'), ((2, 1), 2, 1, 2, 'bare')]
    for plan, cap, batch, n, how in cases:
        out.append(Scenario('threads-%s-%d-%d-%d-%s' % (plan, cap, batch, n, how), concurrent,
                            bound=2 if t and len(plan) == 1 else 1,
                            params={'plan': plan, 'cap': cap, 'batch': batch, 'n_close': n, 'how': how}, sched=True))
    return out
