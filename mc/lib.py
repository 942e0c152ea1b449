"""Harness helpers shared by the checks.  Only public API of jaeger_client is used."""
from . import env, net, world, wire, sched
from .explore import Violation, HarnessError, Scenario

SAMPLED, DEBUG = 1, 2
OK = 'jaeger:reporter_spans|result=ok'
ERR = 'jaeger:reporter_spans|result=err'
DROP = 'jaeger:reporter_spans|result=dropped'
QLEN = 'jaeger:reporter_queue_length'


def J():
    import jaeger_client
    return jaeger_client


def sender(x, loop=True, **kw):
    """A real LocalAgentSender over the in-memory network."""
    from jaeger_client.local_agent_net import LocalAgentSender
    args = dict(host='agent', sampling_port=5778, reporting_port=6831,
                io_loop=x.world.io_loop if loop else None)
    args.update(kw)
    return LocalAgentSender(**args)


def reporter(x, channel=None, **kw):
    from jaeger_client.reporter import Reporter
    ch = channel or sender(x)
    kw.setdefault('metrics_factory', x.world.metrics.factory())
    return Reporter(ch, **kw)


def tracer(x, rep=None, sampler=None, **kw):
    from jaeger_client import Tracer, ConstSampler
    from jaeger_client.reporter import InMemoryReporter
    kw.setdefault('metrics_factory', x.world.metrics.factory())
    name = kw.pop('service_name', 'svc')
    return Tracer(name, rep if rep is not None else InMemoryReporter(),
                  sampler if sampler is not None else ConstSampler(True), **kw)


def batches(x, packets=None):
    """Decode everything that left the machine; a corrupt datagram is a violation."""
    out = []
    for data, addr in (x.world.net.packets if packets is None else packets):
        try:
            out.append(wire.decode_batch(data))
        except wire.Corrupt as e:
            raise Violation('the agent received a datagram that is not one complete batch: %s' % e,
                            datagram=data[:200])
    return out


def ops(bs):
    return [s['operation'] for b in bs for s in b['spans']]


def run_threads(x, bodies, names=None, max_steps=20000, opcodes=True):
    s = sched.Sched(x, max_steps=max_steps, opcodes=opcodes)
    for i, b in enumerate(bodies):
        s.spawn(b, names[i] if names else None)
    s.run()
    if s.trace:
        x.note('schedule: ' + ' '.join(s.trace))
    for t in s.threads:
        if t.exc is not None:
            raise Violation('a thread failed with %s: %s' % (type(t.exc).__name__, t.exc),
                            traceback=t.tb[-1500:])
    return s


def loop_body(w, done, on_idle=None, limit=4000):
    """The thread that runs the event loop until done() and nothing is left to run."""
    def body():
        n = 0
        while True:
            if w.vloop.ready():
                w.vloop.step()
                n += 1
                if n > limit:
                    raise Violation('livelock: the event loop never becomes idle')
            elif done():
                if on_idle is not None and on_idle():
                    continue
                return
            else:
                sched.wait_until(lambda: w.vloop.ready() or done())
    return body


def tags_of(span):
    """Tags as the application sees them on a finished span object: [(key, value)]."""
    return [(t.key, tag_value(t)) for t in span.tags]


def tag_value(t):
    for a in ('vStr', 'vDouble', 'vBool', 'vLong', 'vBinary'):
        v = getattr(t, a, None)
        if v is not None:
            return v
    return None


class Puppet(object):
    """A second thread of the application that does one thing at a time when told to."""

    def __init__(self):
        import _thread
        self.go, self.done = _thread.allocate_lock(), _thread.allocate_lock()
        self.go.acquire()
        self.done.acquire()
        self.fn, self.res, self.exc = None, None, None
        _thread.start_new_thread(self._main, ())

    def _main(self):
        import _thread
        import threading
        threading._active[_thread.get_ident()] = threading.Thread(name='puppet')
        try:
            while True:
                self.go.acquire()
                if self.fn is None:
                    return
                try:
                    self.res = self.fn()
                except BaseException as e:   # noqa
                    self.exc = e
                self.done.release()
        finally:
            threading._active.pop(_thread.get_ident(), None)
            self.done.release()

    def call(self, fn):
        self.fn, self.res, self.exc = fn, None, None
        self.go.release()
        self.done.acquire()
        if self.exc is not None:
            raise self.exc
        return self.res

    def stop(self):
        self.fn = None
        self.go.release()
        self.done.acquire()
