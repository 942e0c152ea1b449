"""A real tracer + Reporter + LocalAgentSender over the in-memory agent, with span accounting (R01-R06)."""
from .lib import *
from . import startspan as S


class Rig(object):
    def __init__(self, x, capacity=100, batch=10, flush=1, loop=True, **kw):
        self.x, self.capacity, self.batch, self.flush = x, capacity, batch, flush
        self.sender = sender(x, loop=loop)
        self.rep = reporter(x, self.sender, queue_capacity=capacity, batch_size=batch, flush_interval=flush, **kw)
        self.tr = tracer(x, self.rep, S.ScriptSampler([True]))
        self.reported = []          # operation names in the order finish() was called
        self.n = 0

    def report(self, name=None, **tags):
        name = name or 's%d' % self.n
        self.n += 1
        s = self.tr.start_span(name, tags=tags or None)
        s.finish()
        self.reported.append(name)
        return s

    def metric(self, k):
        return self.x.world.metrics.get(k)

    @property
    def dropped(self):
        return self.metric(DROP)

    @property
    def ok(self):
        return self.metric(OK)

    @property
    def err(self):
        return self.metric(ERR)

    def received(self):
        return ops(batches(self.x))

    def account(self, order=True, what=''):
        """Every reported span has exactly one fate and the counters say which."""
        x = self.x
        got = self.received()
        x.eq(len(set(got)), len(got), '%s: spans received twice: %r' % (what, got))
        x.check(set(got) <= set(self.reported), '%s: received %r, reported %r' % (what, got, self.reported))
        x.eq(len(got), self.ok, '%s: spans counted as delivered' % what)
        x.eq(self.ok + self.err + self.dropped, len(self.reported),
             '%s: fates (ok %d, err %d, dropped %d)' % (what, self.ok, self.err, self.dropped))
        if order:
            x.eq(got, [n for n in self.reported if n in set(got)], '%s: order of delivery' % what)
        for b in batches(x):
            x.check(0 < len(b['spans']) <= self.batch, '%s: a batch of %d spans' % (what, len(b['spans'])))
