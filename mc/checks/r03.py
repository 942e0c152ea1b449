"""R03: the reporter's queue is bounded, drops only when full, and batches leave in time."""
from mc.lib import *
from mc.rep import Rig
from mc import env

RULE = ('every sequence of single reports, bursts, loop turns, time steps, send faults and close; distinct by '
        '(configuration, history); every receipt of a span, every datagram and every instant between events is judged')
BOUNDS = 'histories of 6 operations (7 thorough) over 6 (9) configurations of capacity, batch size and flush interval'

CONFIGS = [(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, None), (4, 3, 0.5), (3, 3, 2)]
MORE = [(5, 2, 1), (5, 4, 0.25), (2, 2, 0)]
EPS = 1e-6


class Watch(object):
    """Knows for every span when the reporter received it, its fate, and when every batch left."""

    def __init__(self, x, r):
        self.x, self.r, self.w = x, r, x.world
        self.received = []        # (name, time, accepted)
        self.dropped = 0
        self.accepted = 0
        self.last = None          # time of the last accepted span
        self.closing = False
        self.sent = 0             # spans in batches that left or failed
        self.fail = 0
        self.pending = []         # accepted names not sent yet
        self.seq = []
        self.w.net.on_send = self.on_send
        self.gauge_due = False    # a batch left since the gauge was set
        self.w.metrics.on_gauge = self.on_gauge

    def report(self):
        r = self.r
        r.report()
        name = r.reported[-1]
        # runs right after the reporter received the span
        self.w.io_loop.add_callback(self.got, name)

    def got(self, name):
        x, r = self.x, self.r
        d = r.dropped
        held = len(self.pending)
        now = env.clock.mono
        x.check(d - self.dropped in (0, 1), '%s: %d drops for one span' % (self.seq, d - self.dropped))
        if d > self.dropped:
            self.dropped = d
            x.check(held >= r.capacity or self.closing,
                    '%s: span %s dropped while only %d of %d are held' % (self.seq, name, held, r.capacity))
        else:
            x.check(not self.closing, '%s: span %s accepted after close()' % (self.seq, name))
            x.check(held < r.capacity + r.batch,
                    '%s: span %s accepted although %d spans are held (capacity %d, batch %d)'
                    % (self.seq, name, held, r.capacity, r.batch))
            self.pending.append(name)
            self.last = now

    def on_send(self, data, addr):
        x, r = self.x, self.r
        b = batches(x, [(data, addr)])[0]
        names = ops([b])
        x.eq(names, self.pending[:len(names)], '%s: spans of a batch' % self.seq)
        x.check(1 <= len(names) <= r.batch, '%s: a batch of %d spans' % (self.seq, len(names)))
        if len(names) < r.batch and not self.closing:
            x.check(r.flush and env.clock.mono >= self.last + r.flush - EPS,
                    '%s: an incomplete batch %r left %.3f s after its last span (flush interval %s)'
                    % (self.seq, names, env.clock.mono - self.last, r.flush))
        del self.pending[:len(names)]
        self.gauge_due = True
        if self.fail:
            self.fail -= 1
            raise OSError(111, 'refused')

    def on_gauge(self, name, value):
        if name != QLEN:
            return
        x, held = self.x, len(self.pending)
        if not self.closing:
            # up to one batch of the spans held may already have left the queue
            x.check(held - self.r.batch <= value <= held and 0 <= value <= self.r.capacity,
                    '%s: queue length gauge set to %r with %d spans held' % (self.seq, value, held))
        self.gauge_due = False

    def idle(self):
        """Nothing is left to run at this instant."""
        x, r = self.x, self.r
        x.check(len(self.pending) < r.batch, '%s: a full batch of %d spans is not sent' % (self.seq, len(self.pending)))
        if self.pending:
            x.check(not self.closing, '%s: %r not flushed by close()' % (self.seq, self.pending))
            if r.flush:
                x.check(env.clock.mono < self.last + r.flush + EPS,
                        '%s: %r not flushed %.3f s after the last span' % (self.seq, self.pending, env.clock.mono - self.last))
        x.check(not self.gauge_due, '%s: queue length gauge not set after a batch' % self.seq)

    def advance(self, dt):
        w = self.w
        end = env.clock.mono + dt
        w.run_ready()
        self.idle()
        while True:
            t = w.vloop.next_timer()
            if t is None or t > end:
                break
            w.advance(max(0, t - env.clock.mono))
            self.idle()
        w.advance(end - env.clock.mono)
        self.idle()


def history(x, depth, configs, ops_):
    cap, batch, flush = x.pick(configs)
    r = Rig(x, cap, batch, flush)
    h = Watch(x, r)
    w = x.world
    step = flush or 1.0
    if x.choose(2):
        w.run_ready()
        h.seq.append('started')
    for _ in range(depth):
        op = x.pick(ops_)
        if op in ('turn', 'run') and not w.vloop.ready():
            return
        h.seq.append(op)
        if op == 'report':
            h.report()
        elif op == 'burst':
            for _ in range(cap + batch + 1):
                h.report()
        elif op == 'fill':
            for _ in range(cap):
                h.report()
        elif op == 'turn':
            w.vloop.step()
        elif op == 'run':
            w.run_ready()
            h.idle()
        elif op == 'part':
            h.advance(0.4 * step)
        elif op == 'full':
            h.advance(1.0 * step)
        elif op == 'fault':
            if h.fail:
                return
            h.fail = 1
        elif op == 'close':
            if h.closing:
                return
            # spans received before the loop sees the close() may be accepted
            w.run_ready()
            h.closing = True
            r.tr.close()
        x.state((cap, batch, flush, tuple(h.seq), len(h.pending), r.ok, r.err, r.dropped))
    w.run_ready()
    h.idle()
    h.advance(1.3 * step)
    if flush:
        x.eq(h.pending, [], '%s: spans not flushed after a quiet interval' % h.seq)
    if not h.closing:
        h.closing = True
        f = r.tr.close()
        h.advance(1)
        x.check(f.done(), '%s: close() incomplete' % h.seq)
    x.eq(h.pending, [], '%s: spans not flushed by close()' % h.seq)
    x.eq(r.ok + r.err + r.dropped, len(r.reported), '%s: fates' % h.seq)
    x.case()


def exact(x):
    """An idle reporter takes one span at once and keeps as many as fit into its queue; exactly the rest of a burst is dropped."""
    cap, batch = x.pick([(1, 1), (2, 1), (2, 2), (3, 2), (5, 5), (7, 3), (10, 10), (16, 4), (64, 10), (100, 10), (128, 128), (255, 20), (1000, 50)])
    r = Rig(x, cap, batch, 1)
    w = x.world
    w.run_ready()
    total = 0
    for rnd in range(3):
        extra = x.pick([0, 1, 2, 5])
        for _ in range(cap + 1 + extra):
            r.report()
        w.run_ready()
        total += extra
        x.eq(r.dropped, total, 'capacity %d, batch %d: dropped of a burst of %d spans' % (cap, batch, cap + 1 + extra))
        w.advance(1.1)
        x.eq(r.ok, len(r.reported) - total, 'capacity %d, batch %d: sent' % (cap, batch))
        x.state((cap, batch, rnd, extra))
    f = r.tr.close()
    w.advance(1)
    x.check(f.done(), 'close() incomplete')
    r.account(what='capacity %d, batch %d' % (cap, batch))
    x.case()


def construct(x):
    """A queue that cannot hold one batch is refused."""
    for cap in range(0, 5):
        for batch in range(1, 5):
            try:
                Rig(x, cap, batch, 1)
                ok = True
            except ValueError:
                ok = False
            x.eq(ok, cap >= batch, 'queue_capacity=%d batch_size=%d accepted' % (cap, batch))
            x.case()


def pump(x):
    """Queues of every size: what fits is kept, what does not is dropped, also the tenth time."""
    cap, batch = x.pick([(100, 10), (600, 10), (300, 300), (700, 500), (300, 1), (2100, 10), (4500, 500), (16, 16), (65, 64)])
    r = Rig(x, cap, batch, 1)
    w = x.world
    w.run_ready()
    base = 0
    for rnd in range(10 if cap < 1000 else 4):
        # everything arrives before the loop turns to the queue: capacity (and what the consumer holds) is kept
        for _ in range(cap):
            r.report()
        w.run_ready()
        x.eq(r.dropped, 0, 'capacity %d, batch %d, round %d: dropped' % (cap, batch, rnd))
        full = base + (len(r.reported) - base) // batch * batch      # counted since the last flush
        x.check(r.ok >= full, 'capacity %d, batch %d, round %d: %d of %d full batches\' spans sent' % (cap, batch, rnd, r.ok, full))
        if rnd % 3 == 2:
            w.advance(1.1)
            base = len(r.reported)
            x.eq(r.ok, base, 'capacity %d, batch %d, round %d: sent after a flush interval' % (cap, batch, rnd))
    f = r.tr.close()
    w.advance(2)
    x.check(f.done(), 'close() incomplete')
    r.account(what='capacity %d, batch %d' % (cap, batch))
    x.case(len(r.reported))
    x.state((cap, batch))


def scenarios(tier):
    t = tier == 'thorough'
    full = ['report', 'burst', 'fill', 'turn', 'run', 'part', 'full', 'fault', 'close']
    return [Scenario('pump', pump)] + [Scenario('history', history, params={'depth': 5 if t else 4, 'ops_': full,
                                                 'configs': CONFIGS + MORE if t else CONFIGS}),
            Scenario('history-long', history, params={'depth': 7 if t else 6, 'ops_': ['report', 'fill', 'run', 'part', 'full'],
                                                      'configs': CONFIGS[2:]}),
            Scenario('construct', construct), Scenario('exact', exact)]
