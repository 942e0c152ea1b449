"""R07: composite, in-memory, logging and null reporters."""
import asyncio
import itertools
import logging
from mc.lib import *
from mc import startspan as S
from mc.world import VLoop

RULE = ('every tree of composite reporters over the leaf kinds x span sequences x orders in which the components complete '
        'close(); every interleaving of reporting, reading and completing threads; distinct by (tree, order)')
BOUNDS = ('trees with 0-3 leaves (4 thorough), nesting depth 2, 7 leaf kinds; 3 spans; all completion orders; threads with '
          'preemption bound 2 (3 thorough)')

KINDS = ['null', 'mem', 'log', 'real', 'now', 'later', 'loop']


def shapes(n):
    """Trees over leaf numbers: flat, and every grouping of consecutive leaves into one nested composite."""
    flat = tuple(range(n))
    out = [flat]
    for i in range(n):
        for j in range(i + 1, n + 1):
            out.append(flat[:i] + (flat[i:j],) + flat[j:])
    out.append(((),) + flat)
    out.append(flat + ((),))
    return sorted(set(out), key=repr)


class Fake(object):
    """A reporter of the application: records calls; closes when told to."""

    def __init__(self, x, i, calls, kind):
        self.x, self.i, self.calls, self.kind = x, i, calls, kind
        self.future = None
        if kind == 'loop':
            self.io_loop = x.world.io_loop

    def __eq__(self, other):          # reporters are not told apart by what they compare to
        return isinstance(other, Fake)

    def __hash__(self):
        return 1

    def __len__(self):
        return 0

    def report_span(self, span):
        self.calls.append((self.i, 'span', span))

    def set_process(self, service_name, tags, max_length):
        self.calls.append((self.i, 'process', (service_name, dict(tags), max_length)))

    def close(self):
        self.calls.append((self.i, 'close'))
        self.future = asyncio.Future(loop=self.x.world.vloop)
        if self.kind == 'now':
            self.future.set_result(True)
        return self.future


def build(x, kinds, shape, calls):
    from jaeger_client.reporter import CompositeReporter, InMemoryReporter, LoggingReporter, NullReporter
    leaves = {}

    def leaf(i):
        k = kinds[i]
        if k == 'null':
            r = NullReporter()
        elif k == 'mem':
            r = InMemoryReporter()
        elif k == 'log':
            r = LoggingReporter(logging.getLogger('jaeger_tracing.leaf%d' % i) if i % 2 else None)
        elif k == 'real':
            r = reporter(x, queue_capacity=10, batch_size=2, flush_interval=1)
        else:
            r = Fake(x, i, calls, k)
        leaves[i] = r
        return r

    def comp(t):
        return CompositeReporter(*[comp(c) if isinstance(c, tuple) else leaf(c) for c in t])
    return comp(shape), leaves


def tree(x, n):
    shape = x.pick(shapes(n))
    kinds = [x.pick(KINDS if n < 3 else KINDS[1:]) for _ in range(n)]
    x.world.vloop
    calls = []
    comp, leaves = build(x, kinds, shape, calls)
    length = x.pick([1024, 5, 1500]) if n < 3 else 1500
    tr = tracer(x, comp, S.ScriptSampler([True]), tags={'long': 'z' * 2000}, max_tag_value_length=length)
    w = x.world
    w.run_ready()
    order = [i for i in range(n) if isinstance(leaves[i], Fake)]
    x.eq(calls, [(i, 'process', ('svc', dict(tr.tags), length)) for i in order], 'set_process calls')
    del calls[:]
    spans = []
    for k in range(3):
        s = tr.start_span('op%d' % k)
        s.finish()
        spans.append(s)
        x.eq([(i, c, sp.operation_name) for i, c, sp in calls], [(i, 'span', 'op%d' % k) for i in order], 'calls for one span')
        x.check(all(sp is s for _, _, sp in calls), 'another span was handed over')
        del calls[:]
        w.run_ready()
    for i in range(n):
        if kinds[i] == 'mem':
            got = leaves[i].get_spans()
            x.check(len(got) == 3 and all(a is b for a, b in zip(got, spans)), 'in-memory reporter: %r' % (got,))
            got.reverse()
            got.append(None)
            got2 = leaves[i].get_spans()
            x.check(len(got2) == 3 and all(a is b for a, b in zip(got2, spans)), 'in-memory reporter after the caller '
                    'changed the list: %r' % (got2,))
    for k in range(3):
        recs = [nm for nm, lv, msg in w.log.records if 'op%d' % k in msg]
        x.eq(sorted(recs), sorted('jaeger_tracing.leaf%d' % i if i % 2 else 'jaeger_tracing'
                                  for i in range(n) if kinds[i] == 'log'), 'logging reporters: records for op%d' % k)
    n_real = kinds.count('real')
    f = tr.close()
    w.run_ready()
    pending = [i for i in range(n) if kinds[i] in ('later', 'loop')]
    x.eq(sorted(c for c in calls), sorted((i, 'close') for i in order), 'close() calls')
    while pending:
        x.check(not f.done(), 'close() complete before component %r' % pending[0])
        i = x.pick(pending)
        pending.remove(i)
        leaves[i].future.set_result(True)
        w.run_ready()
    w.advance(2)
    x.check(f.done() and f.exception() is None, 'close() never completes: %r %r' % (shape, kinds))
    x.eq(sorted(ops(batches(x))), sorted(['op0', 'op1', 'op2'] * n_real), 'spans sent')
    for b in batches(x):
        x.eq([len(v) for k, t, v in b['tags'] if k == 'long'], [length], 'length of a process tag sent by a component')
    x.check(not [i for i, c, *_ in calls if c != 'close'], 'calls after close')
    x.state((shape, tuple(kinds)))
    x.outcome((shape, tuple(kinds)))


def failing(x, n):
    """Components whose close() fails: the others are still closed, and close() is complete when all of them are."""
    kinds = [x.pick(['now', 'later', 'loop', 'mem', 'real']) for _ in range(n)]
    shape = x.pick(shapes(n)[:3])
    x.world.vloop
    calls = []
    comp, leaves = build(x, kinds, shape, calls)
    tr = tracer(x, comp, S.ScriptSampler([True]))
    w = x.world
    w.run_ready()
    tr.start_span('op').finish()
    fakes = [i for i in range(n) if isinstance(leaves[i], Fake)]
    bad = [i for i in fakes if x.choose(2)]
    for i in bad:
        if kinds[i] == 'now':
            f = asyncio.Future(loop=w.vloop)
            f.set_exception(KeyError('close'))
            leaves[i].close = lambda f=f, i=i: (calls.append((i, 'close')), f)[1]
    del calls[:]
    f = tr.close()
    w.run_ready()
    x.eq(sorted(calls), sorted((i, 'close') for i in fakes), 'close() calls')
    pending = [i for i in fakes if kinds[i] != 'now']
    while pending:
        x.check(not f.done(), 'close() complete before component %r (%s, failing %s)' % (pending[0], kinds, bad))
        i = x.pick(pending)
        pending.remove(i)
        if i in bad:
            leaves[i].future.set_exception(KeyError('close'))
        else:
            leaves[i].future.set_result(True)
        w.run_ready()
    w.advance(2)
    x.check(f.done(), 'close() never completes: %r %r, failing: %r' % (shape, kinds, bad))
    if f.exception() is not None:
        x.check(bad, 'close() fails: %r' % (f.exception(),))
    x.eq(ops(batches(x)), ['op'] * kinds.count('real'), 'spans sent')
    for i in fakes:
        if leaves[i].future is not None and leaves[i].future.done():
            leaves[i].future.exception()
    x.state((shape, tuple(kinds), tuple(bad)))
    x.case()


def real_pending(x, n):
    """close() waits for real reporters whose batches are not sent yet, next to others."""
    kinds = [x.pick(['real', 'mem', 'later']) for _ in range(n)]
    k_spans = x.choose(6)
    w = x.world
    w.vloop
    calls = []
    comp, leaves = build(x, kinds, tuple(range(n)), calls)
    tr = tracer(x, comp, S.ScriptSampler([True]))
    if x.choose(2):
        w.run_ready()
    for k in range(k_spans):
        tr.start_span('op%d' % k).finish()
    f = tr.close() if x.choose(2) else comp.close()
    later = [i for i in range(n) if kinds[i] == 'later']
    n_real = kinds.count('real')

    def sent():
        return sorted(ops(batches(x))) == sorted(['op%d' % k for k in range(k_spans)] * n_real)
    steps = 0
    while w.vloop.ready() or later:
        if later and leaves[later[0]].future is not None and (not w.vloop.ready() or x.choose(2)):
            leaves[later.pop(0)].future.set_result(True)
            continue
        if not w.vloop.ready():
            break
        w.vloop.step()
        if f.done():
            x.check(sent() and not later, 'close() complete too early: %r' % (kinds,))
        steps += 1
    w.advance(2)
    x.check(f.done() and f.exception() is None and sent(), 'close() incomplete: %r' % (kinds,))
    x.outcome((tuple(kinds), k_spans, steps))


def memory_race(x, n, reads):
    """Threads report while another reads: every list is a prefix-closed part of what was reported."""
    from jaeger_client.reporter import InMemoryReporter
    m = InMemoryReporter()
    tr = tracer(x, m, S.ScriptSampler([True]))
    tr.start_span('a0').finish()
    seen = []
    spans = [[tr.start_span('%s%d' % ('ab'[i], k + 1)) for k in range(2)] for i in range(n)]

    def app(i):
        def f():
            for s in spans[i]:
                m.report_span(s)
        return f

    def reader():
        for _ in range(reads):
            got = m.get_spans()
            seen.append([s.operation_name for s in got])
            got.append(None)
    run_threads(x, [app(i) for i in range(n)] + [reader], names=['app%d' % i for i in range(n)] + ['reader'])
    end = [s.operation_name for s in m.get_spans()]
    x.eq(sorted(end), sorted(['a0'] + ['%s%d' % ('ab'[i], k + 1) for i in range(n) for k in range(2)]), 'spans kept')
    for g in seen:
        x.eq(g, end[:len(g)], 'a list read meanwhile is a prefix of the final one')
        x.check('a0' in g, 'a span reported before is missing')
    x.outcome((tuple(end), tuple(map(len, seen))))


def close_race(x, n, nested):
    """Components complete in several loops, each in its own thread."""
    from jaeger_client.reporter import CompositeReporter
    from tornado.platform.asyncio import AsyncIOLoop
    w = x.world
    calls = []
    loops = [VLoop() for _ in range(n)]

    class L(Fake):
        def close(self):
            self.future = asyncio.Future(loop=loops[self.i])
            return self.future
    fakes = [L(x, i, calls, 'later') for i in range(n)]
    comp = CompositeReporter(fakes[0], CompositeReporter(*fakes[1:])) if nested else CompositeReporter(*fakes)
    f = comp.close()
    if f.done():
        x.fail('close() complete at once')
    done = [0]

    def body(i):
        def g():
            fakes[i].future.set_result(True)
            while loops[i].ready():
                loops[i].step()
            done[0] += 1
            if f.done():
                x.check(all(k.future.done() for k in fakes), 'close() complete too early')
        return g
    run_threads(x, [body(i) for i in range(n)])
    for lp in loops + [f.get_loop()]:
        for _ in range(5):
            if isinstance(lp, VLoop) and lp.ready():
                lp.step()
    for lp in loops:
        x.check(not lp.unhandled, 'unhandled: %r' % lp.unhandled)
    x.check(f.done() and f.exception() is None, 'close() never completes')


def two_loops(x, n_spans, where):
    """Two real reporters with their own loops in their own threads, closed through one composite."""
    from jaeger_client.reporter import CompositeReporter, Reporter
    from jaeger_client.local_agent_net import LocalAgentSender
    from tornado.platform.asyncio import AsyncIOLoop
    w = x.world
    lp = [VLoop(), VLoop()]
    io = [AsyncIOLoop(asyncio_loop=l, make_current=False) for l in lp]
    asyncio.set_event_loop(None)
    reps = [Reporter(LocalAgentSender('agent', 5778, 6831 + i, io_loop=io[i]), queue_capacity=10, batch_size=2,
                     flush_interval=1, metrics_factory=w.metrics.factory()) for i in range(2)]
    comp = CompositeReporter(*reps)
    tr = tracer(x, comp, S.ScriptSampler([True]))
    for l in lp:
        l.run_ready()
    for k in range(n_spans):
        tr.start_span('op%d' % k).finish()
    box = []

    def closer():
        f = (tr if where == 'tracer' else comp).close()
        box.append(f)

    def loop(i):
        def g():
            l = lp[i]
            while True:
                if l.ready():
                    l.step()
                    if box and box[0].done():
                        want = ['op%d' % k for k in range(n_spans)]
                        got = {p: [o for b in batches(x, [q for q in w.net.packets if q[1][1] == p])
                                   for o in ops([b])] for p in (6831, 6832)}
                        x.eq(got, {6831: want, 6832: want}, 'sent when close() completed')
                        x.check(box[0].exception() is None, 'close() failed')
                        return
                else:
                    sched.wait_until(lambda: l.ready() or (box and box[0].done()))
                    if not l.ready():
                        return
        return g
    run_threads(x, [closer, loop(0), loop(1)], names=['app', 'loop0', 'loop1'])
    x.check(box[0].done() and box[0].exception() is None, 'close() never completes')
    for l in lp:
        x.check(not l.unhandled, 'unhandled: %r' % l.unhandled)


def pump(x):
    """Many components, deep nesting, many spans: nobody is left out."""
    from jaeger_client.reporter import CompositeReporter, InMemoryReporter
    n = x.pick([1, 7, 8, 9, 10, 11, 16, 17, 32, 33, 40, 100])
    how = x.pick(['flat', 'left', 'right', 'tens'])
    last = x.pick(['first', 'last', 'middle'])
    w = x.world
    w.vloop
    calls = []
    kinds = ['later' if i % 3 else 'now' for i in range(n)]
    fakes = [Fake(x, i, calls, kinds[i]) for i in range(n)]
    mems = [InMemoryReporter() for _ in range(2)]
    if how == 'flat':
        comp = CompositeReporter(mems[0], *(fakes + [mems[1]]))
    elif how == 'tens':
        comp = CompositeReporter(mems[0], *([CompositeReporter(*fakes[i:i + 10]) for i in range(0, n, 10)] + [mems[1]]))
    else:
        comp = CompositeReporter(*mems)
        for f in fakes:
            comp = CompositeReporter(comp, f) if how == 'left' else CompositeReporter(f, comp)
    tr = tracer(x, comp, S.ScriptSampler([True]))
    m = 1100 if n < 12 else 50
    spans = []
    for k in range(m):
        spans.append(tr.start_span('op%d' % k))
        spans[-1].finish()
    for i in range(n):
        got = [c[2] for c in calls if c[0] == i and c[1] == 'span']
        x.check(len(got) == m and all(a is b for a, b in zip(got, spans)), 'component %d of %d (%s) got %d of %d spans' % (i, n, how, len(got), m))
    for mem in mems:
        got = mem.get_spans()
        x.check(len(got) == m and all(a is b for a, b in zip(got, spans)), 'in-memory reporter kept %d of %d spans' % (len(got), m))
    f = tr.close()
    w.run_ready()
    x.eq(sorted(c[0] for c in calls if c[1] == 'close'), list(range(n)), 'components closed')
    order = [i for i in range(n) if kinds[i] == 'later']
    if last == 'first':
        order.reverse()
    elif last == 'middle' and order:
        order.append(order.pop(len(order) // 2))
    for i in order:
        x.check(not f.done(), 'close() complete before component %d of %d' % (i, n))
        fakes[i].future.set_result(True)
        w.run_ready()
    w.advance(1)
    x.check(f.done() and f.exception() is None, 'close() of %d components (%s) never completes' % (n, how))
    x.case(n)
    x.state((n, how, last))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('pump', pump)] + [Scenario('tree-%d' % n, tree, params={'n': n}) for n in range(4 if not t else 5)]
    out += [Scenario('failing-%d' % n, failing, params={'n': n}) for n in (1, 2, 3)]
    out += [Scenario('real-%d' % n, real_pending, params={'n': n}) for n in ((1, 2, 3) if not t else (1, 2, 3, 4))]
    out += [Scenario('memory-%d' % n, memory_race, bound=3 if t else 2, params={'n': n, 'reads': 2}, sched=True) for n in (1, 2)]
    out += [Scenario('close-%d%s' % (n, '-nested' if q else ''), close_race, bound=3 if t else 2,
                     params={'n': n, 'nested': q}, sched=True) for n, q in ((2, False), (3, False), (3, True))]
    out += [Scenario('two-loops-%s-%d' % (wh, k), two_loops, bound=2 if t else 1, params={'n_spans': k, 'where': wh},
                     sched=True) for wh in ('tracer', 'composite') for k in (0, 3)]
    return out
