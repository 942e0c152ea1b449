"""R01: every finished sampled span has exactly one fate, delivered in order, and the counters tell which."""
from mc.lib import *
from mc.rep import Rig
from mc import startspan as S

RULE = ('every sequence of span reports, loop turns, passing time and agent faults; every interleaving of reporting '
        'threads with the reporter thread; distinct by (configuration, history)')
BOUNDS = 'histories of 5 operations (6 thorough) over 6 configurations; 2-3 reporting threads and the loop thread, preemption bound 1 (2)'

CONFIGS = [(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, None), (4, 3, 0), (10, 3, 1)]
OPS_ = ['report', 'loop-report', 'turn', 'run', 'half', 'second', 'fault', 'close']
FAULTS = [OSError(111, 'refused'), RuntimeError('weird')]


def history(x, depth):
    cap, batch, flush = x.pick(CONFIGS)
    r = Rig(x, cap, batch, flush)
    w = x.world
    fault = [None]

    def on_send(data, addr):
        if fault[0] is not None:
            e, fault[0] = fault[0], None
            raise e
    w.net.on_send = on_send
    seq = []
    nf, fut = 0, []
    for _ in range(depth):
        op = x.pick(OPS_)
        seq.append(op)
        if op == 'report':
            r.report()
        elif op == 'loop-report':
            # a callback of the application on the loop finishes a span
            w.io_loop.add_callback(lambda: r.report())
        elif op == 'close':
            if fut:
                return
            fut.append(r.tr.close())
        elif op == 'turn':
            if not w.vloop.ready():
                return                      # same as nothing
            w.vloop.step_one()
        elif op == 'run':
            if not w.vloop.ready():
                return
            w.run_ready()
        elif op == 'half':
            w.advance(0.5)
        elif op == 'second':
            w.advance(1.25)
        else:
            if fault[0] is not None:
                return
            nf += 1
            fault[0] = FAULTS[nf % 2]
        x.state((cap, batch, flush, tuple(seq), r.ok, r.err, r.dropped))
    what = '%s %s' % ((cap, batch, flush), seq)
    fut.append(r.tr.close())
    w.advance(3)
    x.check(all(f.done() for f in fut), '%s: close() incomplete' % what)
    r.account(what=what)
    for n in range(2):
        r.report('late%d' % n)
    w.advance(3)
    x.check(not [n for n in r.received() if n.startswith('late')], '%s: delivered after close()' % what)
    r.account(what=what + ' late')
    x.case()


def threads(x, cap, batch, plan, fault):
    r = Rig(x, cap, batch, 1)
    w = x.world
    if fault:
        left = [1]

        def on_send(data, addr):
            if left[0]:
                left[0] = 0
                raise OSError(105, 'no buffer')
        w.net.on_send = on_send
    done = [0]
    w.run_ready()

    def app(i, n):
        def f():
            for k in range(n):
                s = r.tr.start_span('%s%d' % ('ABC'[i], k))
                r.reported.append(s.operation_name)
                s.finish()
            done[0] += 1
        return f
    run_threads(x, [app(i, n) for i, n in enumerate(plan)] + [loop_body(w, lambda: done[0] == len(plan))],
                names=['ABC'[i] for i in range(len(plan))] + ['loop'])
    f = r.tr.close()
    w.advance(3)
    x.check(f.done(), 'close() incomplete')
    r.account(order=False, what='threads')
    got = r.received()
    for i in range(len(plan)):
        mine = [n for n in got if n[0] == 'ABC'[i]]
        x.eq(mine, sorted(mine), 'order of the spans of one thread in %r' % got)
    x.outcome((tuple(got), r.err, r.dropped))


def pump(x):
    """Long histories: spans with IDs and names of their own or all the same, reported one by one, in bursts, with a fault now and then."""
    cap, batch, flush = x.pick([(100, 10, 1), (2000, 10, 1), (2000, 400, 1), (1, 1, 1), (300, 300, None)])
    rhythm = x.pick(['each', 'burst', 'bursts-37', 'second'])
    ids = x.pick(['own', 'same', 'twins'])
    faults = x.choose(2)
    r = Rig(x, cap, batch, flush)
    w = x.world
    from jaeger_client import SpanContext
    r.tr = tracer(x, r.rep, S.ScriptSampler([True]), one_span_per_rpc=True)
    par = SpanContext(7, 8, 9, 1)
    n, sends = 1100, [0]

    def on_send(data, addr):
        sends[0] += 1
        if faults and sends[0] % 5 == 3:
            raise OSError(105, 'no buffer')
    w.net.on_send = on_send
    held = 0
    for i in range(n):
        name = 'n' if ids == 'twins' else 'n%d' % i
        s = r.tr.start_span(name, child_of=par, tags={'span.kind': 'server'} if ids != 'own' else None)
        s.finish()
        r.reported.append(name)
        if rhythm == 'each' or rhythm == 'bursts-37' and i % 37 == 36:
            w.run_ready()
        elif rhythm == 'second' and i % 10 == 9:
            w.advance(1.25)
    f = r.tr.close()
    w.advance(3)
    what = '%s %s, %s IDs, faults %d' % ((cap, batch, flush), rhythm, ids, faults)
    x.check(f.done(), what + ': close() incomplete')
    if ids == 'twins':
        # they cannot be told apart: as many as were counted
        x.eq(len(r.received()), r.ok, what + ': spans counted as delivered')
        x.eq(r.ok + r.err + r.dropped, n, what + ': fates (ok %d, err %d, dropped %d)' % (r.ok, r.err, r.dropped))
    else:
        r.account(what=what)
    if rhythm in ('each', 'second') and cap > 10 or cap == 2000:
        x.eq(r.dropped, 0, what + ': dropped')
    if not faults:
        x.eq(r.err, 0, what + ': failed')
    x.case(n)
    x.state((cap, batch, rhythm, ids, faults))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('history', history, params={'depth': 6 if t else 5})]
    plans = [(2, 1, (2, 1), 0), (1, 1, (1, 1), 0), (10, 2, (2, 1), 1)]
    if t:
        plans += [(3, 3, (1, 1, 1), 0), (2, 2, (2, 2), 1)]
    for cap, batch, plan, fault in plans:
        out.append(Scenario('threads-%d-%d-%s-%d' % (cap, batch, plan, fault), threads,
                            bound=2 if t and plan == (1, 1) else 1,
                            params={'cap': cap, 'batch': batch, 'plan': plan, 'fault': fault}, sched=True))
    return out + [Scenario('pump', pump)]
