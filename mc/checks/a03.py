"""A03: a finished span is reported exactly once iff it is sampled, whoever finishes it and how."""
from mc.lib import *
from mc import startspan as S

RULE = ('every sequence of operations on one span and every interleaving of threads finishing it; '
        'distinct by (start, operations, model state)')
BOUNDS = 'sequences of <= 4 operations (5 thorough) from 6 starts; 2-3 threads, preemption bound 2 (3 thorough)'

STARTS = ['root', 'unsampled', 'child', 'debug', 'explicit-start', 'priority-tag']
OPS_ = ['finish', 'finish-at', 'finish-before', 'with', 'with-raise', 'scope', 'scope-keep', 'prio0', 'prio1', 'tag', 'log',
        'baggage', 'name']


def start(x, tr, samp, how):
    from jaeger_client import SpanContext
    if how == 'unsampled':
        samp.answers = [False]
        return tr.start_span('op', ignore_active_span=True), False
    if how == 'child':
        return tr.start_span('op', child_of=SpanContext(5, 6, 7, 1)), True
    if how == 'debug':
        return tr.start_span('op', child_of=SpanContext(5, 6, 7, 3)), True
    if how == 'explicit-start':
        return tr.start_span('op', start_time=123.5), True
    if how == 'priority-tag':
        samp.answers = [False]
        return tr.start_span('op', tags={'sampling.priority': 1}), True
    return tr.start_span('op'), True


def sequence(x, depth):
    rep = S.RecordingReporter()
    samp = S.ScriptSampler([True])
    tr = tracer(x, rep, samp)
    how = x.pick(STARTS)
    span, sampled = start(x, tr, samp, how)
    reported, end = 0, None
    begin = span.start_time
    warns = 0
    seq = []
    for _ in range(depth):
        op = x.pick(OPS_)
        seq.append(op)
        env.clock.advance(0.25)
        now = env.clock.wall()
        fin = None
        if op == 'finish':
            span.finish()
            fin = now
        elif op == 'finish-at':
            span.finish(finish_time=begin + 7.0)
            fin = begin + 7.0
        elif op == 'finish-before':
            span.finish(begin - 3)
            fin = begin - 3
        elif op == 'with':
            with span:
                env.clock.advance(1)
            fin = now + 1
        elif op == 'with-raise':
            try:
                with span:
                    raise KeyError('boom')
            except KeyError:
                pass
            else:
                x.fail('an exception inside a with block disappeared')
            fin = now
        elif op == 'scope':
            sc = tr.scope_manager.activate(span, True)
            x.check(tr.active_span is span, 'activated span is not active')
            sc.close()
            fin = now
        elif op == 'scope-keep':
            with tr.scope_manager.activate(span, False):
                pass
        elif op == 'prio0':
            span.set_tag('sampling.priority', 0)
            sampled = False
        elif op == 'prio1':
            span.set_tag('sampling.priority', 1)
            sampled = True
        elif op == 'tag':
            span.set_tag('k', 'v')
        elif op == 'log':
            span.log_kv({'e': 1})
        elif op == 'baggage':
            span.set_baggage_item('b', 'c')
        elif op == 'name':
            span.set_operation_name('op2')
        if fin is not None and sampled:
            if not reported:
                reported, end = 1, fin
            else:
                warns += 1
        x.check(tr.active_span is None, 'a span stays active after %s' % op)
        x.eq(len(rep.spans), reported, '%s then %s: number of reports' % (how, seq))
        x.eq(x.world.metrics.get('jaeger:finished_spans'), reported, '%s then %s: finished counter' % (how, seq))
        if reported:
            x.check(rep.spans[0] is span, 'another span was reported')
            x.check(abs(span.end_time - end) < 1e-6, '%s then %s: end time %r, expected %r'
                    % (how, seq, span.end_time, end))
        x.check(abs(span.start_time - begin) < 1e-9, 'start time changed')
        x.state((how, tuple(seq), sampled, reported))
    x.eq(sum(1 for r in x.world.log.records if r[1] == 'WARNING'), warns, 'warnings about repeated finish')
    x.case()


def wire(x, depth):
    """Over the real reporter: the agent receives the span once, complete with its end time."""
    rep = reporter(x)
    tr = tracer(x, rep)
    spans = [tr.start_span('s%d' % i) for i in range(2)]
    done, seq = [], []
    for _ in range(depth):
        i = x.choose(2)
        op = x.pick(['finish', 'with', 'unsample', 'resample', 'run', 'active'])
        seq.append((op, i))
        if op == 'finish':
            spans[i].finish()
        elif op == 'with':
            with spans[i]:
                pass
        elif op == 'active':
            with tr.scope_manager.activate(spans[i], True):
                tr.start_span('x', ignore_active_span=False)
        elif op == 'unsample':
            spans[i].set_tag('sampling.priority', 0)
        elif op == 'resample':
            spans[i].set_tag('sampling.priority', 1)
        else:
            x.world.advance(2)
        if op in ('finish', 'with', 'active') and spans[i].is_sampled() and i not in done:
            done.append(i)
    f = tr.close()
    x.world.advance(5)
    x.check(f.done(), 'close() not complete')
    x.eq(ops(batches(x)), ['s%d' % i for i in done], 'spans received for %s' % seq)
    x.state(tuple(seq))
    x.case()


def reporters(x, depth):
    """A reporter that uses the span it is given, or fails: each span is still handed over once."""
    what = x.pick(['raise', 'raise-once', 'finish', 'unsample', 'force', 'rename', 'child', 'with', 'deactivate', 'thread'])
    how = x.pick(['root', 'child', 'debug', 'priority-tag'])
    got, seq = [], []
    box = {}

    class Rep(S.RecordingReporter):
        def report_span(self, sp):
            if sp is not box['span']:
                return
            got.append((sp.end_time, sp.is_sampled()))
            if what == 'raise' or what == 'raise-once' and len(got) == 1:
                raise KeyError('reporter')
            elif what == 'finish':
                sp.finish()
            elif what == 'unsample':
                sp.set_tag('sampling.priority', 0)
            elif what == 'force':
                sp.set_tag('sampling.priority', 1)
            elif what == 'rename':
                sp.set_operation_name('renamed').set_tag('late', 1).log_kv({'late': 1})
            elif what == 'child':
                tr.start_span('c', child_of=sp).finish()
            elif what == 'with':
                with sp:
                    pass
            elif what == 'deactivate':
                sp.set_baggage_item('late', 'x')
            elif what == 'thread':
                t = threading.Thread(target=sp.finish)
                t.start()
                t.join()
    import threading
    samp = S.ScriptSampler([True])
    tr = tracer(x, Rep(), samp)
    span, _ = start(x, tr, samp, how)
    box['span'] = span
    end = None
    sampled = True
    for _ in range(depth):
        op = x.pick(['finish', 'finish-at', 'with', 'scope', 'prio1'])
        seq.append(op)
        env.clock.advance(0.25)
        at = env.clock.wall()
        try:
            if op == 'finish':
                span.finish()
            elif op == 'finish-at':
                at = span.start_time + 5.0
                span.finish(at)
            elif op == 'with':
                with span:
                    pass
            elif op == 'scope':
                tr.scope_manager.activate(span, True).close()
            else:
                span.set_tag('sampling.priority', 1)
        except KeyError:
            x.check(what.startswith('raise'), 'an error of nobody')
        if op != 'prio1' and end is None:
            end = at
        w = '%s, reporter: %s, then %s' % (how, what, seq)
        x.eq(len(got), int(end is not None), '%s: spans handed to the reporter' % w)
        if got:
            x.check(got[0][1] and abs(got[0][0] - end) < 1e-6, '%s: finish time %r, expected %r' % (w, got[0][0], end))
            x.check(abs(span.end_time - end) < 1e-6, '%s: finish time changed to %r' % (w, span.end_time))
            if not what.startswith('raise'):
                n = 2 if what == 'child' else 1
                x.eq(x.world.metrics.get('jaeger:finished_spans'), n, '%s: finished counter' % w)
        x.state((how, what, tuple(seq)))
    x.case()


def interleave(x, bodies, final, via):
    """Threads finishing one span, some of them changing its sampling at the same time."""
    samp = S.ScriptSampler([True])
    if via == 'wire':
        rep = reporter(x)
    else:
        rep = S.RecordingReporter()
    tr = tracer(x, rep, samp)
    span = tr.start_span('op')
    if 'start-unsampled' in bodies:
        samp.answers = [False]
        span = tr.start_span('op', ignore_active_span=True)
    fns = {'finish': lambda: span.finish(), 'finish-at': lambda: span.finish(span.start_time + 3),
           'with': lambda: span.__exit__(None, None, None),
           'prio0': lambda: span.set_tag('sampling.priority', 0),
           'prio1': lambda: span.set_tag('sampling.priority', 1),
           'tag': lambda: span.set_tag('k', 'v'),
           'log': lambda: span.log_kv({'a': 1}),
           'baggage': lambda: span.set_baggage_item('b', 'v'),
           'scope': lambda: tr.scope_manager.activate(span, True).close(),
           'child': lambda: tr.start_span('child', child_of=span).finish()}
    run_threads(x, [fns[b] for b in bodies if b in fns])
    if final == 'finish':
        span.finish()
    if via == 'wire':
        f = tr.close()
        x.world.advance(5)
        n = sum(1 for o in ops(batches(x)) if o == 'op')
    else:
        n = sum(1 for s in rep.spans if s is span)
    lo = 0 if ('prio0' in bodies or 'start-unsampled' in bodies) else 1
    x.check(lo <= n <= 1, 'threads %s: the span was reported %d times' % (bodies, n))
    if final == 'finish' and 'prio0' not in bodies and ('prio1' in bodies or 'start-unsampled' not in bodies):
        x.eq(n, 1, 'threads %s, then finish: reports' % (bodies,))
    x.eq(x.world.metrics.get('jaeger:finished_spans') - sum(1 for b in bodies if b == 'child'
         and not ('prio0' in bodies or 'start-unsampled' in bodies)), n, 'finished counter') \
        if 'child' not in bodies else None
    if n:
        x.check(span.end_time is not None and span.end_time >= span.start_time, 'reported without end time')
    x.outcome(n)


def pump(x):
    """Many spans, with the same IDs and names or not, finished once or twice in several orders."""
    ids, order, via = x.pick(['own', 'same']), x.pick(['at-once', 'fifo', 'lifo', 'twice']), x.pick(['rec', 'wire'])
    n = 1100
    rep = reporter(x, queue_capacity=n, batch_size=10) if via == 'wire' else S.RecordingReporter()
    tr = tracer(x, rep, one_span_per_rpc=ids == 'same')
    from jaeger_client import SpanContext
    par = SpanContext(7, 8, 9, 1)
    want, open_ = [], []
    for i in range(n):
        s = tr.start_span('s%d' % i if ids == 'own' else 's', child_of=par, tags={'span.kind': 'server', 'i': i})
        if order in ('at-once', 'twice'):
            s.finish(1000.0 + i)
            if order == 'twice':
                s.finish(5.0)
            want.append(i)
        open_.append((i, s))
    if order in ('fifo', 'lifo'):
        for i, s in open_ if order == 'fifo' else reversed(open_):
            s.finish(1000.0 + i)
            want.append(i)
    if via == 'wire':
        tr.close()
        x.world.advance(5)
        got = [([v for k, _, v in s['tags'] if k == 'i'][0], (s['start'] + s['duration']) / 1e6) for b in batches(x) for s in b['spans']]
        got = [(i, round(t)) for i, t in got]
    else:
        got = [(dict(tags_of(s))['i'], s.end_time) for s in rep.spans]
    x.eq(len(got), n, '%s IDs, finished %s, via %s: spans reported' % (ids, order, via))
    x.eq(got, [(i, 1000.0 + i) for i in want], '%s IDs, finished %s, via %s: spans and finish times' % (ids, order, via))
    x.case(n)
    x.state((ids, order, via))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('sequence', sequence, params={'depth': 5 if t else 4}),
           Scenario('wire', wire, params={'depth': 5 if t else 4})]
    sets = [('finish', 'finish'), ('finish', 'finish-at'), ('finish', 'with'), ('finish', 'prio0'),
            ('finish', 'prio1'), ('finish', 'tag'), ('finish', 'baggage'), ('finish', 'log'),
            ('scope', 'finish'), ('scope', 'scope'), ('start-unsampled', 'prio1', 'finish')]
    for s in sets:
        out.append(Scenario('2t-' + '+'.join(s), interleave, bound=3 if t else 2,
                            params={'bodies': s, 'final': 'finish', 'via': 'rec'}, sched=True))
    for s in [('finish', 'finish', 'finish'), ('finish', 'with', 'prio0'), ('finish', 'finish', 'prio1')]:
        out.append(Scenario('3t-' + '+'.join(s), interleave, bound=2,
                            params={'bodies': s, 'final': 'none' if 'prio0' in s else 'finish', 'via': 'rec'},
                            sched=True))
    out.append(Scenario('2t-wire', interleave, bound=2 if t else 1,
                        params={'bodies': ('finish', 'finish'), 'final': 'finish', 'via': 'wire'}, sched=True))
    return out + [Scenario('pump', pump), Scenario('reporters', reporters, params={'depth': 4 if t else 3})]
