"""M01: the tracer's counters say exactly what happened."""
from mc.lib import *
from mc import startspan as S

RULE = 'every start_span argument combination and every history of starts and finishes; distinct by counter vector'
BOUNDS = 'full argument product; histories of <= 5 operations; 2 threads, preemption bound 1 (2 thorough)'

KEYS = {'jaeger:traces|sampled=y|state=started', 'jaeger:traces|sampled=n|state=started',
        'jaeger:traces|sampled=y|state=joined', 'jaeger:traces|sampled=n|state=joined',
        'jaeger:started_spans|sampled=y', 'jaeger:started_spans|sampled=n', 'jaeger:finished_spans'}


def expected_start(sampled, root, server):
    y = 'y' if sampled else 'n'
    out = {'jaeger:started_spans|sampled=%s' % y: 1}
    if root:
        out['jaeger:traces|sampled=%s|state=%s' % (y, 'joined' if server else 'started')] = 1
    return out


def mine(x):
    return {k: v for k, v in x.world.metrics.counters.items() if k in KEYS and v}


def product(x):
    cfg = x.pick(S.CONFIGS)
    cn = x.pick(S.CHILD_OF)
    for c in S.cases(x, cfg, [cn], S.REFS, S.TAGS, ['op']):
        x.eq(mine(x), expected_start(bool(c.flags & 1), not c.parent_id, c.server),
             '%s: counters after one start' % c.name)
        c.span.finish()
        want = expected_start(bool(c.flags & 1), not c.parent_id, c.server)
        if c.flags & 1:
            want['jaeger:finished_spans'] = 1
        x.eq(mine(x), want, '%s: counters after finish' % c.name)
        x.state((c.flags, c.root, c.server, bool(c.parent_id)))


def kinds(x):
    """Only span.kind = server joins a trace."""
    cfg = x.pick([c for c in S.CONFIGS if not c['bits128']])
    for c in S.cases(x, cfg, ['none', 'remote-sampled', 'debug-id'], ['none'], ['kind:%d' % i for i in range(len(S.KINDS))] + ['server'], ['op']):
        x.eq(mine(x), expected_start(bool(c.flags & 1), not c.parent_id, c.server), '%s: counters after one start' % c.name)
        x.state((c.flags, c.root, c.server, bool(c.parent_id)))


def history(x, depth):
    """Counters equal the sums over the history; finished counts every reported span once."""
    import collections
    rep = S.RecordingReporter()
    samp = S.ScriptSampler([True])
    tr = tracer(x, rep, samp, one_span_per_rpc=True)
    spans, want = [], collections.Counter()
    for _ in range(depth):
        op = x.pick(['root', 'root-n', 'server', 'child', 'child-server', 'finish', 'finish-first', 'prio0', 'prio1'])
        if op in ('root', 'root-n', 'server'):
            samp.answers = [op != 'root-n']
            tags = {'span.kind': 'server'} if op == 'server' else None
            spans.append([tr.start_span(op, tags=tags), False, op != 'root-n'])
            want.update(expected_start(op != 'root-n', True, op == 'server'))
        elif not spans:
            return
        elif op.startswith('child'):
            p = spans[-1]
            tags = {'span.kind': 'server'} if op == 'child-server' else None
            sp = tr.start_span(op, child_of=p[0], tags=tags)
            spans.append([sp, False, p[2]])
            want.update(expected_start(p[2], not (p[0].parent_id if tags else p[0].span_id), bool(tags)))
        elif op.startswith('prio'):
            spans[-1][0].set_tag('sampling.priority', int(op[-1]))
            spans[-1][2] = op[-1] == '1'
        else:
            s = spans[0 if op == 'finish-first' else -1]
            s[0].finish()
            if s[2] and not s[1]:
                s[1] = True
                want['jaeger:finished_spans'] += 1
        x.note(op)
        x.eq(mine(x), {k: v for k, v in want.items() if v}, 'counters after %s' % op)
        x.state(tuple(sorted(want.items())))
    x.eq(len(rep.spans), want['jaeger:finished_spans'], 'finished spans counter equals the reported spans')
    x.case()


def legacy(x):
    """The deprecated metrics argument receives the same counts."""
    from jaeger_client.metrics import Metrics
    from jaeger_client import Tracer
    seen = {}
    style = x.pick(['metrics', 'factory-legacy'])

    def count(k, v):
        seen[k] = seen.get(k, 0) + v
    from jaeger_client.metrics import LegacyMetricsFactory
    kw = {'metrics': Metrics(count=count)} if style == 'metrics' else \
        {'metrics_factory': LegacyMetricsFactory(Metrics(count=count))}
    samp = S.ScriptSampler([x.pick([True, False])])
    tr = Tracer('svc', S.RecordingReporter(), samp, **kw)
    r = tr.start_span('a')
    tr.start_span('b', child_of=r).finish()
    tr.start_span('c', tags={'span.kind': 'server'}).finish()
    y = samp.answers[0]
    n = 'y' if y else 'n'
    want = {'jaeger:started_spans.sampled_%s' % n: 3, 'jaeger:traces.sampled_%s.state_started' % n: 1,
            'jaeger:traces.sampled_%s.state_joined' % n: 1}
    if y:
        want['jaeger:finished_spans'] = 2
    x.eq(seen, want, 'legacy counters')
    x.state((style, y))
    x.case()


def concurrent(x):
    samp = S.ScriptSampler([True])
    rep = S.RecordingReporter()
    tr = tracer(x, rep, samp)
    shared = tr.start_span('shared')

    def body():
        s = tr.start_span('r', ignore_active_span=True)
        tr.start_span('c', child_of=s).finish()
        shared.finish()
        s.finish()
    run_threads(x, [body, body])
    x.eq(mine(x), {'jaeger:started_spans|sampled=y': 5, 'jaeger:traces|sampled=y|state=started': 3,
                   'jaeger:finished_spans': 5}, 'counters')
    x.eq(len(rep.spans), 5, 'reports')
    x.outcome(len(x.world.log.records))


def reporters(x):
    """What a reporter does to the span it is given, or the application before and after, does not change the counts."""
    cfg = x.pick([c for c in S.CONFIGS if not c['bits128']])
    what = x.pick(['unsample', 'force', 'finish', 'kind', 'rename', 'child'])
    cn = x.pick(['none', 'remote-sampled', 'debug-id'])
    for c in S.cases(x, cfg, [cn], ['none'], ['none', 'server', 'plain'], ['op']):
        inner = []

        def hook(sp, report=c.rep.report_span):
            report(sp)
            if sp is not c.span:
                return
            if what == 'unsample':
                sp.set_tag('sampling.priority', 0)
            elif what == 'force':
                sp.set_tag('sampling.priority', 1)
            elif what == 'finish':
                sp.finish()
            elif what == 'kind':
                sp.set_tag('span.kind', 'server')
            elif what == 'rename':
                sp.set_operation_name('x')
            else:
                inner.append(c.tr.start_span('inner', child_of=sp))
        c.rep.report_span = hook
        c.span.finish()
        c.span.finish()
        want = expected_start(bool(c.flags & 1), not c.parent_id, c.server)
        if c.flags & 1:
            want['jaeger:finished_spans'] = 1
        if inner:
            want['jaeger:started_spans|sampled=y'] += 1
        x.eq(mine(x), want, '%s, reporter: %s: counters' % (c.name, what))
        x.state((c.flags, c.root, c.server, what))


def pump(x):
    """The counters after very many spans."""
    import collections
    rep = S.RecordingReporter()
    samp = S.ScriptSampler([bool(x.choose(2))])
    tr = tracer(x, rep, samp)
    kind = x.pick(['root', 'server', 'child', 'mixed'])
    want = collections.Counter()
    y = samp.answers[0]
    par = tr.start_span('p')
    want.update(expected_start(y, True, False))
    for i in range(1100):
        k = ('root', 'server', 'child')[i % 3] if kind == 'mixed' else kind
        s = tr.start_span('s', child_of=par if k == 'child' else None, tags={'span.kind': 'server'} if k == 'server' else None)
        want.update(expected_start(y, k != 'child', k == 'server'))
        s.finish()
        if y:
            want['jaeger:finished_spans'] += 1
        x.eq(mine(x), dict(want), '%s: counters after %d spans' % (kind, i + 1))
    x.case(1100)
    x.state((kind, y))


def scenarios(tier):
    t = tier == 'thorough'
    return [Scenario('pump', pump)] + [Scenario('product', product), Scenario('kinds', kinds), Scenario('history', history, params={'depth': 6 if t else 5}),
            Scenario('legacy', legacy), Scenario('reporters', reporters),
            Scenario('concurrent', concurrent, bound=2 if t else 1, sched=True)]
