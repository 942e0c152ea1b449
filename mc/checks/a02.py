"""A02: one sampling decision per trace, made by the root's sampler, inherited everywhere."""
from mc.lib import *
from mc import startspan as S

RULE = ('every combination of start_span arguments x tracer configuration x sampler answer, and every '
        'trace of spans over several tracers up to the depth; distinct by (arguments, decision)')
BOUNDS = 'one start_span per product case; traces of depth <= 4 over 3 tracers with disagreeing samplers; 2 threads, preemption bound 1 (2 thorough)'


def judge(x, c):
    sp = c.span
    x.eq(len(c.samp.asked), len(c.asks), '%s: number of sampling decisions' % c.name)
    for (tid, op), want in zip(c.samp.asked, c.asks):
        x.eq((tid, op), (sp.trace_id, want), '%s: what the sampler was asked' % c.name)
    if c.thr is not None:
        x.eq(len(c.thr.asked), c.throttle_asks, '%s: throttler consultations' % c.name)
    x.eq(sp.context.flags, c.flags, '%s: flags' % c.name)
    x.eq((sp.is_sampled(), sp.is_debug()), (bool(c.flags & 1), bool(c.flags & 2)), '%s: accessors' % c.name)
    got = sorted(map(repr, tags_of(sp)))
    want = sorted(map(repr, c.tags.items())) if c.flags & 1 else []
    x.eq(got, want, '%s: tags on the span' % c.name)


def product(x, opname):
    cfg = x.pick(S.CONFIGS)
    cn = x.pick(S.CHILD_OF)
    for c in S.cases(x, cfg, [cn], S.REFS, S.TAGS, [opname]):
        judge(x, c)
        x.state(c.name)
    x.note('%s: %d cases with child_of=%s' % (cfg, x.cases, cn))


def trace(x, depth):
    """A trace over three services whose samplers disagree is reported completely or not at all."""
    from opentracing import Format, follows_from
    from jaeger_client.codecs import B3Codec, ZipkinSpanFormat
    rep = S.RecordingReporter()
    samps = [S.ScriptSampler([x.pick([True, False])], {'sampler.type': 's0'}),
             S.ScriptSampler([True], {'sampler.type': 's1'}),
             S.ScriptSampler([False], {'sampler.type': 's2'})]
    trs = [tracer(x, rep, s, service_name='s%d' % i, one_span_per_rpc=(i == 1),
                  extra_codecs={'b3': B3Codec(generate_128bit_trace_id=(i == 2))})
           for i, s in enumerate(samps)]
    root = trs[0].start_span('root')
    dec = samps[0].answers[0]
    x.eq([len(s.asked) for s in samps], [1, 0, 0], 'consultations for the root')
    spans = [root]
    for d in range(depth):
        t = trs[x.choose(3)]
        p = spans[x.choose(len(spans))] if d < 2 else spans[-1]
        how = x.pick(['child', 'ref', 'active', 'http', 'text', 'binary', 'b3', 'zipkin', 'server'])
        kw = {}
        if how == 'child':
            sp = t.start_span('c', child_of=p)
        elif how == 'server':
            sp = t.start_span('c', child_of=p.context, tags={'span.kind': 'server'})
        elif how == 'ref':
            sp = t.start_span('c', references=follows_from(p.context))
        elif how == 'active':
            with t.scope_manager.activate(p, False):
                sp = t.start_span('c')
        else:
            fmt = {'http': Format.HTTP_HEADERS, 'text': Format.TEXT_MAP, 'binary': Format.BINARY,
                   'b3': 'b3', 'zipkin': ZipkinSpanFormat}[how]
            car = bytearray() if how == 'binary' else {}
            p.tracer.inject(p.context, fmt, car)
            sp = t.start_span('c', child_of=t.extract(fmt, car))
        x.note('%s from %s' % (how, spans.index(p)))
        x.eq([len(s.asked) for s in samps], [1, 0, 0], 'sampler consulted again for a started trace (%s)' % how)
        x.eq((sp.trace_id, sp.is_sampled()), (root.trace_id, dec), 'decision inherited (%s)' % how)
        x.check(not any(k.startswith('sampler.') for k, _ in tags_of(sp)), 'sampler tags on a child (%s)' % how)
        spans.append(sp)
        x.state((dec, tuple(spans.index(q) for q in spans), how))
    for s in spans:
        s.finish()
    x.eq(len(rep.spans), len(spans) if dec else 0, 'spans of the trace reported')
    x.case()


def real_samplers(x):
    """The tags of the deciding sampler are on the root of every sampled trace, and nowhere else."""
    from jaeger_client import ConstSampler, ProbabilisticSampler, RateLimitingSampler
    from jaeger_client.sampler import (GuaranteedThroughputProbabilisticSampler, AdaptiveSampler,
                                       RemoteControlledSampler)
    kind = x.pick(['const1', 'const0', 'prob1', 'prob0', 'probhalf', 'rate5', 'rate0', 'guar', 'adaptive',
                   'adaptive-default', 'remote'])
    env.rand.float_hook = lambda: 0.999999
    idv = x.pick([1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1])
    mk = {
        'const1': lambda: (ConstSampler(True), True, ('const', True)),
        'const0': lambda: (ConstSampler(False), False, None),
        'prob1': lambda: (ProbabilisticSampler(1.0), True, ('probabilistic', 1.0)),
        'prob0': lambda: (ProbabilisticSampler(0.0), False, None),
        'probhalf': lambda: (ProbabilisticSampler(0.5), idv < 1 << 63, ('probabilistic', 0.5)),
        'rate5': lambda: (RateLimitingSampler(5), True, ('ratelimiting', 5)),
        'rate0': lambda: (RateLimitingSampler(0), False, None),
        'guar': lambda: (GuaranteedThroughputProbabilisticSampler('op', 3, 0.5), True,
                         ('probabilistic', 0.5) if idv < 1 << 63 else ('lowerbound', 0.5)),
        'adaptive': lambda: (AdaptiveSampler({'defaultSamplingProbability': 0.0,
                                              'defaultLowerBoundTracesPerSecond': 3,
                                              'perOperationStrategies': [
                                                  {'operation': 'op', 'probabilisticSampling': {'samplingRate': 0.5}}]},
                                             10), True,
                             ('probabilistic', 0.5) if idv < 1 << 63 else ('lowerbound', 0.5)),
        'adaptive-default': lambda: (AdaptiveSampler({'defaultSamplingProbability': 1.0,
                                                      'perOperationStrategies': []}, 0), True,
                                     ('probabilistic', 1.0)),
        'remote': lambda: (RemoteControlledSampler(sender(x), 'svc', init_sampler=ConstSampler(True)), True,
                           ('const', True)),
    }[kind]
    s, dec, tg = mk()
    rep = reporter(x)
    tr = tracer(x, rep, s)
    env.rand.bits_hook = lambda k: idv & ((1 << k) - 1) or 1
    root = tr.start_span('op')
    env.rand.bits_hook = None
    ch = tr.start_span('child', child_of=root)
    x.eq((root.is_sampled(), ch.is_sampled()), (dec, dec), '%s: decision' % kind)
    ch.finish()
    root.finish()
    x.world.run_ready()
    tr.close()
    x.world.advance(5)
    got = {s['operation']: dict((k, v) for k, _, v in s['tags']) for b in batches(x) for s in b['spans']}
    if not dec:
        x.eq(got, {}, '%s: reported although not sampled' % kind)
    else:
        x.eq(got, {'child': {}, 'op': {'sampler.type': tg[0], 'sampler.param': tg[1]}}, '%s: reported tags' % kind)
    x.state((kind, idv, dec))
    x.case()


def shared_tags(x):
    """Starting spans never lets the decision or tags of one trace leak into another."""
    from jaeger_client import ProbabilisticSampler
    rep = S.RecordingReporter()
    tr = tracer(x, rep, ProbabilisticSampler(0.5))
    seq = [x.choose(2) for _ in range(4)]
    spans = []
    for i, b in enumerate(seq):
        env.rand.bits_hook = lambda k, b=b, i=i: ((1 << 63) if b else 0) + 5 + i
        spans.append(tr.start_span('op%d' % i, tags={'i': i}))
        spans[-1].set_tag('extra', i)
    for i, (b, s) in enumerate(zip(seq, spans)):
        want = [] if b else [('i', i), ('sampler.type', 'probabilistic'), ('sampler.param', 0.5), ('extra', i)]
        x.eq((s.is_sampled(), sorted(tags_of(s))), (not b, sorted(want)), 'trace %d of %s' % (i, seq))
    x.state(tuple(seq))
    x.case()


class OwnDict(S.ScriptSampler):
    """A sampler that, like the ones of the library, returns one and the same dict of tags every time."""

    def is_sampled(self, trace_id, operation=''):
        S.ScriptSampler.is_sampled(self, trace_id, operation)
        return trace_id & 1 == 1, self.tags


OPS = ['op', ' op', 'op ', '\top\n', 'OP', 'Op', '/a/b?c=d#e', 'a b', '0', 'None', 'o' * 5000, 'caf\u00e9', 'cafe\u0301', '\u0130', '\x00', '{}', '%s', '\U0001F600', 'op\u200b',
       'service.op', 'a::b', '/users/123', '-', '"op"', '']


def names(x):
    """The sampler is asked about exactly the operation that was named, whatever the name and however the trace is started."""
    from opentracing import Format
    from jaeger_client import SpanContext
    yes = bool(x.choose(2))
    how = x.pick(['start', 'active', 'tags', 'baggage', 'ignore', 'server'])
    samp = S.ScriptSampler([yes], {'sampler.type': 's0'})
    tr = tracer(x, S.RecordingReporter(), samp)
    for i, op in enumerate(OPS):
        if how == 'start':
            s = tr.start_span(op)
        elif how == 'active':
            s = tr.start_active_span(op).span
        elif how == 'tags':
            s = tr.start_span(operation_name=op, tags={'http.method': 'GET', 'operation': 'other'})
        elif how == 'server':
            s = tr.start_span(op, tags={'span.kind': 'server'})
        elif how == 'baggage':
            s = tr.start_span(op, child_of=tr.extract(Format.TEXT_MAP, {'uberctx-k': 'v'}))
        else:
            with tr.start_active_span('outer'):
                s = tr.start_span(op, ignore_active_span=True)
        x.eq(samp.asked[-1], (s.trace_id, op), '%s: what the sampler was asked' % how)
        x.eq((s.operation_name, s.flags), (op, int(yes)), '%s: name and flags' % how)
        x.case()
        if how == 'active':
            tr.scope_manager.active.close()
    x.eq(len(samp.asked), len(OPS) * (2 if how == 'ignore' else 1), '%s: questions to the sampler' % how)
    x.state((how, yes))


def leaks(x):
    """Whatever tags the spans of one trace get, every other root has its own and the sampler's."""
    from jaeger_client import ConstSampler, ProbabilisticSampler, RateLimitingSampler
    from jaeger_client.sampler import GuaranteedThroughputProbabilisticSampler, AdaptiveSampler
    kind = x.pick(['own', 'const', 'prob', 'rate', 'guar', 'adaptive'])
    mk = {'own': lambda: OwnDict([True]), 'const': lambda: ConstSampler(True), 'prob': lambda: ProbabilisticSampler(1.0),
          'rate': lambda: RateLimitingSampler(100), 'guar': lambda: GuaranteedThroughputProbabilisticSampler('op', 3, 1.0),
          'adaptive': lambda: AdaptiveSampler({'defaultSamplingProbability': 1.0, 'perOperationStrategies': []}, 2)}
    stags = {'own': [('sampler.type', 'script'), ('sampler.param', 0.25)],
             'const': [('sampler.type', 'const'), ('sampler.param', True)],
             'rate': [('sampler.type', 'ratelimiting'), ('sampler.param', 100)]}.get(
                 kind, [('sampler.type', 'probabilistic'), ('sampler.param', 1.0)])
    n = [1]

    def bits(k):
        n[0] += 2
        return n[0]
    env.rand.bits_hook = bits
    samp = mk[kind]()
    trs = [tracer(x, S.RecordingReporter(), samp, service_name='s%d' % i) for i in range(2)]
    given = [None, {}, {'a': 1}, {'b': 'two', 'c': True}, {'span.kind': 'server'}, {'sampler.type': 'mine'}]
    live, seq = [], []
    for i in range(3):
        g = x.choose(len(given))
        late = x.choose(2)
        tags = dict(given[g]) if given[g] is not None else None
        seq.append((g, late))
        sp = trs[i % 2].start_span('op', tags=tags)
        want = list((given[g] or {}).items())
        ch = trs[i % 2].start_span('child', child_of=sp, tags=dict(given[g] or {}))
        if late:
            sp.set_tag('late', i)
            ch.set_tag('late', i)
        tail = [('late', i)] if late else []
        want = [kv for kv in want if kv[0] != 'sampler.type'] + stags if any(k == 'sampler.type' for k, _ in want) else want + stags
        live.append((sp, want + tail))
        live.append((ch, list((given[g] or {}).items()) + tail))
        for s, w in live:
            x.eq(sorted(map(repr, tags_of(s))), sorted(map(repr, w)), '%s: tags of %s after %s' % (kind, s.operation_name, seq))
        if kind == 'own':
            x.eq(samp.tags, dict(stags), 'the tags of the sampler itself after %s' % seq)
        x.state((kind, tuple(seq)))
    x.case()


def concurrent(x):
    """Roots started at the same time: one decision each, for its own trace id."""
    samp = S.ScriptSampler([True])
    samp.is_sampled = lambda tid, op='': (samp.asked.append((tid, op)), (bool(tid & 1), dict(samp.tags)))[1]
    n = [0]

    def bits(k):
        n[0] += 1
        return n[0]
    env.rand.bits_hook = bits
    tr = tracer(x, S.RecordingReporter(), samp)
    got = []

    def body(name):
        sp = tr.start_span(name, ignore_active_span=True)
        ch = tr.start_span(name + 'c', child_of=sp)
        got.append((sp, ch))
    run_threads(x, [lambda: body('a'), lambda: body('b')])
    x.eq(len(samp.asked), 2, 'decisions for two traces')
    for sp, ch in got:
        x.check((sp.trace_id, sp.operation_name) in samp.asked, 'decision for another trace')
        x.eq((sp.is_sampled(), ch.is_sampled()), (bool(sp.trace_id & 1),) * 2, 'decision of the trace')
    x.outcome(tuple(sp.is_sampled() for sp, _ in got))


def pump(x):
    """Long chains and many roots: the sampler is asked once per trace, however many there were before."""
    yes = bool(x.choose(2))
    how = x.pick(['chain', 'roots', 'both'])
    samp = S.ScriptSampler([yes])
    tr = tracer(x, S.RecordingReporter(), samp)
    asked, last = [], None
    for i in range(1100):
        if how == 'roots' or last is None or how == 'both' and i % 100 == 0:
            last = tr.start_span('r%d' % i)
            asked.append((last.trace_id, 'r%d' % i))
            x.eq(dict(tags_of(last)), dict(samp.tags) if yes else {}, 'tags of root %d' % i)
        else:
            last = tr.start_span('c', child_of=last)
            x.eq(tags_of(last), [], 'tags of descendant %d' % i)
        x.eq((last.flags, samp.asked[-2:]), (int(yes), asked[-2:]), '%s, span %d: flags and what the sampler was asked' % (how, i))
        last.finish()
    x.eq(samp.asked, asked, '%s: questions to the sampler' % how)
    x.case(1100)
    x.state((how, yes))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('product-%s' % n, product, params={'opname': o})
           for n, o in (('op', 'op'), ('none', None), ('empty', ''))[:3 if t else 2]]
    out += [Scenario('trace', trace, params={'depth': 4 if t else 3}),
            Scenario('real_samplers', real_samplers), Scenario('shared_tags', shared_tags),
            Scenario('leaks', leaks), Scenario('names', names),
            Scenario('concurrent', concurrent, bound=2 if t else 1, sched=True)]
    return out + [Scenario('pump', pump)]
