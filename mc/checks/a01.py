"""A01: a new span continues exactly the right trace, with fresh ids, from any combination of inputs."""
from mc.lib import *
from mc import startspan as S

RULE = ('every combination of child_of kind x references x tags x operation name x active span x '
        'tracer configuration; a case is distinct by its (arguments, model verdict)')
BOUNDS = 'one start_span per case (full product of the argument alphabet), trees of depth <= 4; 200 roots and children for the width of IDs'


def fresh(x, c, i, kind):
    """No ID is ever used a second time, however it is made."""
    seen = x.__dict__.setdefault('ids_seen', set())
    x.check((kind, i) not in seen and ('span', i) not in seen and i not in (c.parent or {}).values(),
            '%s: %s id %x is not new' % (c.name, kind, i))
    seen.add((kind, i))


def judge(x, c):
    sp = c.span
    ctx = sp.context
    if c.root:
        x.check(ctx.parent_id is None, '%s: a new trace has parent %s' % (c.name, ctx.parent_id))
        got = (ctx.trace_id, ctx.span_id)
        fresh(x, c, ctx.trace_id, 'trace')
        fresh(x, c, ctx.span_id, 'span')
        x.check(0 < ctx.trace_id < 1 << c.bits, '%s: trace id %x does not fit %d bits'
                % (c.name, ctx.trace_id, c.bits))
        x.check(0 < ctx.span_id < 1 << 64, '%s: span id' % c.name)
        x.check(ctx.trace_id != ctx.span_id, '%s: trace id reused as span id' % c.name)
    else:
        x.eq(ctx.trace_id, c.trace_id, '%s: trace id' % c.name)
        x.eq(ctx.parent_id or None, c.parent_id or None, '%s: parent id' % c.name)
        if c.span_id is not None:
            x.eq(ctx.span_id, c.span_id, '%s: span id shared by both ends of the RPC' % c.name)
        else:
            x.check(0 < ctx.span_id < 1 << 64, '%s: span id %x' % (c.name, ctx.span_id))
            fresh(x, c, ctx.span_id, 'span')
            x.check(ctx.span_id != c.parent['span'], '%s: child reuses the parent span id' % c.name)
    x.eq((sp.trace_id, sp.span_id, sp.parent_id), (ctx.trace_id, ctx.span_id, ctx.parent_id),
         '%s: span accessors' % c.name)
    x.eq(dict(ctx.baggage), c.baggage, '%s: baggage' % c.name)
    x.eq(sp.operation_name, c.operation, '%s: operation name' % c.name)


def product(x, opname):
    x.ids_seen = set()
    cfg = x.pick(S.CONFIGS)
    cn = x.pick(S.CHILD_OF)
    for c in S.cases(x, cfg, [cn], S.REFS, S.TAGS, [opname]):
        judge(x, c)
        x.state(c.name)
    x.note('%s: %d cases with child_of=%s' % (cfg, x.cases, cn))


def product_active(x):
    """start_active_span takes the same arguments with the same meaning, and activates what it started."""
    x.ids_seen = set()
    cfg = x.pick([c for c in S.CONFIGS if not c['bits128'] and c['throttle'] is None])
    cn = x.pick(S.CHILD_OF)
    finish = bool(x.choose(2))
    for c in S.cases(x, cfg, [cn], S.REFS, ['none', 'server', 'plain'], ['op', None], finish=finish):
        judge(x, c)
        x.check(c.tr.active_span is c.span and c.tr.scope_manager.active is c.scope, '%s: not active' % c.name)
        n = len(c.rep.spans)
        c.scope.close()
        x.check(c.tr.scope_manager.active is c.before, '%s: scope not restored' % c.name)
        done = [c.span] if finish and c.span.is_sampled() else []
        x.eq([id(s) for s in c.rep.spans[n:]], [id(s) for s in done], '%s: reported when the scope closed' % c.name)
        c.span.finish()
        x.eq(len(c.rep.spans) - n, 1 if c.span.is_sampled() else 0, '%s: reported once finished' % c.name)
        x.state(c.name)


def width(x):
    """Every bit of the IDs of roots and children is random, and no ID follows from another."""
    wide = bool(x.choose(2))
    child = bool(x.choose(2))
    debug = x.choose(2)
    from jaeger_client import SpanContext
    bits = 128 if wide else 64
    tr = tracer(x, S.RecordingReporter(), generate_128bit_trace_id=wide)
    n = 200
    traces, spans = [], []
    for i in range(n):
        sp = tr.start_span('s', child_of=SpanContext.with_debug_id('d') if debug else None)
        if child:
            kid = tr.start_span('s', child_of=sp)
            x.eq(kid.trace_id, sp.trace_id, 'trace ID')
            spans.append(kid.span_id)
        traces.append(sp.trace_id)
        spans.append(sp.span_id)
    for what, ids, width in (('trace', traces, bits), ('span', spans, 64)):
        x.check(0 < min(ids) and max(ids) < 1 << width, '%s IDs out of range' % what)
        x.eq(len(set(ids)), len(ids), '%s IDs are different' % what)
        ones = [sum(i >> k & 1 for i in ids) for k in range(width)]
        x.check(all(len(ids) // 4 < c < len(ids) * 3 // 4 for c in ones),
                'bits of %d-bit %s IDs that are hardly random: %r' % (width, what, ones))
    parts = [t & M64 for t in traces] + [t >> 64 for t in traces if wide] + spans
    x.eq(len(set(parts)), len(parts), '64-bit parts of the IDs are different')
    x.check(len(set(a ^ b for a, b in zip(spans, spans[1:]))) > n / 2
            and len(set((a - b) & M64 for a, b in zip(traces, spans[::2 if child else 1]))) > n / 2, 'IDs depend on each other')
    x.case()


def seeds(x):
    """Tracers made at different times or in different processes make different IDs."""
    import os
    env.rand.own = True
    t0 = 1.5e9
    real = os.getpid
    made = []
    try:
        for dt in (0.0, 0.001, 0.5, 1.0, 60.0, 3600.0, 86400.0 * 365):
            for pid in (1, 2, 100, 101, 4711, 32768):
                env.clock.offset = t0 + dt - env.clock.mono
                os.getpid = lambda: pid
                tr = tracer(x, S.RecordingReporter(), generate_128bit_trace_id=bool(x.choose(2)) if not made else False)
                made.append([tr.start_span('s').trace_id for _ in range(8)])
    finally:
        os.getpid = real
        env.rand.own = False
    ids = [i for m in made for i in m]
    x.eq(len(set(ids)), len(ids), 'IDs of all tracers are different')
    x.case()


M64 = (1 << 64) - 1


def tree(x, depth):
    """Chains of spans across three processes: ids stay unique, lineage is exact, on the wire too."""
    from opentracing import Format
    w = x.world
    rep = S.RecordingReporter()
    trs = [tracer(x, rep, service_name='s%d' % i, generate_128bit_trace_id=bool(i % 2)) for i in range(3)]
    nodes = []      # (span, model)
    seq = [100]

    def bits(k):
        seq[0] += 1
        return (seq[0] << (k - 16)) | seq[0]
    env.rand.bits_hook = bits
    for d in range(depth):
        t = trs[x.choose(3)]
        how = x.pick(['root', 'child_of-last', 'ctx-first', 'follows-last', 'http', 'text', 'binary'])
        if not nodes:
            if how != 'root':
                return
        if how == 'root':
            sp = t.start_span('n%d' % d)
            m = dict(trace=sp.trace_id, span=sp.span_id, parent=None)
            x.check(all(m['trace'] != o['trace'] for _, o in nodes), 'a new trace reuses a trace id')
        else:
            psp, pm = nodes[0] if how == 'ctx-first' else nodes[-1]
            if how == 'child_of-last':
                sp = t.start_span('n%d' % d, child_of=psp)
            elif how == 'ctx-first':
                sp = t.start_span('n%d' % d, child_of=psp.context)
            elif how == 'follows-last':
                from opentracing import follows_from
                sp = t.start_span('n%d' % d, references=[follows_from(psp.context)])
            else:
                fmt = {'http': Format.HTTP_HEADERS, 'text': Format.TEXT_MAP, 'binary': Format.BINARY}[how]
                car = bytearray() if how == 'binary' else {}
                psp.tracer.inject(psp.context, fmt, car)
                sp = t.start_span('n%d' % d, child_of=t.extract(fmt, car))
            m = dict(trace=pm['trace'], span=sp.span_id, parent=pm['span'])
        x.eq((sp.trace_id, sp.parent_id), (m['trace'], m['parent']), 'lineage of node %d (%s)' % (d, how))
        x.check(all(m['span'] != o['span'] for _, o in nodes), 'span id used twice')
        nodes.append((sp, m))
        x.state(tuple((o['trace'], o['parent']) for _, o in nodes))
    x.case()


def concurrent_start(x, n):
    """Threads starting spans on one tracer never receive the same id or another thread's parent."""
    tr = tracer(x, S.RecordingReporter())
    seq = [0]

    def bits(k):
        seq[0] += 1
        return seq[0]
    env.rand.bits_hook = bits
    parent = tr.start_span('p')
    parent.set_baggage_item('k', 'v')
    got = []

    def root():
        got.append(('root', tr.start_span('r', ignore_active_span=True)))

    def child():
        with tr.start_active_span('c', child_of=parent) as sc:
            got.append(('child', sc.span))
            got.append(('grand', tr.start_span('g'), sc.span))
    run_threads(x, [root, child, child][:n])
    ids = [g[1].span_id for g in got] + [parent.span_id]
    x.check(len(set(ids)) == len(ids), 'span ids repeat: %s' % ids)
    for g in got:
        if g[0] == 'root':
            x.check(g[1].parent_id is None and g[1].trace_id != parent.trace_id, 'root has a parent')
        elif g[0] == 'child':
            x.eq((g[1].trace_id, g[1].parent_id), (parent.trace_id, parent.span_id), 'child lineage')
        else:
            x.eq((g[1].trace_id, g[1].parent_id), (parent.trace_id, g[2].span_id), 'grandchild lineage')
        if g[0] != 'root':
            x.eq(dict(g[1].context.baggage), {'k': 'v'}, 'baggage of %s' % g[0])
    x.outcome(tuple(g[0] for g in got))


def pump(x):
    """Long chains and large families of spans: every one has an ID of its own and the lineage of its kind."""
    from opentracing import Format, follows_from
    how = x.pick(['child_of', 'context', 'reference', 'active', 'http', 'binary', 'family', 'roots', 'server', 'one-span-per-rpc'])
    tr = tracer(x, S.RecordingReporter(), S.ScriptSampler([False]), one_span_per_rpc=how == 'one-span-per-rpc', generate_128bit_trace_id=how == 'roots')
    n = 3000 if how in ('family', 'roots') else 300
    root = last = tr.start_span('root')
    root.set_baggage_item('k', 'v')
    last = root
    seen, traces, scopes = {root.span_id}, {root.trace_id}, []
    for i in range(n):
        par, kw = last, {}
        if how == 'active':
            scopes.append(tr.scope_manager.activate(last, False))
        elif how == 'reference':
            kw['references'] = [follows_from(last.context)]
        elif how in ('http', 'binary'):
            fmt = Format.HTTP_HEADERS if how == 'http' else Format.BINARY
            car = {} if how == 'http' else bytearray()
            tr.inject(last.context, fmt, car)
            kw['child_of'] = tr.extract(fmt, car)
        elif how == 'family':
            par = root
            kw['child_of'] = root
        elif how != 'roots':
            kw['child_of'] = last if how == 'child_of' else last.context
        if how in ('server', 'one-span-per-rpc'):
            kw['tags'] = {'span.kind': 'server'}
        s = tr.start_span('s', **kw)
        what = '%s, span %d' % (how, i)
        if how == 'roots':
            x.check(s.parent_id is None and s.trace_id not in traces, what + ': not the root of a new trace')
            traces.add(s.trace_id)
        elif how == 'one-span-per-rpc':
            x.eq((s.trace_id, s.span_id, s.parent_id), (root.trace_id, root.span_id, root.parent_id), what)
            seen.discard(s.span_id)
        else:
            x.eq((s.trace_id, s.parent_id), (root.trace_id, par.span_id), what)
        x.check(s.span_id not in seen, what + ': the span ID was used before')
        seen.add(s.span_id)
        if how != 'roots':
            x.eq(dict(s.context.baggage), {'k': 'v'}, what + ': baggage')
        last = s
    for sc in reversed(scopes):
        sc.close()
    x.case(n)
    x.state(how)


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('product-%s' % n, product, params={'opname': o})
           for n, o in ((('op', 'op'), ('none', None), ('empty', '')) if t else (('op', 'op'), ('none', None)))]
    out.append(Scenario('product_active', product_active))
    out.append(Scenario('width', width))
    out.append(Scenario('seeds', seeds))
    out.append(Scenario('tree', tree, params={'depth': 4 if t else 3}))
    out.append(Scenario('concurrent2', concurrent_start, bound=3 if t else 2, params={'n': 2}, sched=True))
    if t:
        out.append(Scenario('concurrent3', concurrent_start, bound=2, params={'n': 3}, sched=True))
    return out + [Scenario('pump', pump)]
