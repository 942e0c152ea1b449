"""A05: baggage follows the trace downwards, never sideways or upwards, and contexts are immutable."""
from mc.lib import *
from mc import startspan as S

RULE = ('every history of baggage writes, span starts, context captures and cross-process hops; '
        'distinct by the baggage of all spans and captured contexts')
BOUNDS = 'histories of <= 4 operations (5 thorough) over <= 4 spans and 3 processes; writers in 2 threads at bound 2'


def history(x, depth, sampled, flags=None):
    from opentracing import Format, child_of, follows_from
    rep = S.RecordingReporter()
    trs = [tracer(x, rep, S.ScriptSampler([sampled]), service_name='s%d' % i) for i in range(2)]
    if flags is None:
        root = trs[0].start_span('root')
    else:
        # a trace started elsewhere, with flags this library does not know
        from jaeger_client import SpanContext
        root = trs[0].start_span('root', child_of=SpanContext(7, 8, 9, flags))
    ids = {}
    spans = [[root, {}, []]]          # span, model baggage, model baggage logs
    caught = []                       # (context, model baggage)
    vals = ['v', 'w']
    for d in range(depth):
        op = x.pick(['set-k', 'set-k2', 'set-j', 'unset-k', 'unset-j', 'set-empty', 'capture', 'child', 'child-captured', 'ref',
                     'active', 'http', 'text', 'binary', 'finish'])
        i = x.choose(len(spans)) if op in ('set-k', 'set-j', 'unset-k', 'child', 'capture') else len(spans) - 1
        s, m, logs = spans[i]
        if op.startswith('set-') or op.startswith('unset'):
            k = 'j' if op.endswith('j') else 'k'
            v = None if op.startswith('unset') else ('' if op == 'set-empty' else 'w' if op == 'set-k2' else 'v%d' % d)
            r = s.set_baggage_item(k, v)
            x.check(r is s, 'set_baggage_item does not return the span')
            logs.append((k, str(v), 'true' if m.get(k) else None))
            m = dict(m)
            if v is None:
                m.pop(k, None)
            else:
                m[k] = v
            spans[i][1] = m
        elif op == 'finish':
            if s.finished:
                return
            s.finish()     # later writes are still visible and recorded
        elif op == 'capture':
            caught.append((s.context, dict(m)))
        else:
            t = trs[(d + 1) % 2]
            src = dict(m)
            if op == 'child':
                n = t.start_span('c', child_of=s)
            elif op == 'child-captured':
                if not caught:
                    return
                n = t.start_span('c', child_of=caught[-1][0])
                src = dict(caught[-1][1])
            elif op == 'ref':
                n = t.start_span('c', references=[follows_from(s.context), child_of(root.context)])
            elif op == 'active':
                with t.scope_manager.activate(s, False):
                    n = t.start_span('c')
            else:
                fmt = {'http': Format.HTTP_HEADERS, 'text': Format.TEXT_MAP, 'binary': Format.BINARY}[op]
                car = bytearray() if op == 'binary' else {}
                trs[0].inject(s.context, fmt, car)
                before = dict(car) if op != 'binary' else bytes(car)
                n = t.start_span('c', child_of=t.extract(fmt, car))
                x.check((dict(car) if op != 'binary' else bytes(car)) == before, 'extract changed the carrier')
            if len(spans) >= 4:
                return
            spans.append([n, src, []])
        x.note('%s on %d' % (op, i))
        for j, (sp, want, _) in enumerate(spans):
            x.eq(dict(sp.context.baggage), want, 'baggage of span %d' % j)
            for k in ('k', 'j', 'K', 'k ', 'absent', ''):
                x.eq(sp.get_baggage_item(k), want.get(k), 'item %r of span %d' % (k, j))
            x.eq((sp.trace_id, sp.is_sampled(), sp.flags), (root.trace_id, sampled, int(sampled) if flags is None else flags),
                 'identity of span %d' % j)
            x.eq((sp.span_id, sp.parent_id), ids.setdefault(j, (sp.span_id, sp.parent_id)), 'ids of span %d' % j)
        for c, want in caught:
            x.eq(dict(c.baggage), want, 'baggage of a captured context')
        x.state((tuple(repr(m) for _, m, _ in spans), tuple(repr(m) for _, m in caught)))
    for j, (sp, _, logs) in enumerate(spans):
        got = []
        for l in sp.logs:
            dct = {t.key: tag_value(t) for t in l.fields}
            got.append((dct.get('key'), dct.get('value'), dct.get('override')))
            x.eq(dct.get('event'), 'baggage', 'event name of the baggage log')
        x.eq(got, logs if sampled else [], 'baggage logs of span %d' % j)
    x.case()


def mixed(x):
    """Values of every shape survive a write, a child and each carrier format unchanged."""
    from opentracing import Format
    tr = tracer(x, S.RecordingReporter())
    KEYS = ['k', 'with-dash', 'with_under', 'k.1', '0', 'x' * 300]
    VALS = ['', 'v', ' lead', 'trail ', 'a,b=c;d', '100%', '%41', 'a+b', 'é', '漢字', '\U0001F47E', 'a\nb', '"q"',
            'x' * 2000, '0', 'null', ':', '/', '~', '\x7f', '\x00']
    k = x.pick(KEYS)
    v = x.pick(VALS)
    other = x.choose(2)
    s = tr.start_span('op')
    if other:
        s.set_baggage_item('other', 'o')
    s.set_baggage_item(k, v)
    want = {'other': 'o', k: v} if other else {k: v}
    for q in ('K', 'with_dash', 'WITH-DASH', 'with-under', 'OTHER', k + ' ', ' ' + k, k[:-1], k + '0', k[:255]):
        if q not in want:
            x.eq(s.get_baggage_item(q), None, 'item %r, only %r is set' % (q, sorted(want)))
    x.eq(dict(s.context.baggage), want, 'baggage')
    x.eq(dict(tr.start_span('c', child_of=s).context.baggage), want, 'baggage of the child')
    for fmt in (Format.HTTP_HEADERS, Format.TEXT_MAP, Format.BINARY):
        car = bytearray() if fmt == Format.BINARY else {}
        tr.inject(s.context, fmt, car)
        x.eq(dict(tr.extract(fmt, car).baggage), want, 'baggage through %s' % fmt)
    s.set_baggage_item(k, None)
    x.eq(s.get_baggage_item(k), None, 'removed item')
    x.state((k, v, other))
    x.case()


def roots(x):
    """Baggage of contexts without a trace reaches the new root; unrelated roots share nothing."""
    from jaeger_client import SpanContext
    tr = tracer(x, S.RecordingReporter())
    kind = x.pick(['baggage-only', 'debug-id'])
    src = {'a': '1', 'b': '2'}
    ctx = SpanContext(None, None, None, None, dict(src), 'd' if kind == 'debug-id' else None)
    s1 = tr.start_span('r1', child_of=ctx)
    x.eq(dict(s1.context.baggage), src, 'baggage of the root')
    s1.set_baggage_item('a', 'changed')
    s1.set_baggage_item('c', '3')
    s2 = tr.start_span('r2', child_of=ctx)
    x.eq(dict(s2.context.baggage), src, 'baggage of another root from the same context')
    x.eq(dict(ctx.baggage), src, 'baggage of the parent context')
    s3 = tr.start_span('r3')
    x.eq(dict(s3.context.baggage), {}, 'baggage of an unrelated root')
    s3.set_baggage_item('z', '1')
    x.eq(dict(tr.start_span('r4').context.baggage), {}, 'baggage of an unrelated root')
    x.eq(s2.get_baggage_item('z'), None, 'item of an unrelated root')
    c2 = s3.context.with_baggage_item('q', 'r')
    x.eq((dict(c2.baggage), dict(s3.context.baggage)), ({'z': '1', 'q': 'r'}, {'z': '1'}), 'derived context')
    x.state(kind)
    x.case()


def starts(x):
    """However a span is started: the baggage of its parent, in a dictionary of its own."""
    cfg = x.pick([c for c in S.CONFIGS if not c['bits128']])
    cn = x.pick(S.CHILD_OF)
    for c in S.cases(x, cfg, [cn], S.REFS, ['none', 'server', 'plain'], ['op']):
        x.eq(dict(c.span.context.baggage), c.baggage, '%s: baggage' % c.name)
        c.span.set_baggage_item('mine', 'm')
        c.span.set_baggage_item('rb', None)
        want = dict(c.baggage, mine='m')
        want.pop('rb', None)
        x.eq(dict(c.span.context.baggage), want, '%s: baggage after a change' % c.name)
        src = c.kwargs['child_of']
        if src is not None:
            src = getattr(src, 'context', src)
            x.check('mine' not in src.baggage, '%s: baggage of child_of changed' % c.name)
        x.eq(dict(c.tr.start_span('again', child_of=c.span).context.baggage), want, '%s: baggage of a child' % c.name)
        if c.root:
            fresh = c.tr.start_span('fresh', ignore_active_span=True)
            x.eq(dict(fresh.context.baggage), {}, '%s: baggage of an unrelated root' % c.name)
        x.state((cn, c.root, tuple(sorted(c.baggage.items()))))


def concurrent(x):
    """Children started while baggage is written see a state the writer produced."""
    tr = tracer(x, S.RecordingReporter())
    p = tr.start_span('p')
    p.set_baggage_item('k', '0')
    kids = []

    def w():
        p.set_baggage_item('k', '1')
        p.set_baggage_item('j', '1')
        p.set_baggage_item('k', None)

    def c():
        kids.append(tr.start_span('c', child_of=p))
        kids.append(tr.start_span('c', child_of=p.context))
    run_threads(x, [w, c])
    states = [{'k': '0'}, {'k': '1'}, {'k': '1', 'j': '1'}, {'j': '1'}]
    last = 0
    for k in kids:
        b = dict(k.context.baggage)
        x.check(b in states and states.index(b) >= last, 'a child has baggage %r' % b)
        last = states.index(b)
    x.eq(dict(p.context.baggage), {'j': '1'}, 'baggage of the parent')
    x.outcome(tuple(states.index(dict(k.context.baggage)) for k in kids))


def racing(x, n, had):
    """Threads that set the same item: one change comes first, the others replace what is there."""
    tr = tracer(x, S.RecordingReporter())
    p = tr.start_span('p')
    if had:
        p.set_baggage_item('k', 'old')
    del p.logs[:]
    vals = ['v%d' % i for i in range(n)]
    run_threads(x, [lambda v=v: p.set_baggage_item('k', v) for v in vals])
    final = dict(p.context.baggage)
    x.check(list(final) == ['k'] and final['k'] in vals, 'baggage %r' % final)
    logs = [{f.key: f.vStr for f in l.fields} for l in p.logs]
    x.eq(sorted(l.get('value') for l in logs), vals, 'values logged')
    first = [l['value'] for l in logs if 'override' not in l]
    if had:
        x.eq(first, [], 'changes logged as if they replaced nothing')
    else:
        x.check(len(first) == 1 and (n == 1 or first[0] != final['k']),
                'changes logged as if they replaced nothing: %r, the item is %r in the end' % (first, final['k']))
    for l in logs:
        x.eq({k: v for k, v in l.items() if k != 'value'}, dict({'event': 'baggage', 'key': 'k'}, **({} if l['value'] in first else {'override': 'true'})), 'log')
    x.outcome((tuple(first), final['k']))


def pump(x):
    """Much baggage: many items, long keys and values, many changes of one."""
    from opentracing import Format
    kind = x.pick(['many', 'long-value', 'long-key', 'changes', 'set-unset'])
    sampled = bool(x.choose(2))
    rep = S.RecordingReporter()
    tr = tracer(x, rep, S.ScriptSampler([sampled]))
    s = tr.start_span('op')
    want = {}
    n = 300
    for i in range(n):
        k = 'k%d' % i if kind in ('many', 'set-unset') else 'k'
        v = 'v%d' % i
        if kind == 'long-value':
            v = 'x' * (i * 397)
        elif kind == 'long-key':
            k = 'k' * (1 + i * 11)
        x.check(s.set_baggage_item(k, v) is s, 'set_baggage_item does not return the span')
        want[k] = v
        if kind == 'set-unset' and i % 2:
            s.set_baggage_item('k%d' % (i - 1), None)
            del want['k%d' % (i - 1)]
        x.eq(s.get_baggage_item(k), v, '%s, item %d' % (kind, i))
    x.eq(dict(s.context.baggage), want, '%s: baggage' % kind)
    c = tr.start_span('c', child_of=s)
    x.eq(dict(c.context.baggage), want, '%s: baggage of a child' % kind)
    for fmt in (Format.HTTP_HEADERS, Format.TEXT_MAP, Format.BINARY):
        car = bytearray() if fmt == Format.BINARY else {}
        tr.inject(s.context, fmt, car)
        x.eq(dict(tr.extract(fmt, car).baggage), want, '%s: baggage through %s' % (kind, fmt))
    x.eq(len(s.logs), (n + (n // 2 if kind == 'set-unset' else 0)) if sampled else 0, '%s: logs' % kind)
    for k in list(want):
        c.set_baggage_item(k, None)
    x.eq((dict(c.context.baggage), dict(s.context.baggage)), ({}, want), '%s: baggage of child and parent' % kind)
    x.case(n)
    x.state((kind, sampled))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('history', history, params={'depth': 5 if t else 4, 'sampled': True}),
           Scenario('history-unsampled', history, params={'depth': 4 if t else 3, 'sampled': False}),
           Scenario('history-flags', history, params={'depth': 3 if t else 2, 'sampled': True, 'flags': 0xED}),
           Scenario('history-flags-unsampled', history, params={'depth': 3 if t else 2, 'sampled': False, 'flags': 0x78}),
           Scenario('values', mixed), Scenario('roots', roots), Scenario('starts', starts),
           Scenario('concurrent', concurrent, bound=2 if t else 1, sched=True)]
    out += [Scenario('racing-%d-%s' % (n, had), racing, bound=(2 if t else 1) if n == 3 or had else 2, params={'n': n, 'had': had}, sched=True)
            for n in (2, 3) for had in (False, True)]
    return out + [Scenario('pump', pump)]
