"""A06: forcing a trace on or off (sampling.priority, debug ids) follows the protocol exactly."""
from mc.lib import *
from mc import startspan as S

RULE = ('every sequence of sampling.priority values, other updates and children, for every throttler answer '
        'script; distinct by (start, operations, answers, flags)')
BOUNDS = 'sequences of 2 operations (4 thorough) from 7 starts x 5 throttler scripts, of 4 (5) over a smaller alphabet; 2-3 threads, preemption bound 1-2 (2-3)'

PRIO = [0, 1, True, False, 5, -1, 1.0, '1', 'abc', None, [], float('nan'), float('inf')]


class Throttle(object):
    def __init__(self, script):
        self.script, self.asked = list(script), []

    def set_client_id(self, c):
        pass

    def is_allowed(self, op):
        self.asked.append(op)
        return self.script[min(len(self.asked) - 1, len(self.script) - 1)]

    def close(self):
        pass


def as_int(v):
    try:
        return int(v)
    except (TypeError, ValueError, OverflowError):
        return None


def machine(x, depth, small=False):
    from jaeger_client import SpanContext
    script = x.pick([None, (True, False), (False, True)] if small else [None, (True,), (False,), (True, False), (False, True)])
    thr = Throttle(script) if script is not None else None
    samp = S.ScriptSampler([True])
    rep = reporter(x)
    tr = tracer(x, rep, samp, throttler=thr)
    asked = []

    def allowed(op):
        if thr is None:
            return True
        asked.append(op)
        return script[min(len(asked) - 1, len(script) - 1)]
    how = x.pick(['sampled', 'unsampled', 'remote-debug'] if small else
                 ['sampled', 'unsampled', 'remote-debug', 'debug-id', 'tag1', 'tag0', 'flag8'])
    flags, tags = 1, []
    ST = [('sampler.type', 'script'), ('sampler.param', 0.25)]
    kw = {}
    if how == 'unsampled':
        samp.answers = [False]
        flags = 0
    elif how == 'sampled':
        tags = list(ST)
    elif how == 'remote-debug':
        kw['child_of'] = SpanContext(9, 8, 7, 3)
        flags = 3
    elif how == 'flag8':
        kw['child_of'] = SpanContext(9, 8, 7, 9)
        flags = 9
    elif how == 'debug-id':
        kw['child_of'] = SpanContext.with_debug_id('dbg')
        if allowed('op'):
            flags, tags = 3, [('jaeger-debug-id', 'dbg')]
        else:
            flags = 0
    elif how in ('tag1', 'tag0'):
        kw['tags'] = {'sampling.priority': int(how[-1]), 'z': 1}
        if how == 'tag1':
            if allowed('op'):
                flags = 3
                tags = [('sampling.priority', 1)]
            tags = tags + [('z', 1)] + ST
        else:
            flags = 0
    span = tr.start_span('op', **kw)
    spans = [[span, flags, tags, 'op']]
    seq = [how]

    def verify(what):
        for j, (s, f, tg, _) in enumerate(spans):
            x.eq(s.context.flags, f, '%s: flags of span %d' % (seq, j))
            x.eq((s.is_sampled(), s.is_debug(), s.flags), (bool(f & 1), bool(f & 2), f), '%s: accessors' % seq)
            x.eq(tags_of(s), tg, '%s: tags of span %d' % (seq, j))
        if thr is not None:
            x.eq(thr.asked, asked, '%s: operations the throttler was asked about' % seq)
    verify('start')
    for _ in range(depth):
        op = x.pick(['prio', 'prio-first', 'child', 'tag', 'rename', 'baggage'])
        cur = spans[0 if op == 'prio-first' else -1]
        s, f, tg, name = cur
        if op.startswith('prio'):
            v = x.pick([0, 1, 'abc'] if small else PRIO[:6] if len(seq) > 2 else PRIO)
            seq.append('prio=%r' % (v,))
            s.set_tag('sampling.priority', v)
            if f & 2 and v:
                pass                                   # already debug
            else:
                n = as_int(v)
                if n is None:
                    pass
                elif n == 0:
                    cur[1] = f & ~3
                elif allowed(name):
                    cur[1] = f | 3
                    cur[2] = tg + [('sampling.priority', v)]
        elif op == 'child':
            if len(spans) == 3:
                return
            seq.append('child')
            spans.append([tr.start_span('c', child_of=s), f, [], 'c'])
        elif op == 'tag':
            seq.append('tag')
            s.set_tag('a', 'b')
            if f & 1:
                cur[2] = tg + [('a', 'b')]
        elif op == 'rename':
            seq.append('rename')
            s.set_operation_name('op2')
            cur[3] = 'op2'
        else:
            seq.append('baggage')
            s.set_baggage_item('b', 'v')
        verify(op)
        x.state((script, tuple(seq), tuple(q[1] for q in spans)))
    want = []
    for s, f, tg, name in spans:
        s.finish()
        if f & 1:
            want.append((name, f, [(k, v) for k, v in tg]))
    tr.close()
    x.world.advance(5)
    got = [(s['operation'], s['flags'], [(k, v) for k, _, v in s['tags']]) for b in batches(x) for s in b['spans']]
    x.eq(got, want, '%s: spans reported' % seq)
    x.case()


def debug_carrier(x):
    """A debug id in a carrier starts one debug trace, tagged with the id; throttled ids force nothing."""
    from opentracing import Format
    fmt = x.pick([Format.HTTP_HEADERS, Format.TEXT_MAP])
    custom = x.choose(2)
    allow = x.pick([None, True, False])
    extra = x.pick(['none', 'baggage', 'trace', 'corrupt-ids'])
    did = x.pick(['abc', 'a b', '%41', 'x' * 100, 'é'])
    sampled = x.choose(2)
    thr = None if allow is None else Throttle((allow,))
    samp = S.ScriptSampler([bool(sampled)])
    kw = {'debug_id_header': 'My-Debug_Id'} if custom else {}
    rep = S.RecordingReporter()
    tr = tracer(x, rep, samp, throttler=thr, **kw)
    hdr = 'my-debug-id' if custom else 'jaeger-debug-id'
    import urllib.parse
    car = {hdr.upper() if x.choose(2) else hdr: urllib.parse.quote(did) if fmt == Format.HTTP_HEADERS else did}
    if extra == 'baggage':
        car['uberctx-k'] = 'v'
    elif extra == 'trace':
        car['uber-trace-id'] = 'a:b:0:0'
    elif extra == 'corrupt-ids':
        car['other'] = 'x'
    ctx = tr.extract(fmt, car)
    x.eq(ctx.debug_id, did, 'debug id extracted')
    from opentracing import child_of, follows_from
    via = x.pick(['child_of', 'reference', 'references'] if did == 'abc' else ['child_of'])
    name = x.pick(['op', '', None]) if did == 'abc' else 'op'
    key = kw.get('debug_id_header', 'jaeger-debug-id')
    given = x.pick([None, {'k': 'v'}, {key: 'other'}, {'k': 'v', key: 'other'}]) if did == 'abc' and name == 'op' else None
    s = tr.start_span(name, tags=given and dict(given), **{'child_of': {'child_of': ctx}, 'reference': {'references': follows_from(ctx)},
                               'references': {'references': [child_of(None), child_of(ctx)]}}[via])
    if extra == 'trace':
        x.eq((s.trace_id, s.parent_id, s.context.flags, samp.asked), (10, 11, 0, []), 'a trace wins over the debug id')
        x.eq(tags_of(s), [], 'tags')
        x.case()
        x.state((fmt, custom, allow, extra, did, sampled, via))
        return
    x.eq(samp.asked, [], 'sampler asked although a debug id is given')
    dbg = allow is not False
    x.eq((s.is_sampled(), s.is_debug(), s.parent_id), (dbg, dbg, None), 'flags for %r' % (car,))
    x.eq(sorted(tags_of(s)), sorted(dict(given or {}, **{key: did}).items()) if dbg else [], 'tags of a span started with %r' % (given,))
    x.eq(dict(s.context.baggage), {'k': 'v'} if extra == 'baggage' else {}, 'baggage')
    if thr:
        x.eq(thr.asked, [name or ''], 'operations the throttler was asked about for a span named %r' % (name,))
    c = tr.start_span('c', child_of=s)
    x.eq((c.is_debug(), c.trace_id, tags_of(c)), (dbg, s.trace_id, []), 'child of the debug root')
    if thr:
        x.eq(len(thr.asked), 1, 'throttler consulted again for a child')
    s.finish()
    x.eq(len(rep.spans), int(dbg), 'reports')
    x.state((fmt, custom, allow, extra, did, sampled, via, name))
    x.case()


def starts(x):
    """However a span is started from a debug ID, with or without sampling.priority among its tags."""
    cfg = x.pick([c for c in S.CONFIGS if not c['bits128']])
    cn = x.pick(['none', 'debug-id', 'debug-id+baggage', 'remote-debug', 'remote-unsampled', 'local-sampled', 'baggage-only', 'half-trace'])
    for c in S.cases(x, cfg, [cn], S.REFS, ['none', 'server', 'plain', 'prio', 'unprio', 'server+prio'], S.OPS):
        flags, tags, asks = c.flags, dict(c.tags), c.throttle_asks
        p = tags.get('sampling.priority')
        if p is not None:
            del tags['sampling.priority']
        # set in the order of the dictionary: the sampler's and debug tags come last
        if p and not flags & 2:
            asks += 1 if c.thr else 0
            if cfg['throttle'] in (None, True):
                flags |= 3
                tags['sampling.priority'] = p
        elif p == 0:
            flags &= ~3
        x.eq(c.span.context.flags, flags, '%s: flags' % c.name)
        x.eq((c.span.is_sampled(), c.span.is_debug()), (bool(flags & 1), bool(flags & 2)), '%s: sampled and debug' % c.name)
        if c.thr:
            x.eq(c.thr.asked, [c.operation] * asks, '%s: operations the throttler was asked about' % c.name)
        x.eq(c.samp.asked and [o for _, o in c.samp.asked], c.asks, '%s: sampler asked' % c.name)
        got = dict(tags_of(c.span))
        if flags & 1 and c.flags & 1:
            x.eq(got, tags, '%s: tags' % c.name)
        elif flags & 1:
            x.check(got.get('sampling.priority') == p, '%s: tags %r' % (c.name, got))
        else:
            x.check('sampling.priority' not in got, '%s: tags %r' % (c.name, got))
        x.state((cn, flags, c.root, p))


def concurrent(x, vals):
    """Two threads force the same trace: one wins, one throttler credit is spent, one tag is recorded."""
    thr = Throttle((True,))
    tr = tracer(x, S.RecordingReporter(), S.ScriptSampler([False]), throttler=thr)
    s = tr.start_span('op')
    run_threads(x, [lambda v=v: s.set_tag('sampling.priority', v) for v in vals])
    tg = [k for k, _ in tags_of(s)]
    if 0 not in vals:
        x.eq((s.is_sampled(), s.is_debug(), tg, len(thr.asked)), (True, True, ['sampling.priority'], 1),
             'after forcing twice')
    else:
        x.check(s.context.flags in (0, 3), 'flags %r are neither forced nor cleared' % s.context.flags)
    x.outcome((s.context.flags, len(tg)))


REENTRANT = ['none', 'baggage', 'baggage-twice', 'rename', 'tag', 'log', 'child', 'finish', 'priority', 'clear', 'inject', 'root', 'new-priority']


def reentrant(x):
    """The throttler traces while it decides: the decision is applied to the span as it is afterwards."""
    from jaeger_client import SpanContext
    start = x.pick(['sampled', 'unsampled', 'remote'])
    acts = [x.pick(REENTRANT), x.pick(REENTRANT)]
    answers = [bool(x.choose(2)), bool(x.choose(2))]
    calls, depth = [], [0]

    class Thr(Throttle):
        def is_allowed(self, op):
            i = len(calls)
            calls.append(op)
            if depth[0] or i > 1:
                return True
            depth[0] += 1
            try:
                a = acts[i]
                if a.startswith('baggage'):
                    s.set_baggage_item('k%d' % i, 'v')
                    if a != 'baggage':
                        s.set_baggage_item('l%d' % i, 'w')
                elif a == 'rename':
                    s.set_operation_name('op2')
                elif a == 'tag':
                    s.set_tag('t%d' % i, 1)
                elif a == 'log':
                    s.log_kv({'e': i})
                elif a == 'child':
                    tr.start_span('c', child_of=s).finish()
                elif a == 'finish':
                    s.finish()
                elif a == 'priority':
                    s.set_tag('sampling.priority', 7)
                elif a == 'clear':
                    s.set_tag('sampling.priority', 0)
                elif a == 'inject':
                    tr.inject(s.context, 'text_map', {})
                elif a == 'root':
                    tr.start_span('r', ignore_active_span=True)
                elif a == 'new-priority':
                    tr.start_span('r', ignore_active_span=True, tags={'sampling.priority': 3})
            finally:
                depth[0] -= 1
            return answers[i]
    thr = Thr(())
    rep = S.RecordingReporter()
    samp = S.ScriptSampler([start == 'sampled'])
    tr = tracer(x, rep, samp, throttler=thr)
    if start == 'remote':
        s = tr.start_span('op', child_of=SpanContext(1, 2, 3, 8, {'b': 'c'}))
    else:
        s = tr.start_span('op')
    name = 'started %s, throttler does %s and answers %s' % (start, acts, answers)
    f = s.context.flags
    baggage = dict(s.context.baggage)
    ids = (s.trace_id, s.span_id, s.parent_id)
    asked, op, prios, tagged = [], 'op', [], []
    for i in range(2):
        s.set_tag('sampling.priority', i + 1)
        if f & 2:
            continue
        k = len([q for q in asked if q[0] == 'outer'])
        asked.append(('outer', op))
        a, ok = acts[k if k < 2 else 1], answers[k]
        j = len(asked) - 1
        if j > 1:
            break                  # a nested question took this script entry: judged by the flags below only
        a, ok = acts[j], answers[j]
        if a.startswith('baggage'):
            baggage['k%d' % j] = 'v'
            if a != 'baggage':
                baggage['l%d' % j] = 'w'
        elif a == 'rename':
            op = 'op2'
        elif a == 'tag':
            if f & 1:
                tagged.append('t%d' % j)
        elif a == 'priority':
            asked.append(('inner', op))
            f |= 3
            prios.append(7)
        elif a == 'new-priority':
            asked.append(('inner', 'r'))
        elif a == 'clear':
            f &= ~3
        if ok:
            f |= 3
            prios.append(i + 1)
        x.eq(s.context.flags, f, '%s: flags after attempt %d' % (name, i))
        x.eq((s.is_sampled(), s.is_debug()), (bool(f & 1), bool(f & 2)), '%s: sampled and debug' % name)
        x.eq(dict(s.context.baggage), baggage, '%s: baggage' % name)
        x.eq((s.trace_id, s.span_id, s.parent_id), ids, '%s: IDs' % name)
        x.eq([v for k2, v in tags_of(s) if k2 == 'sampling.priority'], prios, '%s: recorded priorities' % name)
        x.eq([k2 for k2, _ in tags_of(s) if k2.startswith('t')], tagged, '%s: tags' % name)
        x.eq(calls, [q[1] for q in asked], '%s: questions' % name)
    x.case()
    x.state((start, tuple(acts), tuple(answers)))


def pump(x):
    """Forcing again and again: every attempt is judged on its own."""
    thr = x.pick([None, True, False, 'alternating'])
    how = x.pick(['tag', 'later', 'debug-id', 'one-span'])
    th = None if thr is None else Throttle((thr,) if thr in (True, False) else (True, False) * 400)
    rep = S.RecordingReporter()
    tr = tracer(x, rep, S.ScriptSampler([False]), throttler=th)
    n, forced = 300, 0
    one = tr.start_span('op', ignore_active_span=True)
    for i in range(n):
        before = len(th.asked) if th else 0
        if how == 'tag':
            s = tr.start_span('op%d' % i, tags={'sampling.priority': 1})
        elif how == 'later':
            s = tr.start_span('op%d' % i)
            s.set_tag('sampling.priority', 1)
        elif how == 'one-span':
            s = one
            s.set_tag('sampling.priority', 1)
        else:
            from opentracing import Format
            s = tr.start_span('op%d' % i, child_of=tr.extract(Format.TEXT_MAP, {'jaeger-debug-id': 'd%d' % i}))
        ok = thr in (None, True) or thr == 'alternating' and before % 2 == 0
        if th:
            x.eq(th.asked[before:], ['op' if how == 'one-span' else 'op%d' % i], 'attempt %d (%s): the throttler was asked' % (i, how))
        x.eq((s.is_sampled(), s.is_debug()), (ok, ok), 'attempt %d (%s, throttler %s): sampled and debug' % (i, how, thr))
        x.eq(len(tags_of(s)) - (forced if how == 'one-span' else 0), int(ok), 'attempt %d (%s): tags' % (i, how))
        forced += ok
        if how == 'one-span':
            s.set_tag('sampling.priority', 0)
            x.eq((s.is_sampled(), s.is_debug()), (False, False), 'attempt %d withdrawn' % i)
        else:
            s.finish()
    x.eq(len(rep.spans), 0 if how == 'one-span' else forced, 'reports')
    x.case(n)
    x.state((thr, how))


def scenarios(tier):
    t = tier == 'thorough'
    return [Scenario('pump', pump)] + [Scenario('machine', machine, params={'depth': 4 if t else 2}),
            Scenario('machine-long', machine, params={'depth': 5 if t else 4, 'small': True}),
            Scenario('debug_carrier', debug_carrier), Scenario('starts', starts), Scenario('reentrant', reentrant),
            Scenario('2t-force-force', concurrent, bound=3 if t else 2, params={'vals': (1, 1)}, sched=True),
            Scenario('2t-force-clear', concurrent, bound=3 if t else 2, params={'vals': (1, 0)}, sched=True),
            Scenario('3t-force', concurrent, bound=2 if t else 1, params={'vals': (1, 1, 5)}, sched=True)]
