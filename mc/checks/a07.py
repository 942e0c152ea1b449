"""A07: the active span is per thread, follows the scopes, and is the implicit parent."""
from mc.lib import *
from mc import startspan as S

RULE = ('every sequence of scope operations (open in all its variants, close of any open scope, exceptions through '
        'with-blocks, span starts) by two threads; distinct by (operations, stacks of active scopes)')
BOUNDS = 'histories of <= 3 operations (5 thorough) by 2 threads; 16 operations; default and custom scope managers; 2-3 threads, preemption bound 1 (2)'
CAP_THOROUGH = 1500

OPEN = ['open', 'open-keep', 'open-ignore', 'open-child', 'open-unsampled', 'activate', 'activate-keep']
REST = ['close', 'close-outer', 'with', 'with-raise', 'span', 'span-ignore', 'finish-active', 'force', 'unforce']


class M(object):
    """Model of one thread: the active scope is a pointer, each scope restores what it replaced."""

    def __init__(self):
        self.active = None
        self.scopes = []


class MScope(object):
    def __init__(self, span, finish, restore):
        self.span, self.finish, self.restore = span, finish, restore


class MSpan(object):
    def __init__(self, real, trace, parent, sampled):
        self.real, self.trace, self.parent, self.sampled, self.finished = real, trace, parent, sampled, False


def scopes(x, depth, custom):
    from jaeger_client import SpanContext
    rep = S.RecordingReporter()
    samp = S.ScriptSampler([True])
    used = []
    kw = {}
    if custom:
        from opentracing.scope_managers import ThreadLocalScopeManager

        class Custom(ThreadLocalScopeManager):
            def activate(self, span, finish_on_close):
                used.append(span)
                return ThreadLocalScopeManager.activate(self, span, finish_on_close)
        kw['scope_manager'] = Custom()
    if custom == 'config':
        from jaeger_client import Config
        tr = Config({}, service_name='svc', metrics_factory=x.world.metrics.factory(), **kw).create_tracer(rep, samp)
    else:
        tr = tracer(x, rep, samp, **kw)
    if custom:
        x.check(tr.scope_manager is kw['scope_manager'], 'the given scope manager is not used')
    P = [Puppet(), Puppet()]
    T = [M(), M()]
    spans, reports, seq = [], [], []
    remote = SpanContext(0x70, 0x71, None, 1)
    bound_span = MSpan(tr.start_span('shared', child_of=remote), 0x70, 0x71, True)
    spans.append(bound_span)
    try:
        for step in range(depth):
            who = x.choose(2) if step else 0
            t, p = T[who], P[who]
            alts = list(OPEN) + ['with', 'with-raise', 'span', 'span-ignore']
            if t.scopes:
                alts += ['close']
            if len(t.scopes) > 1:
                alts += ['close-outer']
            if t.active:
                alts += ['finish-active', 'force', 'unforce']
            op = x.pick(alts)
            seq.append('%d:%s' % (who, op))
            what = 'after %s' % ' '.join(seq)

            def new(real, explicit, ignore, sampled):
                par = explicit if explicit is not None else (
                    None if ignore or t.active is None else t.active.span)
                if par is None:
                    m = MSpan(real, real.trace_id, None, sampled)
                    x.eq(real.parent_id, None, '%s: parent of a root' % what)
                    x.check(real.trace_id not in {s.trace for s in spans}, '%s: root joins a trace' % what)
                else:
                    tr_id, sp_id, fl = par
                    m = MSpan(real, tr_id, sp_id, fl)
                    x.eq((real.trace_id, real.parent_id), (tr_id, sp_id), '%s: lineage' % what)
                x.eq(real.is_sampled(), m.sampled, '%s: decision' % what)
                spans.append(m)
                return m

            def parent(explicit, ignore):
                """(trace, span, sampled) of the span that must become the parent"""
                if explicit is not None:
                    return (explicit.trace_id, explicit.span_id, bool(explicit.flags & 1))
                if ignore or t.active is None:
                    return None
                a = t.active.span
                return (a.trace, a.real.span_id, a.sampled)

            def fin(m):
                if m.sampled and not m.finished:
                    m.finished = True
                    reports.append(m)

            def mclose(s):
                if t.active is s:
                    if s.finish:
                        fin(s.span)
                    t.active = s.restore
                # closing a scope that is not active has no effect
            if op.startswith('open') or op.startswith('with'):
                kwargs = {}
                finish = True
                samp.answers = [op != 'open-unsampled']
                if op == 'open-keep':
                    kwargs['finish_on_close'] = finish = False
                if op in ('open-ignore', 'open-unsampled'):
                    kwargs['ignore_active_span'] = True
                if op == 'open-child':
                    kwargs['child_of'] = remote
                par = parent(remote if op == 'open-child' else None, kwargs.get('ignore_active_span', False))
                if op.startswith('open'):
                    scope = p.call(lambda: tr.start_active_span(op, **kwargs))
                    m = new(scope.span, par, True, op != 'open-unsampled')
                    s = MScope(m, finish, t.active)
                    s.real = scope
                    t.active = s
                    t.scopes.append(s)
                else:
                    got = []
                    before = t.active

                    def body():
                        try:
                            with tr.start_active_span(op) as scope:
                                got.append((scope.span, tr.active_span))
                                if op == 'with-raise':
                                    raise KeyError('application error')
                        except KeyError:
                            got.append('caught')
                    p.call(body)
                    x.check(got[0][0] is got[0][1], '%s: active span inside the block' % what)
                    x.eq(len(got), 2 if op == 'with-raise' else 1, '%s: exception through the block' % what)
                    m = new(got[0][0], par, True, True)
                    fin(m)
                    x.eq(('error', True) in tags_of(m.real), op == 'with-raise' and m.sampled, '%s: error tag' % what)
            elif op.startswith('activate'):
                keep = op == 'activate-keep'
                scope = p.call(lambda: tr.scope_manager.activate(bound_span.real, not keep))
                s = MScope(bound_span, not keep, t.active)
                s.real = scope
                t.active = s
                t.scopes.append(s)
            elif op in ('close', 'close-outer'):
                i = -1 if op == 'close' else 0
                s = t.scopes[i]
                p.call(s.real.close)
                mclose(s)
                if t.active is not s:
                    del t.scopes[i]
            elif op == 'finish-active':
                m = t.active.span
                p.call(lambda: tr.active_span.finish())
                fin(m)
            elif op in ('force', 'unforce'):
                # whether its scope finishes it was decided at activation, not by its sampling state
                m = t.active.span
                p.call(lambda: tr.active_span.set_tag('sampling.priority', int(op == 'force')))
                m.sampled = op == 'force'
            else:
                ign = op == 'span-ignore'
                samp.answers = [True]
                par = parent(None, ign)
                real = p.call(lambda: tr.start_span(op, ignore_active_span=ign))
                new(real, par, True, True)
            for i in range(2):
                a, b = P[i].call(lambda: (tr.active_span, tr.scope_manager.active))
                want = T[i].active
                x.check(a is (want.span.real if want else None), '%s: active span of thread %d is %r' % (what, i, a))
                x.check(b is (want.real if want else None), '%s: active scope of thread %d is %r' % (what, i, b))
            x.check(tr.active_span is None, '%s: a thread that opened nothing has an active span' % what)
            x.eq([id(r) for r in rep.spans], [id(m.real) for m in reports], '%s: spans reported' % what)
            x.state((custom, tuple(seq), tuple(len(t.scopes) for t in T)))
        if custom:
            n = sum(1 for s in seq if s[2:] in OPEN or s[2:].startswith('with'))
            x.eq(len(used), n, 'activations through the given scope manager')
    finally:
        for p in P:
            p.stop()
    x.case()


def arguments(x):
    """With every combination of arguments the active span is the parent if and only if none other is given and it is not to be ignored."""
    cfg = x.pick([c for c in S.CONFIGS if not c['bits128'] and c['active']])
    finish = x.pick([None, True, False])
    for c in S.cases(x, cfg, ['none', 'remote-sampled', 'debug-id', 'baggage-only', 'local-unsampled'],
                     ['none', 'empty', 'list:child_of:None', 'list:child_of:debug-id', 'single:child_of:remote-sampled'],
                     ['none', 'empty', 'plain', 'server', 'client'], ['op', None], finish=finish):
        ctx_ = c.span.context
        if c.root:
            x.check(ctx_.parent_id is None, '%s: a root has a parent' % c.name)
        else:
            x.eq((ctx_.trace_id, ctx_.parent_id), (c.trace_id, c.parent_id), '%s: lineage' % c.name)
        if finish is None:
            x.check(c.tr.scope_manager.active is c.before, '%s: start_span changed the active scope' % c.name)
        else:
            x.check(c.tr.active_span is c.span, '%s: not active' % c.name)
            c.scope.close()
            x.check(c.tr.scope_manager.active is c.before, '%s: scope not restored' % c.name)
            x.eq(len(c.rep.spans), int(finish and c.span.is_sampled()), '%s: reported' % c.name)
        x.state(c.name)


def tracers(x, depth, shared):
    """Several tracers in one process: each has its own active span, unless given one scope manager."""
    from opentracing.scope_managers import ThreadLocalScopeManager
    import opentracing
    sm = ThreadLocalScopeManager() if shared else None
    trs = [tracer(x, S.RecordingReporter(), S.ScriptSampler([True]), service_name='t%d' % (i % 2), scope_manager=sm)
           for i in range(3)]
    st = [[]] if shared else [[], [], []]
    x.eq(len({id(t.scope_manager) for t in trs}), len(st), 'scope managers')
    seq = []
    for d in range(depth):
        i = x.choose(3)
        mine = st[0 if shared else i]
        op = x.pick(['open', 'span', 'close'] if mine else ['open', 'span'])
        seq.append('%s%d' % (op, i))
        par = mine[-1].span if mine else None
        if op == 'close':
            mine.pop().close()
        else:
            if op == 'open':
                sc = trs[i].start_active_span('s')
                sp = sc.span
                mine.append(sc)
            else:
                sp = trs[i].start_span('s')
            x.eq((sp.trace_id, sp.parent_id) if par else sp.parent_id, (par.trace_id, par.span_id) if par else None,
                 'parent after %s' % seq)
            x.check(sp.tracer is trs[i], 'tracer of the span after %s' % seq)
        for j, t in enumerate(trs):
            want = st[0 if shared else j]
            x.check(t.active_span is (want[-1].span if want else None), 'active span of tracer %d after %s' % (j, seq))
        x.state((shared, tuple(seq)))
    x.case()


def threads(x, n, nest=True):
    """Interleaved threads each build their own nest of active spans."""
    rep = S.RecordingReporter()
    tr = tracer(x, rep, S.ScriptSampler([True]))
    got = {}

    def body(i):
        def f():
            me = []
            with tr.start_active_span('o%d' % i) as a:
                me.append((a.span, tr.active_span))
                if nest:
                    with tr.start_active_span('i%d' % i) as b:
                        me.append((b.span, tr.active_span))
                        c = tr.start_span('l%d' % i)
                else:
                    b, c = None, tr.start_span('l%d' % i)
                me.append((a.span, tr.active_span))
            me.append((None, tr.active_span))
            got[i] = (me, a.span, b.span if b else a.span, c)
        return f
    run_threads(x, [body(i) for i in range(n)])
    for i in range(n):
        me, a, b, c = got[i]
        for want, act in me:
            x.check(want is act, 'thread %d sees %r active instead of %r' % (i, act, want))
        x.eq((a.parent_id, b.parent_id if nest else None, c.parent_id), (None, a.span_id if nest else None, b.span_id), 'parents in thread %d' % i)
        x.eq({a.trace_id, b.trace_id, c.trace_id}, {a.trace_id}, 'trace of thread %d' % i)
    x.eq(len({got[i][1].trace_id for i in range(n)}), n, 'traces')
    x.eq(sorted(s.operation_name for s in rep.spans), sorted(k + str(i) for i in range(n) for k in ('oi' if nest else 'o')), 'reports')
    x.outcome(tuple(s.operation_name for s in rep.spans))


def pump(x):
    """Deep nests and long sequences of scopes."""
    rep = S.RecordingReporter()
    tr = tracer(x, rep, S.ScriptSampler([True]))
    keep, how = bool(x.choose(2)), x.pick(['nest', 'sequence', 'nest-activate', 'same-span', 'with'])
    n = 300
    scopes_, spans = [], []
    one = tr.start_span('one')
    if how == 'with':
        def rec(d, parent):
            with tr.start_active_span('w', finish_on_close=not keep) as sc:
                x.check(tr.active_span is sc.span and sc.span.parent_id == (parent.span_id if parent else None), 'depth %d' % d)
                spans.append(sc.span)
                if d < n:
                    rec(d + 1, sc.span)
                x.check(tr.active_span is sc.span, 'depth %d, on the way out' % d)
        rec(1, None)
        x.check(tr.active_span is None, 'a span is active in the end')
        x.eq([id(s) for s in rep.spans], [] if keep else [id(s) for s in reversed(spans)], 'reports')
        x.case(n)
        return
    for i in range(n):
        if how == 'nest-activate':
            sc = tr.scope_manager.activate(tr.start_span('a'), not keep)
        elif how == 'same-span':
            sc = tr.scope_manager.activate(one, not keep)
        else:
            sc = tr.start_active_span('s%d' % i, finish_on_close=not keep)
        par = spans[-1] if spans and how != 'sequence' else None
        if how not in ('same-span',):
            x.eq(sc.span.parent_id, par.span_id if par else None, '%s: parent of span %d' % (how, i))
        x.check(tr.active_span is sc.span, '%s: active span after activation %d' % (how, i))
        spans.append(sc.span)
        if how == 'sequence':
            sc.close()
            x.check(tr.active_span is None, 'active span after closing scope %d' % i)
        else:
            scopes_.append(sc)
    want = [] if keep else list(spans) if how == 'sequence' else []
    for i in range(len(scopes_) - 1, -1, -1):
        x.eq(len(rep.spans), len(want), '%s: reports while scope %d is open' % (how, i))
        scopes_[i].close()
        x.check(tr.active_span is (spans[i - 1] if i else None), '%s: active span after closing scope %d' % (how, i))
        if not keep and (how != 'same-span' or i == n - 1):
            want.append(spans[i])
    x.eq([id(s) for s in rep.spans], [id(s) for s in want], '%s: reports' % how)
    x.case(n)
    x.state((keep, how))


def scenarios(tier):
    t = tier == 'thorough'
    return [Scenario('pump', pump)] + [Scenario('scopes', scopes, params={'depth': 5 if t else 3, 'custom': False}),
            Scenario('scopes-custom', scopes, params={'depth': 4 if t else 3, 'custom': True}),
            Scenario('scopes-config', scopes, params={'depth': 3 if t else 2, 'custom': 'config'}),
            Scenario('arguments', arguments), Scenario('tracers', tracers, params={'depth': 6 if t else 4, 'shared': False}),
            Scenario('tracers-shared', tracers, params={'depth': 6 if t else 4, 'shared': True}),
            Scenario('2-threads', threads, bound=2 if t else 1, params={'n': 2, 'nest': t}, sched=True),
            Scenario('3-threads', threads, bound=2 if t else 1, params={'n': 3, 'nest': True}, sched=True)]
