"""R06: what the application does to finished spans while a batch is built and sent cannot damage the batch."""
from mc.lib import *
from mc.rep import Rig
from mc import startspan as S

RULE = ('every interleaving (up to the preemption bound) of application threads updating finished spans or finishing others '
        'with the loop thread that builds, encodes and sends the batch; distinct by datagram contents')
BOUNDS = ('11 single updates, 8 pairs from two threads; spans with 0-2 tags and logs in a batch of 2; preemption bound 2 '
          '(3 thorough) for one updating thread, 1 (2) for two')


def encode_points():
    """The Thrift library is not instrumented: a scheduling point wherever a list is about to be encoded."""
    from thrift.protocol.TCompactProtocol import TCompactProtocol
    if getattr(TCompactProtocol.writeListBegin, 'mc', False):
        return
    orig = TCompactProtocol.writeListBegin

    def writeListBegin(self, etype, size):
        r = orig(self, etype, size)
        sched.yield_point()
        return r
    writeListBegin.mc = True
    TCompactProtocol.writeListBegin = writeListBegin
    for name in ('writeFieldStop', 'writeI32', 'writeString'):
        def wrap(orig):
            def write(self, *a):
                r = orig(self, *a)
                if FINE:
                    sched.yield_point()
                return r
            return write
        setattr(TCompactProtocol, name, wrap(getattr(TCompactProtocol, name)))


FINE = []


UPDATES = {
    'tag': lambda r, s: s.set_tag('late', 'L'),
    'tag2': lambda r, s: (s.set_tag('late', 1), s.set_tag('late', 2)),
    'log': lambda r, s: s.log_kv({'late': 'L'}),
    'event': lambda r, s: s.log_event('late', payload='P'),
    'baggage': lambda r, s: s.set_baggage_item('late', 'L'),
    'name': lambda r, s: s.set_operation_name('late'),
    'prio0': lambda r, s: s.set_tag('sampling.priority', 0),
    'prio1': lambda r, s: s.set_tag('sampling.priority', 1),
    'finish': lambda r, s: s.finish(),
    'finish-at': lambda r, s: s.finish(99999.0),
    'child': lambda r, s: (r.tr.start_span('child', child_of=s).finish(), r.reported.append('child')),
    'other': lambda r, s: r.report('other'),
    'process': lambda r, s: r.rep.set_process('svc2', {'p': 'q'}, 1024),
    'error': lambda r, s: s.error('late'),
    'retag': lambda r, s: s.set_tag('k0', 5),
    'retag-same': lambda r, s: s.set_tag('k0', 'w' * 40),
    'retag-bool': lambda r, s: s.set_tag('k0', True),
    'relog': lambda r, s: s.log_kv({'l': 'other'}),
}


def setup(x, n_tags):
    encode_points()
    r = Rig(x, 10, 2, 1)
    w = x.world
    w.run_ready()
    spans = []
    for i in range(2):
        s = r.tr.start_span('s%d' % i)
        for k in range(n_tags):
            s.set_tag('k%d' % k, 'v%d' % k)
            s.log_kv({'l': k, 'm': str(k)})
        spans.append(s)
    return r, spans


def check_span(x, g, n_tags, updates, what, flags=1):
    base_t = [('k%d' % k, 'str', 'v%d' % k) for k in range(n_tags)]
    base_l = [[('l', 'long', k), ('m', 'str', str(k))] for k in range(n_tags)]
    tags = [t for t in g['tags'] if t[0] not in ('sampler.type', 'sampler.param')]
    x.eq(tags[:n_tags], base_t, '%s: tags set before finish()' % what)
    x.eq([l for _, l in g['logs']][:n_tags], base_l, '%s: logs before finish()' % what)
    for t in tags[n_tags:]:
        x.check(t in [('late', 'str', 'L'), ('late', 'long', 1), ('late', 'long', 2), ('error', 'bool', True),
                      ('k0', 'long', 5), ('k0', 'str', 'w' * 40), ('k0', 'bool', True), ('sampling.priority', 'long', 1)], '%s: a tag nobody set: %r' % (what, t))
    for _, l in g['logs'][n_tags:]:
        x.check(l in [[('late', 'str', 'L')], [('l', 'str', 'other')], [('event', 'str', 'late'), ('payload', 'str', 'P')], [('event', 'str', 'late')],
                      [('event', 'str', 'baggage'), ('key', 'str', 'late'), ('value', 'str', 'L')]],
                '%s: a log nobody wrote: %r' % (what, l))
    x.check(g['flags'] in {1, 3 if 'prio1' in updates else 1, 0 if 'prio0' in updates else 1},
            '%s: flags %r' % (what, g['flags']))


def race(x, names, n_tags, targets, fine=False):
    """The loop serializes s0 and s1 while threads update them."""
    FINE[:] = [1] if fine else []
    r, spans = setup(x, n_tags)
    w = x.world
    t0 = [s.context.trace_id for s in spans]
    for s in spans:
        s.finish()
        r.reported.append(s.operation_name)
    done = [0]

    def app(i):
        def f():
            UPDATES[names[i]](r, spans[targets[i]])
            done[0] += 1
        return f
    run_threads(x, [app(i) for i in range(len(names))] + [loop_body(w, lambda: done[0] == len(names))],
                names=['app%d' % i for i in range(len(names))] + ['loop'])
    f = r.tr.close()
    w.advance(3)
    x.check(f.done(), 'close() incomplete')
    bs = batches(x)
    got = [s for b in bs for s in b['spans']]
    what = '+'.join(names)
    by = {}
    for g in got:
        i = t0.index(g['trace_id']) if g['trace_id'] in t0 and g['parent_id'] == 0 else None
        if i is None:
            x.check(g['operation'] in ('child', 'other'), '%s: unknown span %r' % (what, g['operation']))
            by.setdefault(g['operation'], []).append(g)
        else:
            by.setdefault(i, []).append(g)
    for i in range(2):
        x.eq(len(by.get(i, ())), 1, '%s: span %d received' % (what, i))
        ups = [n for n, t in zip(names, targets) if t == i]
        check_span(x, by[i][0], n_tags, ups, '%s: span %d' % (what, i))
        x.check(by[i][0]['operation'] in ('s%d' % i, 'late' if 'name' in ups else 's%d' % i), '%s: operation %r'
                % (what, by[i][0]['operation']))
    for n in ('child', 'other'):
        x.eq(len(by.get(n, ())), names.count(n), '%s: spans %r received' % (what, n))
    x.eq((r.ok, r.err, r.dropped), (len(got), 0, 0), '%s: counters' % what)
    # and the span the application holds is still what the application made of it
    for i, s in enumerate(spans):
        ups = [n for n, t in zip(names, targets) if t == i]
        x.eq(tags_of(s)[2:2 + n_tags], [('k%d' % k, 'v%d' % k) for k in range(n_tags)], '%s: tags of the span object' % what)
        late = sum({'tag': 1, 'tag2': 2, 'prio1': 1, 'error': 1, 'retag': 1, 'retag-same': 1, 'retag-bool': 1}.get(n, 0)
                   for n in ups)
        logs = sum({'log': 1, 'event': 1, 'baggage': 1, 'error': 1, 'relog': 1}.get(n, 0) for n in ups)
        if 'prio0' not in ups:
            x.eq((len(tags_of(s)), len(s.logs)), (n_tags + late + 2, n_tags + logs), '%s: tags and logs of the span object' % what)
    for b in bs:
        x.check((b['service'] == 'svc') or ('process' in names and b['service'] == 'svc2' and
                                            b['tags'] == [('p', 'str', 'q')]), '%s: process %r' % (what, b['service']))
    x.outcome(tuple((g['operation'], len(g['tags']), len(g['logs']), g['flags']) for g in got))


def boundary(x, how):
    """While one batch is encoded, more spans are finished, the same ones again, and the reporter is closed."""
    FINE[:] = []
    r, spans = setup(x, 1)
    w = x.world
    for s in spans:
        s.finish()
        r.reported.append(s.operation_name)
    done = [0]
    fut = []

    def app():
        if how == 'close':
            fut.append(r.tr.close())
        elif how == 'finish-close':
            r.report('other')
            fut.append(r.tr.close())
        elif how == 'overflow':
            for i in range(3):
                r.report('x%d' % i)
        done[0] = 1
    run_threads(x, [app, loop_body(w, lambda: done[0])], names=['app', 'loop'])
    f = r.tr.close()
    w.advance(3)
    x.check(f.done() and all(q.done() for q in fut), 'close() incomplete')
    r.account(what=how)
    x.eq(r.received(), r.reported, '%s: spans received' % how)
    x.outcome(tuple(len(b['spans']) for b in batches(x)))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for n in sorted(UPDATES):
        out.append(Scenario('one-%s' % n, race, bound=2 if t else 1, params={'names': (n,), 'n_tags': 1, 'targets': (0,)}, sched=True))
    for n in ('tag', 'log', 'baggage', 'event'):
        out.append(Scenario('empty-%s' % n, race, bound=1, params={'names': (n,), 'n_tags': 0, 'targets': (1,)}, sched=True))
    for p in (('tag', 'tag'), ('tag', 'log'), ('prio0', 'tag'), ('name', 'log'), ('child', 'tag'), ('other', 'finish'),
              ('process', 'tag'), ('baggage', 'baggage'))[:8 if t else 4]:
        out.append(Scenario('two-%s+%s' % p, race, bound=1, params={'names': p, 'n_tags': 1, 'targets': (0, 0)}, sched=True))
    for n in sorted(UPDATES) if t else ('retag', 'retag-bool', 'retag-same', 'tag2', 'error', 'relog'):
        out.append(Scenario('fine-%s' % n, race, bound=1, params={'names': (n,), 'n_tags': 1, 'targets': (0,), 'fine': True},
                            sched=True))
    for h in ('close', 'finish-close', 'overflow'):
        out.append(Scenario('boundary-%s' % h, boundary, bound=2 if t else 1, params={'how': h}, sched=True))
    return out
