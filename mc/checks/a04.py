"""A04: updates of one span from several threads are never lost, mixed up or doubled."""
import itertools
from mc.lib import *
from mc import startspan as S

RULE = ('every interleaving of two or three threads, each running one of the update programs on the same '
        'span; distinct by final span content')
BOUNDS = '2 threads x 20 pairs of programs at preemption bound 1-2 (all pairs, 2-3 thorough), 3 threads at bound 1 (2)'

# programs: list of (op, args)
PROGS = {
    'tag': [('tag', 'k{t}', '{t}')],
    'tag2': [('tag', 'k', '{t}a'), ('tag', 'k', '{t}b')],
    'log': [('log', 'e', '{t}')],
    'log2': [('log', 'e', '{t}1'), ('log', 'e', '{t}2')],
    'bag': [('bag', 'b{t}', '{t}')],
    'bag2': [('bag', 'x{t}', '1'), ('bag', 'y{t}', '2')],
    'bagsame': [('bag', 'same', '{t}')],
    'bagdel': [('bag', 'pre', None)],
    'name': [('name', 'n{t}')],
    'prio1': [('prio', 1)],
    'mix': [('tag', 'k{t}', '{t}'), ('bag', 'b{t}', '{t}'), ('log', 'e', '{t}')],
    'read': [('read',)],
}


def subst(op, t):
    return tuple(a.replace('{t}', t) if isinstance(a, str) else a for a in op)


def execute(span, prog):
    for op in prog:
        k = op[0]
        if k == 'tag':
            span.set_tag(op[1], op[2])
        elif k == 'log':
            span.log_kv({op[1]: op[2]})
        elif k == 'bag':
            span.set_baggage_item(op[1], op[2])
        elif k == 'name':
            span.set_operation_name(op[1])
        elif k == 'prio':
            span.set_tag('sampling.priority', op[1])


def concurrent(x, names, sampled):
    samp = S.ScriptSampler([sampled])
    rep = reporter(x)
    tr = tracer(x, rep, samp)
    span = tr.start_span('op', tags={'t0': 'v0'})
    span.set_baggage_item('pre', 'p')
    base_logs = 1 if sampled else 0
    progs = [[subst(op, 'ABC'[i]) for op in PROGS[n]] for i, n in enumerate(names)]
    seen = []

    def body(p):
        if p == [('read',)]:
            def rd():
                c = span.context
                b = dict(c.baggage)
                v = span.get_baggage_item('pre')
                car = {}
                tr.inject(span.context, 'text_map', car)
                seen.append((c, b, v, car))
            return rd
        return lambda: execute(span, p)
    run_threads(x, [body(p) for p in progs])
    # -- what any order allows -------------------------------------------------------------------
    allops = [op for p in progs for op in p]
    bag = {'pre': 'p'}
    last = {}
    for p in progs:
        mine = {}
        for op in p:
            if op[0] == 'bag':
                mine[op[1]] = op[2]
        for k, v in mine.items():
            last.setdefault(k, []).append(v)
    got = dict(span.context.baggage)
    keys = set(bag) | set(last)
    for k in keys:
        allowed = last.get(k, [bag.get(k)])
        x.check(got.get(k) in allowed, 'baggage item %r is %r, written values %r' % (k, got.get(k), allowed),
                threads=names)
    x.check(set(got) <= keys, 'unexpected baggage %r' % got)
    prio = [op for op in allops if op[0] == 'prio']
    want_sampled = sampled or bool(prio)
    x.eq((span.is_sampled(), span.is_debug()), (want_sampled, bool(prio)), 'flags after %s' % (names,))
    nm = [op[1] for op in allops if op[0] == 'name']
    x.check(span.operation_name in (nm or ['op']), 'operation name %r' % span.operation_name)
    x.eq((span.trace_id, span.parent_id), (span.context.trace_id, None), 'ids')
    for c, b, v, car in seen:
        x.eq(dict(c.baggage), b, 'baggage of a captured context changed')
    span.finish()
    f = tr.close()
    x.world.advance(5)
    bs = batches(x)
    if not want_sampled:
        x.eq(ops(bs), [], 'unsampled span reported')
        x.outcome(tuple(sorted(got.items())))
        return
    s = bs[0]['spans'][0]
    x.eq(sum(len(b['spans']) for b in bs), 1, 'spans received')
    x.eq(s['operation'], span.operation_name, 'operation name on the wire')
    if sampled:
        wt = sorted([('t0', 'v0'), ('sampler.type', 'script'), ('sampler.param', 0.25)]
                    + [(op[1], op[2]) for op in allops if op[0] == 'tag']
                    + ([('sampling.priority', 1)] if prio else []), key=repr)
        x.eq(sorted([(k, v) for k, _, v in s['tags']], key=repr), wt, 'tags received (threads %s)' % (names,))
        for p in progs:
            vals = [(op[1], op[2]) for op in p if op[0] == 'tag']
            pos = [[(k, v) for k, _, v in s['tags']].index(v) for v in vals]
            x.check(pos == sorted(pos), 'tags of one thread changed their order')
        wl = [{op[1]: op[2]} for op in allops if op[0] == 'log']
        wb = [(op[1], op[2]) for op in allops if op[0] == 'bag']
        gl, gb = [], []
        for ts, fs in s['logs']:
            d = {k: v for k, _, v in fs}
            if d.get('event') == 'baggage':
                gb.append((d['key'], d['value'], d.get('override')))
            else:
                gl.append(d)
        x.eq(sorted(gl, key=repr), sorted(wl, key=repr), 'logs received (threads %s)' % (names,))
        x.eq(sorted((k, str(v)) for k, v, _ in gb), sorted([('pre', 'p')] + [(k, str(v)) for k, v in wb]),
             'baggage logs received (threads %s)' % (names,))
        for k in last:
            over = sum(1 for kk, _, o in gb if kk == k and o)
            n = len([1 for kk, _ in wb if kk == k])
            x.eq(over, n if k == 'pre' and None not in last[k] else (n - 1 if k != 'pre' else 1),
                 'overriding baggage logs for %r (threads %s)' % (k, names))
    x.outcome((tuple(sorted(got.items(), key=repr)), tuple(k for k, _, _ in s['tags'])))


def with_finish(x, name, order):
    """Everything a thread did before it finished the span is reported, whatever others do meanwhile."""
    rep = reporter(x)
    tr = tracer(x, rep, S.ScriptSampler([True]))
    span = tr.start_span('op')
    prog = [subst(op, 'B') for op in PROGS[name]]

    def a():
        span.set_tag('mine', 1)
        span.log_kv({'mine': 'l'})
        span.set_baggage_item('mine', 'b')
        span.finish()
    run_threads(x, [a, lambda: execute(span, prog)])
    f = tr.close()
    x.world.advance(5)
    bs = batches(x)
    x.eq(ops(bs)[1:], [], 'one report')
    s = bs[0]['spans'][0]
    x.check(('mine', 'long', 1) in s['tags'], 'tag set before finish() is missing')
    x.check([('mine', 'str', 'l')] in [fs for _, fs in s['logs']], 'log before finish() is missing')
    x.eq(span.get_baggage_item('mine'), 'b', 'baggage')
    x.outcome(len(s['tags']) * 10 + len(s['logs']))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    quick_pairs = [('tag', 'tag'), ('tag2', 'tag2'), ('tag', 'log'), ('log', 'log'), ('bag', 'bag'),
                   ('bagsame', 'bagsame'), ('bag', 'prio1'), ('bag', 'bagdel'), ('prio1', 'prio1'),
                   ('tag', 'prio1'), ('name', 'name'), ('name', 'tag'), ('bag', 'tag'), ('bag', 'log'),
                   ('bag', 'read'), ('bagdel', 'read'), ('prio1', 'read')]
    pairs = quick_pairs if not t else list(itertools.combinations_with_replacement(sorted(PROGS), 2))
    for p in pairs:
        if p == ('read', 'read'):
            continue
        out.append(Scenario('2t-%s+%s' % p, concurrent, bound=3 if t and len(PROGS[p[0]]) == len(PROGS[p[1]]) == 1 else 1 if not t and p[0].startswith('bag') and p[1] != 'prio1' else 2,
                            params={'names': p, 'sampled': True}, sched=True))
    for p in [('bag', 'prio1'), ('bag', 'bag'), ('tag', 'prio1')]:
        out.append(Scenario('2t-unsampled-%s+%s' % p, concurrent, bound=2, params={'names': p, 'sampled': False},
                            sched=True))
    for p in [('tag', 'bag', 'log'), ('bag', 'bag', 'prio1'), ('mix', 'mix', 'mix'), ('bagsame', 'bagsame', 'bagsame')]:
        out.append(Scenario('3t-%s+%s+%s' % p, concurrent, bound=2 if t else 1,
                            params={'names': p, 'sampled': True}, sched=True))
    for n in ('tag', 'log', 'bag', 'mix', 'name'):
        out.append(Scenario('finish-%s' % n, with_finish, bound=2 if t else 1, params={'name': n, 'order': 0}, sched=True))
    return out
