"""H02: throttling with several threads asking while credits arrive."""
import json
from fractions import Fraction
from mc import env, net
from mc.lib import *
from mc.checks import h01

RULE = ('every interleaving of asking threads with each other and with the loop thread that requests credits and applies the '
        'answer; answers, remaining credits and counters must be those of a sequential order; distinct by (scenario, answers)')
BOUNDS = ('2-3 threads asking 1-3 times each x 6 initial credits x 9 answers, preemption bound 2 (3 thorough), 1 (2) with the loop '
          'thread or three threads')
ASKS = {'1+1': [['a'], ['a']], '2+1': [['a', 'a'], ['a']], '2+2': [['a', 'a'], ['a', 'a']], 'a+b': [['a'], ['b']],
        'ab+ba': [['a', 'b'], ['b', 'a']], '1+1+1': [['a'], ['a'], ['a']], 'n+n': [['n'], ['n']], 'n+m': [['n'], ['m']],
        '1': [['a']], '2': [['a', 'a']], 'ab': [['a', 'b']], 'n': [['n']], 'na': [['n', 'a']], '3': [['a', 'a', 'a']]}


def sequential(credit, asks, steps):
    """{(answers per thread, final credit)} over all orders; steps are atomic changes of the credit by the loop."""
    out = set()

    def go(pos, cr, ans):
        moved = False
        for i, p in enumerate(asks):
            if pos[i] < len(p):
                moved = True
                o = p[pos[i]]
                ok = cr.get(o, 0) >= 1
                c2 = dict(cr)
                c2[o] = cr.get(o, 0) - (1 if ok else 0)
                a2 = list(ans)
                a2[i] = ans[i] + (ok,)
                go(pos[:i] + (pos[i] + 1,) + pos[i + 1:], c2, a2)
        k = pos[-1]
        if k < len(steps):
            moved = True
            c2 = dict(cr)
            for o, b in steps[k]:
                c2[o] = c2.get(o, 0) + b
            go(pos[:-1] + (k + 1,), c2, ans)
        if not moved:
            out.add((tuple(ans), tuple(sorted((o, int(v // 1)) for o, v in cr.items() if v >= 1))))
    go((0,) * (len(asks) + 1), dict(credit), [()] * len(asks))
    return out


def race(x, credit, asks, answers):
    r = h01.Rig(x)
    w = x.world
    r.ask('a')
    h01.VALID['init'] = h01.bal(*sorted(credit.items()))
    r.poll('init')
    progs = ASKS[asks]
    ans = [[] for _ in progs]
    before = dict(r.credit)
    for p in progs:                 # for the parameters of requests: may be asked for from now on
        for o in p:
            r.credit.setdefault(o, 0)

    def app(i):
        def f():
            for op in progs[i]:
                ans[i].append(bool(r.t.is_allowed(op)))
        return f
    bodies, names = [app(i) for i in range(len(progs))], ['app%d' % i for i in range(len(progs))]
    steps = []
    late = answers and answers[0].startswith('late:')
    if late:                       # answers that arrive one after the other
        for a in answers:
            r.poll(a)
        for name, f, body, exc in r.late:
            if h01.response(name)[0] == 'valid':
                steps.append([(e['operation'], Fraction(e['balance'])) for e in h01.VALID[name]['balances']])

        def loop():
            for name, f, body, exc in r.late:
                f.set_exception(exc) if exc is not None else f.set_result(net.FakeResponse(body))
                while w.vloop.ready():
                    w.vloop.step()
        bodies.append(loop)
        names.append('loop')
    elif answers:                  # the request is made and answered meanwhile
        r.todo = list(answers)
        if h01.response(answers[0])[0] == 'valid':
            steps.append([(e['operation'], Fraction(e['balance'])) for e in h01.VALID[answers[0]]['balances']])
        env.clock.mono += h01.INTERVAL

        def loop():
            for _ in range(3):
                w.vloop.step()
            while w.vloop.ready():
                w.vloop.step()
        bodies.append(loop)
        names.append('loop')
    run_threads(x, bodies, names=names)
    x.check(not r.todo, 'no request')
    refused = sum(not a for p in ans for a in p)
    x.eq(w.metrics.get(h01.REFUSED), r.n[h01.REFUSED] + refused, 'counted as refused')
    left = {}
    for o in ('a', 'b', 'n', 'm', 'z'):
        k = 0
        r.credit.setdefault(o, 0)
        while r.t.is_allowed(o):
            k += 1
            x.check(k < 50, 'credits never end')
        if k:
            left[o] = k
    got = (tuple(map(tuple, ans)), tuple(sorted(left.items())))
    want = sequential(before, progs, steps)
    x.check(got in want, 'credits %r, threads %r, answers %r: allowed %r, then left %r; possible: %r'
            % (before, progs, answers, got[0], got[1], sorted(want)[:6]))
    good = sum(h01.response(a[5:] if late else a)[0] == 'valid' for a in answers)
    x.eq(w.metrics.get(h01.UOK), good + 1, 'counted as updated')
    x.eq(w.metrics.get(h01.UERR), len(answers) - good, 'counted as failed')
    x.outcome(got)
    # nothing that was asked about is forgotten
    for p in progs:
        r.asked.update(p)
    r.poll('none')


def ids(x, n):
    """Tracers that share a throttler: one client ID, set once."""
    r = h01.Rig(x, client=None)
    r.ask('a')
    got = []

    def app(i):
        def f():
            r.t.set_client_id('id%d' % i)
        return f

    def loop():
        r.todo = ['a1']
        env.clock.mono += h01.INTERVAL / 2
        for _ in range(3):
            w.vloop.step()
        while w.vloop.ready():
            w.vloop.step()
    w = x.world
    run_threads(x, [app(i) for i in range(n)] + [loop])
    r.first = False
    from urllib.parse import urlsplit, parse_qsl
    r.poll('none')
    r.poll('none')
    for url in w.net.http_log:
        got += [v for k, v in parse_qsl(urlsplit(url).query) if k == 'uuid']
    # the first request may be older than the first ID
    ok = got[0] in ['id%d' % i for i in range(n)] or got[0] == 'None'
    x.check(len(got) == 3 and ok and got[1] == got[2] and got[1].startswith('id') and got[0] in (got[1], 'None'), 'client IDs %r' % got)
    x.outcome(got[0])


def spans(x, credits, n, how):
    """Threads that force sampling of spans of their own, or of the same span."""
    r = h01.Rig(x)
    r.ask('a')
    h01.VALID['init'] = h01.bal(('a', credits))
    r.poll('init')
    from jaeger_client import ConstSampler
    tr = tracer(x, sampler=ConstSampler(False), throttler=r.t)
    shared = tr.start_span('a')
    made = []

    def app(i):
        def f():
            if how == 'start':
                made.append(tr.start_span('a', tags={'sampling.priority': 1}))
            else:
                s = shared if how == 'same' else tr.start_span('a')
                s.set_tag('sampling.priority', 1)
                made.append(s)
        return f
    run_threads(x, [app(i) for i in range(n)])
    debug = sum(s.is_debug() for s in set(made))
    used = min(credits, 1 if how == 'same' else n)
    x.eq(debug, used, 'debug spans with %d credits' % credits)
    left = 0
    while r.t.is_allowed('a'):
        left += 1
    x.eq(left, credits - used, 'credits left')
    x.outcome((debug, left))


CREDITS = [{}, {'a': 1}, {'a': 2}, {'a': 1.5}, {'a': 1, 'b': 1}, {'a': 3}]


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for i, c in enumerate(CREDITS):
        for asks in ('1+1', '2+1', '2+2', 'a+b', 'ab+ba', '1+1+1', 'n+n', 'n+m'):
            out.append(Scenario('ask-%s-%d' % (asks, i), race, sched=True, bound=(3 if t and asks != '1+1+1' else 2),
                                params=dict(credit=c, asks=asks, answers=[])))
    for asks in ('1', '2', 'ab', 'n', 'na', '3'):
        for i, c in enumerate(CREDITS[:3] if not t else CREDITS):
            for answers in (['a1'], ['a1b2'], ['late:a1'], ['late:a1', 'late:b.75a.25'], ['late:a.5', 'late:a.5'], ['late:e-3-1'],
                            ['e-3-2'], ['http-500'], ['late:aa']):
                out.append(Scenario('update-%s-%d-%s' % (asks, i, '+'.join(answers)), race, sched=True, bound=2 if t else 1,
                                    params=dict(credit=c, asks=asks, answers=answers)))
    for asks in ('1', 'n'):
        out.append(Scenario('update-deep-%s' % asks, race, sched=True, bound=3 if t else 2, params=dict(credit={'a': 1}, asks=asks, answers=['late:a1'])))
    for asks in ('1+1', 'n+n', 'n+m', '2+1'):
        for c in (0, 1):
            out.append(Scenario('two-update-%s-%d' % (asks, c), race, sched=True, bound=2 if t else 1,
                                params=dict(credit=CREDITS[c], asks=asks, answers=['late:a1'])))
    for n in (1, 2):
        out.append(Scenario('ids-%d' % n, ids, sched=True, bound=2 if t else 1, params=dict(n=n)))
    for how in ('start', 'set', 'same'):
        for c in (0, 1, 2):
            out.append(Scenario('spans-%s-%d' % (how, c), spans, sched=True, bound=2 if t else 1, params=dict(credits=c, n=2, how=how)))
    return out
