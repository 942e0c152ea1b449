"""S06: sampling decisions made while a strategy is replaced belong to the old or to the new strategy."""
import json
from mc import env, net
from mc.lib import *
from mc.checks import s04

RULE = ('every interleaving of sampling threads with the loop thread that applies an answer of the agent, for every transition '
        'between kinds of strategies; decisions, tags and everything decided afterwards must equal those of one of the '
        'sequential orders in an exact model; distinct by (transition, answers)')
BOUNDS = ('36 transitions x (1 thread of 2 decisions; 2 threads of 1 decision), preemption bound 1 (2 thorough), one deeper for 3 '
          'of them; concurrent discoveries of operations; pairs of updates')
M = 1 << 64
FIRST = {'const': ('const', None), 'p': ('p0.25', None), 'r': ('default', 'r4'), 'r2': ('r2', None), 'a': ('default', 'a1'),
         'a-own': ('adaptive', None)}
THEN = ['p0.5', 'r2', 'a2', 'a3', 'op-rate-1-1', 'p1']
ASKS = {'1x2': [[('a', M // 2 - 1), ('a', M - 1)]],
        '2x1': [[('a', M - 1)], [('b', M // 4)]],
        '2x1n': [[('n', M - 1)], [('c', M // 2 - 1)]],
        '1x2n': [[('n', M - 1), ('a', 1)]],
        '3x1': [[('x', M - 1)], [('y', M - 1)], [('z', M - 1)]],
        '2x2': [[('x', M - 1), ('x', 1)], [('y', M - 1), ('a', M - 1)]],
        'same': [[('x', M - 1)], [('x', M - 1)]],
        'same2': [[('a', M - 1)], [('a', M - 1)]]}
DEEP = [('r', 'r2'), ('p', 'p0.5'), ('const', 'r2')]
AFTER = [('a', M - 1), ('b', M - 1), ('n', 1), ('c', M - 1), ('x', M - 1), ('y', M - 1), ('a', 1)]


def norm(ans):
    return (True, tuple(sorted(ans[1].items()))) if ans[0] else (False, None)


def sequential(init, fill, max_ops, first, name, asks, now0, now):
    """Every sequential order: {(answers per thread, answers afterwards): order}."""
    out = {}
    progs = [list(a) for a in asks] + ([[name]] if name else [])

    def go(pos, hist):
        moves = [i for i in range(len(progs)) if pos[i] < len(progs[i])]
        if not moves:
            m = s04.Cur(init if init != 'default' else 'p0.001', max_ops, fill)
            if first:
                m.apply(first, now0)
            ans = [[] for _ in asks]
            for i, op in hist:
                if i == len(asks):
                    if s04.response(op)[0] == 'valid':
                        m.apply(op, now)
                else:
                    ans[i].append(norm(m.ask(op[0], op[1], now)))
            aft = tuple(norm(m.ask(o, t, now)) for o, t in AFTER)
            out.setdefault((tuple(map(tuple, ans)), aft), [h[0] for h in hist])
            return
        for i in moves:
            go(pos[:i] + (pos[i] + 1,) + pos[i + 1:], hist + [(i, progs[i][pos[i]])])
    go((0,) * len(progs), [])
    return out


def race(x, start, name, asks, fill, max_ops):
    init, first = FIRST[start]
    r = s04.Rig(x, init, max_ops=max_ops, fill=fill)
    w = x.world
    now0 = None
    if first:
        r.poll(first, True)
        now0 = env.clock.mono
    progs = ASKS[asks]
    ans = [[] for _ in progs]

    def app(i):
        def f():
            for op, tid in progs[i]:
                ans[i].append(norm(r.s.is_sampled(tid, op)))
        return f
    bodies = [app(i) for i in range(len(progs))]
    names = ['app%d' % i for i in range(len(progs))]
    if name:
        r.todo.append(name)
        env.clock.mono += s04.INTERVAL / (1 if first else 2)

        def loop():
            for _ in range(4):
                w.vloop.step()
            while w.vloop.ready():
                w.vloop.step()
        bodies.append(loop)
        names.append('loop')
    now = env.clock.mono
    run_threads(x, bodies, names=names)
    x.check(not r.todo, 'no request')
    aft = tuple(norm(r.s.is_sampled(t, o)) for o, t in AFTER)
    got = (tuple(map(tuple, ans)), aft)
    want = sequential(init, fill, max_ops, first, name, progs, now0, now)
    x.check(got in want, '%s to %s: decisions %r, afterwards %r: no order of %r and the update gives that: %r'
            % (start, name, got[0], got[1], progs, sorted(map(repr, want))[:4]))
    x.outcome(got[0])


def two_updates(x, a, b):
    """Two answers one after the other while another thread samples."""
    r = s04.Rig(x, 'default', max_ops=3, fill=0.75)
    w = x.world
    r.poll('late:' + a, True)
    r.poll('late:' + b, False)
    ans = []

    def app():
        for op, tid in (('a', M - 1), ('a', M // 2 - 1)):
            ans.append(norm(r.s.is_sampled(tid, op)))

    def loop():
        for n, f, res, exc in r.late:
            f.set_result(res)
            while w.vloop.ready():
                w.vloop.step()
    run_threads(x, [app, loop], names=['app', 'loop'])
    now = env.clock.mono
    aft = tuple(norm(r.s.is_sampled(t, o)) for o, t in AFTER)
    ok = set()
    for i in range(3):
        for j in range(i, 3):
            m = s04.Cur('p0.001', 3, 0.75)
            out = []
            for k in range(3):
                if i == k:
                    out.append(norm(m.ask('a', M - 1, now)))
                if j == k:
                    out.append(norm(m.ask('a', M // 2 - 1, now)))
                if k < 2 and s04.response((a, b)[k])[0] == 'valid':
                    m.apply((a, b)[k], now)
            ok.add((tuple(out), tuple(norm(m.ask(o, t, now)) for o, t in AFTER)))
    x.check((tuple(ans), aft) in ok, '%s then %s: decisions %r, afterwards %r' % (a, b, ans, aft))
    x.outcome(tuple(ans))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for start in sorted(FIRST):
        for name in THEN:
            kinds = ['1x2', '2x1'] + (['2x1n', '1x2n'] if t or start == 'a' or (start, name) == ('r', 'a2') else [])
            if not t and (name == 'p1' or start in ('r2', 'a-own')):
                kinds = ['1x2']     # alike to another one
            for asks in kinds:
                one = asks[0] == '1'
                deep = asks == '1x2' and (start, name) in DEEP
                out.append(Scenario('%s-%s-%s' % (start, name, asks), race, sched=True, bound=(3 if deep else 2) if t else (2 if deep else 1),
                                    params=dict(start=start, name=name, asks=asks, fill=0.75, max_ops=3)))
    for asks in ('3x1', '2x2', 'same', 'same2'):
        for mo in (1, 2, 3):
            out.append(Scenario('discover-%s-%d' % (asks, mo), race, sched=True, bound=2 if t else 1,
                                params=dict(start='a', name=None, asks=asks, fill=0.5, max_ops=mo)))
        out.append(Scenario('limit-%s' % asks, race, sched=True, bound=2 if t else 1,
                            params=dict(start='r', name=None, asks=asks, fill=0.5, max_ops=3)))
        if t or asks != '3x1':
            out.append(Scenario('discover-update-%s' % asks, race, sched=True, bound=1,
                                params=dict(start='a', name='a3', asks=asks, fill=0.5, max_ops=3)))
    for a, b in (('r4', 'a1'), ('a1', 'p0.5'), ('r4', 'r2'), ('a1', 'a3'), ('a2', 'op-rate-1-1'), ('p0.5', 'r4')):
        out.append(Scenario('two-%s-%s' % (a, b), two_updates, sched=True, bound=2 if t else 1, params=dict(a=a, b=b)))
    return out
