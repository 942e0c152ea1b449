"""S02: a rate limiter neither exceeds its rate nor starves anyone."""
import itertools
from mc import env
from mc.lib import *

RULE = ('every sequence of arrivals, bursts, pauses, wall-clock steps and rate changes x initial rate x initial credit, against '
        'an exact model and against the r*t + max(r, 1) bound on every interval; every interleaving of concurrent callers with a '
        'ticking clock and rate changes, against all sequential orders; distinct by (configuration, sequence, answers)')
BOUNDS = ('7 rates x 3 initial credits; all sequences of 4 (5 thorough) of 14 operations, of 6 (8) of 6; 260 calls 2^-3 to 2^-30 s apart in mixtures of two step sizes; 2-3 threads of 1-2 calls, '
          'preemption bound 2 (3 thorough)')
ASSUMPTIONS = ['rates and times are binary fractions, so that every evaluation order of the arithmetic is exact']

RATES = [0, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 4, 8, 64]


class Model(object):
    def __init__(self, rate, fill):
        self.rate, self.cap = rate, max(rate, 1.0)
        self.bal = self.cap * fill
        self.t = 0.0

    def settle(self, now):
        self.bal = min(self.cap, self.bal + (now - self.t) * self.rate)
        self.t = now

    def take(self, now, cost=1.0):
        self.settle(now)
        if self.bal >= cost:
            self.bal -= cost
            return True
        return False

    def update(self, now, rate):
        self.settle(now)
        cap = max(rate, 1.0)
        self.bal = self.bal * cap / self.cap
        self.rate, self.cap = rate, cap


def make(kind, rate):
    if kind == 'sampler':
        from jaeger_client.sampler import RateLimitingSampler
        s = RateLimitingSampler(rate)
        return (lambda: s.is_sampled(77, 'op')[0]), s.update
    from jaeger_client.rate_limiter import RateLimiter
    r = RateLimiter(rate, max(rate, 1.0))
    return (lambda: r.check_credit(1.0)), (lambda v: r.update(v, max(v, 1.0)))


OPS = [('take',), ('burst',), ('adv', 0.125), ('adv', 0.5), ('adv', 1.0), ('adv', 4.0), ('adv', 2.0 ** 40), ('step', -3600.0),
       ('step', 1e6)] + [('rate', r) for r in (0, 0.25, 1, 4, 8)]
OPS2 = [('take',), ('burst',), ('adv', 0.25), ('adv', 1.0), ('rate', 4), ('rate', 0.5)]
# a hair more or less than what is needed
OPS3 = [('take',), ('burst',), ('adv', 2.0 ** -30), ('adv', 0.25 - 2.0 ** -30), ('adv', 1 - 2.0 ** -30), ('adv', 2.0)]


def run_seq(x, kind, rate, fill, seq):
    env.clock.reset()
    env.rand.reset()
    env.rand.float_hook = lambda: fill
    take, update = make(kind, rate)
    m = Model(rate, fill)
    t0 = env.clock.mono
    granted = []
    rates = [(0.0, rate)]
    answers = []

    def one():
        now = env.clock.mono - t0
        got, want = take(), m.take(now)
        if got != want:
            x.fail('rate %r, initial credit %r*max: after %r, answers %r: %s a trace, the bucket holds %s'
                   % (rate, fill, seq, answers, 'sampled' if got else 'refused', m.bal + (1 if want else 0)))
        answers.append(got)
        if got:
            granted.append(now)
        return got
    for op in seq:
        if op[0] == 'take':
            one()
        elif op[0] == 'burst':
            for _ in range(20):
                if not one():
                    break
        elif op[0] == 'adv':
            env.clock.advance(op[1])
        elif op[0] == 'step':
            env.clock.step(op[1])
        elif op[0] == 'rate':
            now = env.clock.mono - t0
            update(op[1])
            if op[1] != m.rate:
                m.update(now, op[1])
            rates.append((now, op[1]))
    # the bound itself, on every interval between two sampled traces
    top = max(r for _, r in rates)
    for i in range(len(granted)):
        for j in range(i, len(granted)):
            if j - i + 1 > top * (granted[j] - granted[i]) + max(top, 1):
                x.fail('rate %r: %d traces within %r s' % (rates, j - i + 1, granted[j] - granted[i]))
    x.case()
    return tuple(answers)


def sequences(x, kind, rate, fill, ops, depth, pre):
    head = tuple(x.pick(ops) for _ in range(pre))
    for rest in itertools.product(ops, repeat=depth - pre):
        if rest[-1][0] not in ('take', 'burst'):
            continue            # an operation nobody observes
        seq = head + rest
        a = run_seq(x, kind, rate, fill, seq)
        x.state((kind, rate, fill, seq, a))
    x.outcome(head)


def starve(x, kind):
    """After an idle period of one credit - whatever came before - a trace is sampled."""
    for rate in (0.25, 0.5, 1, 2, 4, 8, 1.0 / 512, 64):
        for fill in (0.0, 0.25, 0.75):
            for before in itertools.product((0, 1, 2, 3, 5), (0, 0.125, 0.5, 1.0), (0, 1, 9)):
                env.clock.reset()
                env.rand.reset()
                env.rand.float_hook = lambda: fill
                take, update = make(kind, rate)
                n1, dt, n2 = before
                for _ in range(n1):
                    take()
                env.clock.advance(dt / rate)
                for _ in range(n2):
                    take()
                env.clock.advance(1.0 / rate)
                env.clock.step(-7200)
                x.check(take() is True, 'rate %r: starved after an idle period of %r s' % (rate, 1 / rate))
                x.case()
                x.state((rate, fill, before))


def small(x, kind):
    """Many callers a tiny step apart, in every mixture of two step sizes: time is never lost or counted twice."""
    for rate in (0.25, 1, 2, 64):
        for k in range(3, 22 if rate >= 1 else 12):
            for k2 in (k, k + 1, 2, 30):
                for every in (1, 3):
                    env.clock.reset()
                    env.rand.reset()
                    env.rand.float_hook = lambda: 0.25
                    take, update = make(kind, rate)
                    m = Model(rate, 0.25)
                    t0 = env.clock.mono
                    h = 2.0 ** -k
                    # as many calls as matter, up to 300: a pause puts the bucket right before a boundary
                    need = (1.0 - m.bal % 1.0) / rate
                    lead = need - 100 * h
                    if lead > 0:
                        env.clock.advance(lead)
                    got, want = [], []
                    for i in range(260):
                        got.append(take())
                        want.append(m.take(env.clock.mono - t0))
                        env.clock.advance(h if i % every == 0 else 2.0 ** -k2)
                    if got != want:
                        i = [a == b for a, b in zip(got, want)].index(False)
                        x.fail('rate %r, steps of 2^-%d and 2^-%d s: call %d was %s' % (rate, k, k2, i, 'sampled' if got[i] else 'refused'))
                    x.case()
                    x.state((rate, k, k2, every))


def costs(x):
    """check_credit() with other costs, as for a limit in bytes."""
    from jaeger_client.rate_limiter import RateLimiter
    for rate, cap in ((8, 16), (1, 4), (1024, 1024), (0.5, 2)):
        for fill in (0.0, 0.5):
            for seq in itertools.product([0.0, 0.5, 1.0, 4.0, 16.0, 1024.0, 2048.0, -0.25, -2.0], repeat=4):
                env.clock.reset()
                env.rand.reset()
                env.rand.float_hook = lambda: fill
                r = RateLimiter(rate, cap)
                m = Model(rate, fill)
                m.cap, m.bal = cap, cap * fill
                t0 = env.clock.mono
                for v in seq:
                    if v < 0:
                        env.clock.advance(-v)
                    else:
                        got = r.check_credit(v)
                        x.eq(got, m.take(env.clock.mono - t0, v), 'credits %r/s, at most %r: %r' % (rate, cap, seq))
                x.case()
                x.state((rate, fill, seq))


def close_rates(x):
    """One change to a rate nearby: what has accumulated is scaled all the same, and the new rate holds from then on."""
    kind = x.pick(['sampler', 'limiter'])
    rate = x.pick([2, 4, 16, 128, 256])
    new = rate + x.pick([-1, 1, -0.5, 0.5, -2.0 ** -10, 2.0 ** -10])
    for part in (0, 0.25, 0.5, 1):
        env.clock.reset()
        env.rand.reset()
        env.rand.float_hook = lambda: 0.5
        take, update = make(kind, rate)
        m = Model(rate, 0.5)
        t0 = env.clock.mono
        env.clock.advance(8)
        now = env.clock.mono - t0
        for _ in range(int(rate * (1 - part))):
            x.eq(take(), m.take(now), 'before the change')
        update(new)
        m.update(now, new)
        for wait in (0, 0, 1, 0.25, 8):
            env.clock.advance(wait)
            now = env.clock.mono - t0
            got = want = 0
            while take():
                got += 1
            while m.take(now):
                want += 1
            x.eq(got, want, 'rate %r changed to %r with %s of the credits left: traces sampled at once, %s s after the last' % (rate, new, part, wait))
            x.case()
    x.state((kind, rate, new))


def pump(x):
    """Long histories: large rates, many calls, many rate changes."""
    kind = x.pick(['sampler', 'limiter'])
    rates = x.pick([(128,), (256,), (300,), (2048,), (1, 2, 4), (0.25, 256), (2, 0, 64)])
    step = x.pick([2.0 ** -9, 2.0 ** -5, 0.25, 2.0])
    env.clock.reset()
    env.rand.reset()
    env.rand.float_hook = lambda: 0.5
    take, update = make(kind, rates[0])
    m = Model(rates[0], 0.5)
    t0, n, every = env.clock.mono, 2500, x.pick([1, 100, 700])
    for i in range(n):
        if i % 3 or every == 1:
            env.clock.advance(step)
        now = env.clock.mono - t0
        if len(rates) > 1 and i % every == every - 1:
            r = rates[(i // every) % len(rates)]
            update(r)
            if r != m.rate:
                m.update(now, r)
        got, want = take(), m.take(now)
        if got != want:
            x.fail('rates %r, call %d, %s s apart: %s, the bucket holds %s' % (rates, i, step, 'sampled' if got else 'refused', m.bal + (1 if want else 0)))
    x.case(n)
    x.state((kind, rates, step, every))


# --- concurrency ----------------------------------------------------------------------------------
PROGRAMS = {
    '2x1': [['t'], ['t']],
    '2x2': [['t', 't'], ['t', 't']],
    '3x1': [['t'], ['t'], ['t']],
    'tick': [['t'], ['t'], ['+1']],
    'tick2': [['t', 't'], ['+1', '+1']],
    'up': [['t', 't'], ['r8']],
    'down': [['t', 't'], ['r1']],
    'updown': [['r8'], ['r1'], ['t']],
    'tick-up': [['t'], ['+1'], ['r8']],
    'tick-down': [['t'], ['+1'], ['r0.5']],
    'two-up': [['r8'], ['r8'], ['t']],
}


def sequential(progs, rate, fill, final):
    """All outcomes of running the programs one operation after the other."""
    out = set()

    def go(pos, hist):
        moves = [i for i in range(len(progs)) if pos[i] < len(progs[i])]
        if not moves:
            out.add(play(hist))
            return
        for i in moves:
            go(pos[:i] + (pos[i] + 1,) + pos[i + 1:], hist + [(i, progs[i][pos[i]])])

    def play(hist):
        m = Model(rate, fill)
        now = 0.0
        ans = {i: [] for i in range(len(progs))}
        for i, op in hist:
            if op == 't':
                ans[i].append(m.take(now))
            elif op[0] == '+':
                now += float(op[1:])
            else:
                if float(op[1:]) != m.rate:
                    m.update(now, float(op[1:]))
        n = 0
        while m.take(now) and n < 40:
            n += 1
        return tuple(tuple(ans[i]) for i in range(len(progs))) + (n, m.rate)
    go((0,) * len(progs), [])
    return out


def race(x, prog, kind, rate, fill):
    progs = PROGRAMS[prog]
    env.rand.float_hook = lambda: fill
    take, update = make(kind, rate)
    ans = {i: [] for i in range(len(progs))}

    def body(i):
        def f():
            for op in progs[i]:
                if op == 't':
                    ans[i].append(take())
                elif op[0] == '+':
                    env.clock.advance(float(op[1:]))
                else:
                    update(float(op[1:]))
        return f
    run_threads(x, [body(i) for i in range(len(progs))])
    n = 0
    while take() and n < 40:
        n += 1
    last = [float(op[1:]) for p in progs for op in p if op[0] == 'r']
    got = tuple(tuple(ans[i]) for i in range(len(progs))) + (n,)
    want = sequential(progs, rate, fill, None)
    x.check(got in {w[:-1] for w in want}, '%s at rate %r: answers %r and then %d more; one after the other: %r'
            % (progs, rate, got[:-1], n, sorted(want)))
    # and the rate that is in force afterwards is one of those set
    env.clock.advance(1024.0)
    k = 0
    while take() and k < 40:
        k += 1
    x.check(k in {int(max(w[-1], 1)) for w in want if w[:-1] == got}, 'burst of %d after the changes %r' % (k, last))
    x.outcome(got + (k,))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for rate in RATES:
        for fill in (0.0, 0.5, 0.75):
            out.append(Scenario('seq-%s-%s' % (rate, fill), sequences, params=dict(
                kind='sampler', rate=rate, fill=fill, ops=OPS, depth=5 if t else 4, pre=2 if t else 1)))
    for kind in ('sampler', 'limiter'):
        for rate in (4, 0.5):
            out.append(Scenario('long-%s-%s' % (kind, rate), sequences, params=dict(
                kind=kind, rate=rate, fill=0.5, ops=OPS2, depth=8 if t else 6, pre=3 if t else 2)))
        for rate in (1, 4, 0.5):
            out.append(Scenario('hair-%s-%s' % (kind, rate), sequences, params=dict(
                kind=kind, rate=rate, fill=0.5, ops=OPS3, depth=7 if t else 6, pre=2)))
        out.append(Scenario('starve-%s' % kind, starve, params=dict(kind=kind)))
        out.append(Scenario('small-%s' % kind, small, params=dict(kind=kind)))
    out += [Scenario('costs', costs), Scenario('pump', pump), Scenario('close-rates', close_rates)]
    for prog in sorted(PROGRAMS):
        for kind in ('sampler', 'limiter'):
            if kind == 'limiter' and 'r' in ''.join(o for p in PROGRAMS[prog] for o in p) and not t:
                continue
            for rate, fill in ((1, 0.5), (2, 0.75), (4, 0.25)) if t else ((2, 0.75), (1, 0.5)):
                out.append(Scenario('race-%s-%s-%s' % (prog, kind, rate), race, sched=True,
                                    bound=(3 if t else 2) if len(PROGRAMS[prog]) < 3 else (2 if t else 1),
                                    params=dict(prog=prog, kind=kind, rate=rate, fill=fill)))
    return out
