"""G02: initialize_tracer() initializes once."""
from mc import env, net
from mc.lib import *

RULE = ('every sequence of attempts that succeed or fail at some stage, and every interleaving of attempts in 2-3 threads; the global '
        'tracer and initialized() are compared with the results; distinct by (attempts, results)')
BOUNDS = ('%s; preemption bound 1 for 2 threads (2 thorough), 1 for 3 threads')
FAIL = {
    'sampler-type': {'sampler': {'type': 'lucky'}}, 'sampler-rate': {'sampler': {'type': 'probabilistic', 'param': 7}},
    'queue': {'reporter_queue_size': 1}, 'batch': {'reporter_batch_size': 'x'}, 'metrics': {}, 'socket': {}, 'loop': {}, 'interrupt': {},
    'codec': {'trace_id_header': 7}, 'tags': {'tags': 5}, 'exit': {}}
GOOD = {'ok': {}, 'ok-const': {'sampler': {'type': 'const', 'param': 1}}, 'ok-throttler': {'throttler': {}, 'sampler': {'type': 'const', 'param': 0}},
        'ok-logging': {'logging': True}}
BOUNDS = BOUNDS % ('sequences of 3 (4 thorough) attempts of %d kinds' % (len(FAIL) + len(GOOD)))


def attempt(x, kind, res, i):
    """One call of initialize_tracer(): ('tracer', t), ('none',) or ('raise', e)."""
    from jaeger_client import Config
    from jaeger_client.metrics import MetricsFactory
    w = x.world

    class Bad(MetricsFactory):
        def create_counter(self, name, tags=None):
            raise RuntimeError('backend')
    kw = {'metrics_factory': Bad()} if kind == 'metrics' else {}
    c = Config(dict(GOOD.get(kind, FAIL.get(kind, {}))), service_name='svc%d' % i, **kw)
    loop = w.io_loop
    if kind == 'loop':
        class NoLoop(object):
            def add_callback(self, *a, **k):
                raise RuntimeError('closed')
            spawn_callback = call_later = add_callback
        loop = NoLoop()
    if kind in ('socket', 'interrupt', 'exit'):
        exc = {'socket': OSError(24, 'too many files'), 'interrupt': KeyboardInterrupt(), 'exit': SystemExit(1)}[kind]

        class Boom(object):
            def __getattr__(self, n):
                raise exc
        loop = Boom()
    try:
        t = c.initialize_tracer(io_loop=loop)
    except BaseException as e:    # noqa
        if type(e).__module__.startswith('mc.'):
            raise
        res.append((i, 'raise', e))
        return
    res.append((i, 'none', None) if t is None else (i, 'tracer', t))


def judge(x, res, kinds, before=None):
    import opentracing
    from jaeger_client import Config, Tracer
    made = [r for r in res if r[1] == 'tracer']
    g = opentracing.global_tracer()
    x.check(len(made) <= 1, '%r: %d attempts returned a tracer' % (kinds, len(made)))
    for i, what, v in res:
        if what == 'raise':
            x.check(kinds[i] in FAIL, '%r: %s raised %r' % (kinds, kinds[i], v))
        if what == 'tracer':
            x.check(isinstance(v, Tracer) and v.service_name == 'svc%d' % i, '%r: the tracer of attempt %d is that of %r' % (kinds, i, v))
    x.eq(Config.initialized(), bool(made), '%r: initialized()' % (kinds,))
    if made:
        x.check(g is made[0][2], '%r: the global tracer is not the one that was returned' % (kinds,))
        s = g.start_span('op')
        s.finish()
    else:
        x.check(not isinstance(g, Tracer) or g is before, '%r: a tracer was installed that nobody got' % (kinds,))
        x.check(any(r[1] == 'raise' for r in res) or not res, '%r: nobody failed and nobody succeeded: %r' % (kinds, res))


def sequence(x, depth):
    kinds, res = [], []
    for i in range(depth):
        k = x.pick(sorted(FAIL) + sorted(GOOD))
        kinds.append(k)
        done = any(r[1] == 'tracer' for r in res)
        attempt(x, k, res, i)
        what = res[-1][1]
        if done:
            x.check(what != 'tracer' and (k in FAIL or what == 'none'), '%r: the last attempt gave %s' % (kinds, what))
        else:
            x.eq(what, 'tracer' if k in GOOD else 'raise', '%r: the last attempt' % (kinds,))
        judge(x, res, kinds)
        x.state((tuple(kinds), tuple(r[1] for r in res)))
    x.outcome(tuple(r[1] for r in res))


def race(x, kinds):
    res = []
    x.world.io_loop

    def body(i):
        return lambda: attempt(x, kinds[i], res, i)
    run_threads(x, [body(i) for i in range(len(kinds))])
    x.check(len(res) == len(kinds), 'an attempt did not end')
    judge(x, res, kinds)
    first = sorted((i, w) for i, w, _ in res)
    # whatever happened, it can be initialized now, unless it is
    attempt(x, 'ok', res, len(kinds))
    had = any(w == 'tracer' for _, w in first)
    x.eq(res[-1][1], 'none' if had else 'tracer', '%r gave %r; a further attempt' % (kinds, first))
    judge(x, res, list(kinds) + ['ok'])
    x.outcome(tuple(w for _, w in first))


def ask(x, kinds):
    """initialized() asked meanwhile never raises, and once true it stays true if nobody fails."""
    from jaeger_client import Config
    res, seen = [], []
    x.world.io_loop

    def asker():
        seen.append(Config.initialized())
        seen.append(Config.initialized())
    run_threads(x, [lambda: attempt(x, kinds[0], res, 0), asker])
    judge(x, res, kinds)
    if kinds[0] in GOOD:
        x.check(not (seen[0] and not seen[1]), 'initialized() answered %r' % seen)
    x.check(all(isinstance(s, bool) for s in seen), 'initialized() answered %r' % seen)


def others(x):
    """new_tracer() and create_tracer() initialize nothing."""
    import opentracing
    from jaeger_client import Config, ConstSampler, Tracer
    from jaeger_client.reporter import NullReporter
    res = []
    first = x.pick([None, 'ok', 'queue'])
    if first:
        attempt(x, first, res, 0)
    g = opentracing.global_tracer()
    how = x.pick(['new', 'create', 'config'])
    c = Config({}, service_name='other')
    if how == 'new':
        t = c.new_tracer(x.world.io_loop)
    elif how == 'create':
        t = c.create_tracer(NullReporter(), ConstSampler(True))
    else:
        t = None
    x.check(t is None or isinstance(t, Tracer), 'no tracer')
    x.check(opentracing.global_tracer() is g, 'the global tracer was replaced')
    judge(x, res, [first])
    attempt(x, 'ok', res, 1)
    x.eq(res[-1][1], 'none' if first == 'ok' else 'tracer', 'after %s' % how)


def foreign(x):
    """The application registers global tracers of its own before and after."""
    import opentracing
    from jaeger_client import Config, Tracer
    res = []
    mine, later = opentracing.Tracer(), opentracing.Tracer()
    who = x.pick(['default', 'other', 'jaeger'])
    if who == 'jaeger':
        mine = tracer(x)
    if who != 'default':
        opentracing.set_global_tracer(mine)
        x.check(Config.initialized() is False, 'initialized() by a tracer of somebody else')
    kinds = [x.pick(['ok', 'ok-const', 'queue', 'sampler-type', 'metrics', 'interrupt']), x.pick(['ok', 'queue'])]
    before = opentracing.global_tracer()
    attempt(x, kinds[0], res, 0)
    if kinds[0] in FAIL:
        x.eq(res[0][1], 'raise', kinds[0])
        x.check(opentracing.global_tracer() is before, '%r: a failed attempt replaced the global tracer' % kinds)
    judge(x, res, kinds, before)
    replaced = x.choose(3)
    if replaced == 2:
        later = tracer(x)
    if replaced:
        opentracing.set_global_tracer(later)
    attempt(x, kinds[1], res, 1)
    if res[0][1] == 'tracer':
        x.check(res[1][1] != 'tracer', '%r: two tracers' % kinds)
        x.check(opentracing.global_tracer() is (later if replaced else res[0][2]), '%r: the global tracer was replaced by a later attempt' % kinds)
    else:
        judge(x, res, kinds, later if replaced else before)
    x.state((who, tuple(kinds), replaced))


def pump(x):
    """However many attempts fail, the next one may succeed; however many follow, none does."""
    res, kinds = [], []
    one = x.pick(sorted(FAIL) + ['all'])
    n = x.pick([2, 10, 100])
    for i in range(n):
        k = sorted(FAIL)[i % len(FAIL)] if one == 'all' else one
        kinds.append(k)
        attempt(x, k, res, i)
        x.eq(res[-1][1], 'raise', 'attempt %d (%s)' % (i, k))
    judge(x, res, kinds)
    for i in range(20):
        kinds.append('ok')
        attempt(x, 'ok', res, n + i)
        x.eq(res[-1][1], 'none' if i else 'tracer', 'attempt %d to succeed after %d failed ones (%s)' % (i, n, one))
    judge(x, res, kinds)
    x.case()
    x.state((one, n))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('sequence', sequence, params=dict(depth=4 if t else 3)), Scenario('others', others), Scenario('foreign', foreign)]
    two = [('ok', 'ok'), ('ok', 'ok-const'), ('ok-const', 'queue'), ('queue', 'ok'), ('sampler-type', 'ok-const'), ('metrics', 'ok'), ('interrupt', 'ok'),
           ('queue', 'queue'), ('ok-logging', 'ok-throttler'), ('sampler-rate', 'metrics'), ('loop', 'ok-const')]
    for k in two:
        out.append(Scenario('race-%s+%s' % k, race, sched=True, bound=2 if t else 1, params=dict(kinds=list(k))))
    for k in [('ok-const', 'ok-const', 'queue'), ('ok', 'ok', 'ok'), ('sampler-type', 'sampler-type', 'ok-const'), ('queue', 'metrics', 'ok')]:
        out.append(Scenario('race3-%s+%s+%s' % k, race, sched=True, bound=1, params=dict(kinds=list(k))))
    for k in ('ok', 'queue', 'sampler-type'):
        out.append(Scenario('ask-%s' % k, ask, sched=True, bound=2 if t else 1, params=dict(kinds=[k])))
    return out + [Scenario('pump', pump)]
