"""M02: metrics factories deliver every value to the right metric."""
import itertools
from mc import env
from mc.lib import *

RULE = ('every sequence of creations of metrics (kind x name x tags x factory) and updates of the ones created, against a model; the '
        'metrics of a tracer through each factory against a recording factory; interleavings of threads creating and updating; '
        'distinct by sequence')
BOUNDS = 'Prometheus: sequences of 3 (4 thorough) steps of 40; legacy: the same without registry; threads: preemption bound 2 (3)'
ASSUMPTIONS = ['as Prometheus demands, a metric name always has the same kind and tag names, and the tag "service" is not used together '
               'with a service name label', 'counters are not decremented']
SEQ = itertools.count()
TAGSETS = {
    'none': None, 'empty': {}, 'ok': {'result': 'ok'}, 'err': {'result': 'err'}, 'blank': {'result': ''},
    'ab': {'a': '1', 'b': '2'}, 'ba': {'b': '2', 'a': '1'}, 'swap': {'a': '2', 'b': '1'}, 'sep': {'a': '1.b_2', 'b': '2'}, 'quote': {'result': '"x"\n'},
    'uni': {'result': u'\u00e9'}, 'num': {'result': 1}, 'bool': {'result': True}, 'zero': {'result': 0}, 'false': {'result': False},
    'null': {'result': None}, 'at': {'b': '2@@', 'a': '@@1'}}
# name -> tag sets with the same tag names
NAMES = {'m': ['none', 'empty'], 'jaeger:r': ['ok', 'err', 'blank', 'quote', 'uni', 'num', 'bool', 'zero', 'false', 'null'], 'p': ['ab', 'ba', 'swap', 'at', 'sep']}
# names and tag names whose concatenation is ambiguous
AMBIGUOUS = [('x', {'ab': '1'}), ('xa', {'b': '1'}), ('xab', None), ('y', {'a': '1', 'b': '2'}), ('ya', {'b': '1'}), ('y_a', {'b': '2'}),
             ('yb', {'a': '1'}), ('x_', {'ab': '2'})]


def registry():
    import prometheus_client
    r = prometheus_client.REGISTRY
    return r


def clean():
    """Default collectors read /proc and cost time."""
    r = registry()
    for c in list(r._collector_to_names):
        r.unregister(c)


def samples(prefix=''):
    out = {}
    for fam in registry().collect():
        for s in fam.samples:
            if s.name.endswith('_created'):
                continue
            out[(s.name, tuple(sorted(s.labels.items())))] = s.value
    return out


class Prom(object):
    def __init__(self, x, factories):
        from jaeger_client.metrics.prometheus import PrometheusMetricsFactory
        clean()
        self.x, self.pre = x, 'q%d_' % next(SEQ)
        self.fs = [(PrometheusMetricsFactory(**kw), kw) for kw in factories]
        self.model = {}
        self.made = []
        self.kinds = {}

    def create(self, kind, name, tags, f=0, mutate=False):
        fac, kw = self.fs[f]
        given = None if tags is None else dict(tags)
        shown = repr(given)
        fn = getattr(fac, 'create_' + kind)(self.pre + name, given)
        self.x.check(repr(given) == shown and (given is None or list(given) == list(tags)), 'the given tags were modified: %s' % given)
        labels = {k: str(v) for k, v in (tags or {}).items()}
        if mutate and given is not None:
            given.clear()
            given['later'] = 'x'
        if kw.get('service_name_label'):
            labels['service'] = kw['service_name_label']
        full = (kw.get('namespace', '') + '_' if kw.get('namespace') else '') + self.pre + name + ('_total' if kind == 'counter' else '')
        key = (full, tuple(sorted(labels.items())))
        self.model.setdefault(key, 0.0)
        self.made.append((kind, fn, key))

    def update(self, i, v):
        kind, fn, key = self.made[i]
        fn(v)
        if kind == 'counter':
            self.model[key] += v
        elif kind == 'gauge':
            self.model[key] = float(v)

    def judge(self, what):
        got = samples()
        if got != self.model:
            diff = {k: (got.get(k), self.model.get(k)) for k in set(got) | set(self.model) if got.get(k) != self.model.get(k)}
            self.x.fail('%s: (got, expected) %r' % (what, diff))


FACTORIES = {'plain': [{}], 'label': [{'service_name_label': 'svc1'}], 'ns': [{'namespace': 'ns'}],
             'two-labels': [{'service_name_label': 'svc1'}, {'service_name_label': 'svc2'}], 'two-same': [{}, {}],
             'two-ns': [{'namespace': 'n1'}, {'namespace': 'n2'}], 'both': [{'namespace': 'n', 'service_name_label': 's 1'}, {'namespace': 'n', 'service_name_label': 's2'}]}


def sequence(x, fs, name, kind, depth):
    p = Prom(x, FACTORIES[fs])
    acts = [('c', t, f) for t in NAMES[name] for f in range(len(p.fs))]
    seq = []
    for i in range(depth):
        n = len(p.made)
        a = x.pick(acts + [('u', j, v) for j in range(n) for v in (1 + j, 0)])
        seq.append(a)
        what = '%s %s, factories %s: %r' % (kind, name, fs, seq)
        try:
            if a[0] == 'c':
                p.create(kind, name, TAGSETS[a[1]], a[2], mutate=i % 2 == 1)
            else:
                p.update(a[1], a[2])
        except ValueError as e:
            x.fail('%s: %s' % (what, e))
    for j in range(len(p.made)):
        p.update(j, 1 << j)
    what = '%s %s, factories %s: %r' % (kind, name, fs, seq)
    p.judge(what)
    for j in range(len(p.made)):
        p.update(j, (0, 0.5, 0.0, 2 ** 40)[j % 4] if kind == 'counter' else (0, -2.5, 0.0, 1e-9, float('inf'))[j % 5])
    p.judge(what)
    x.state((fs, name, kind, tuple(seq)))


def mixed(x, depth):
    """Several names and kinds; ambiguous concatenations."""
    p = Prom(x, FACTORIES[x.pick(['plain', 'label', 'two-labels'])])
    seq = []
    for i in range(depth):
        n, t = x.pick(AMBIGUOUS)
        kind = 'counter' if n[0] == 'x' else 'gauge'
        f = i % len(p.fs)
        seq.append((kind, n, t))
        try:
            p.create(kind, n, t, f)
        except ValueError as e:
            x.fail('%r: %s' % (seq, e))
    for j in range(len(p.made)):
        p.update(j, 3 + j)
        p.judge('%r' % seq)
    x.state(tuple(map(str, seq)))


def timer(x):
    """Timers may be created and updated without an effect on other metrics."""
    p = Prom(x, FACTORIES['label'])
    p.create('counter', 'm', None)
    t = p.fs[0][0].create_timer('t', {'a': 'b'})
    t(5.0)
    p.update(0, 2)
    p.judge('timer')


# -- legacy ------------------------------------------------------------------------------------------------------------------

def legacy(x, depth):
    from jaeger_client.metrics import LegacyMetricsFactory, Metrics
    calls = []
    absent = x.pick([(), ('count',), ('gauge', 'timing'), ('count', 'gauge', 'timing')])
    bad = x.choose(2)
    kw = {}
    for k in ('count', 'gauge', 'timing'):
        if k in absent:
            if bad:
                kw[k] = 17
        else:
            kw[k] = lambda key, v, k=k: calls.append((k, key, v))
    f = LegacyMetricsFactory(Metrics(**kw))
    made, want = [], []
    for i in range(depth):
        name = x.pick(['m', 'jaeger:r', 'p'])
        ts = x.pick(NAMES[name])
        kind = x.pick(['counter', 'gauge', 'timer'])
        tags = TAGSETS[ts]
        given = None if tags is None else dict(tags)
        fn = getattr(f, 'create_' + kind)(name, given) if i % 2 else getattr(f, 'create_' + kind)(name=name, tags=given)
        x.check(given == tags and (given is None or list(given) == list(tags)), 'the given tags were modified')
        if given:
            given.clear()
        key = name + ''.join('.%s_%s' % (k, tags[k]) for k in sorted(tags or {}))
        made.append((fn, kind, key))
    for n, (fn, kind, key) in enumerate(made + made[::-1]):
        v = (1500 + n * 250, 0, -1, 0.5, 1, 999.75)[n % 6]
        fn(v)
        what = {'counter': 'count', 'gauge': 'gauge', 'timer': 'timing'}[kind]
        if what not in absent:
            want.append((what, key, v / 1000.0 if kind == 'timer' else v))
    x.eq(calls, want, 'calls of the legacy metrics')
    x.state((absent, bad, tuple(m[1:] for m in made)))


# -- through a tracer --------------------------------------------------------------------------------------------------------

def exercise(x, tr, w):
    from jaeger_client import SpanContext
    w.run_ready()
    for i in range(3):
        tr.start_span('a').finish()
    tr.start_span('b', child_of=SpanContext(5, 6, 7, 1), tags={'span.kind': 'server'}).finish()
    tr.start_span('b', child_of=SpanContext(5, 6, 7, 0)).finish()
    s = tr.start_span('f')
    s.set_tag('sampling.priority', 1)
    s.finish()
    for i in range(14):
        tr.start_span('q', child_of=SpanContext(5, 6, 7, 1)).finish()
    w.advance(40)
    tr.start_span('z', child_of=SpanContext(5, 6, 7, 1)).finish()
    w.advance(40)
    tr.close()
    w.advance(2)


def through(x):
    """The same work with a recording, a Prometheus and a legacy factory in every order."""
    from jaeger_client import Config
    from jaeger_client.metrics import Metrics
    from jaeger_client.metrics.prometheus import PrometheusMetricsFactory
    from mc.world import CallTrace
    w = x.world
    clean()
    ns = 'ns%d' % next(SEQ)
    order = x.pick(list(itertools.permutations(['record', 'prom', 'prom-again', 'legacy'])))
    share = x.choose(2)
    w.net.on_http = lambda url, kw: w.http_future(exc=OSError(1, 'x'))
    rec, legacy_calls = CallTrace(), {}
    shared = PrometheusMetricsFactory(namespace=ns, service_name_label='svc')

    def legacy_count(k, v):
        legacy_calls[k] = legacy_calls.get(k, 0) + v
    n_prom = 0
    for o in order:
        env.rand.reset()
        kw = {}
        if o == 'record':
            kw['metrics_factory'] = rec.factory()
        elif o == 'legacy':
            kw['metrics'] = Metrics(count=legacy_count, gauge=lambda k, v: None)
        else:
            n_prom += 1
            kw['metrics_factory'] = shared if share else PrometheusMetricsFactory(namespace=ns, service_name_label='svc' if share or n_prom == 1 else 'other')
        cfg = {'throttler': {}, 'reporter_queue_size': 11, 'sampling_refresh_interval': 30}
        try:
            tr = Config(cfg, service_name='svc', **kw).new_tracer(w.io_loop)
        except ValueError as e:
            x.fail('order %r: no tracer: %s' % (order, e))
        exercise(x, tr, w)
    x.check(len(rec.counters) >= 6, 'only %r' % rec.counters)
    got = samples()
    for key, v in rec.counters.items():
        parts = key.split('|')
        tags = dict(p.split('=', 1) for p in parts[1:])
        x.eq(legacy_calls.get(parts[0] + ''.join('.%s_%s' % (k, tags[k]) for k in sorted(tags))), v, 'legacy %s' % key)
        for svc in (['svc'] if share else ['svc', 'other']):
            lab = tuple(sorted(dict(tags, service=svc).items()))
            x.eq(got.get(('%s_%s_total' % (ns, parts[0]), lab)), v * (2.0 if share else 1.0), 'Prometheus %s of %s' % (key, svc))
    names = {k.split('|')[0] for k in rec.counters} | {k.split('|')[0] for k in rec.gauges}
    total = sum(v for k, v in got.items() if k[0].endswith('_total'))
    x.eq(total, 2.0 * sum(rec.counters.values()), 'sum of all Prometheus counters')
    x.eq(sum(legacy_calls.values()), sum(rec.counters.values()), 'sum of all legacy counters')
    x.state((order, share))


def parts(x):
    """Each part that takes the deprecated metrics object, built by hand."""
    from jaeger_client import Tracer, ConstSampler, RemoteControlledSampler
    from jaeger_client.reporter import Reporter
    from jaeger_client.metrics import Metrics, LegacyMetricsFactory
    from mc.world import CallTrace
    w = x.world
    calls = {}

    def count(k, v):
        calls[k] = calls.get(k, 0) + v
    style = x.pick(['metrics', 'factory', 'both', 'recorder'])
    answer = x.choose(3)
    fail = x.choose(2)

    def http(url, kw):
        if answer == 0:
            return w.http_future(exc=OSError(1, 'x'))
        resp = type('Response', (), {})()
        resp.body = b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}' if answer == 1 else b'{'
        return w.http_future(resp)
    w.net.on_http = http

    def on_send(data, addr):
        if fail:
            raise OSError(111, 'refused')
    w.net.on_send = on_send
    m = Metrics(count=count, gauge=count)
    rec = CallTrace()
    kw = {'metrics': {'metrics': m}, 'factory': {'metrics_factory': LegacyMetricsFactory(m)},
          'both': {'metrics_factory': LegacyMetricsFactory(m), 'metrics': Metrics(count=lambda k, v: x.fail('the metrics object is used'))},
          'recorder': {'metrics_factory': rec.factory()}}[style]
    ch = sender(x)
    rep = Reporter(ch, queue_capacity=4, batch_size=2, flush_interval=1, **kw)
    samp = RemoteControlledSampler(ch, 'svc', init_sampler=ConstSampler(True), **kw)
    tr = Tracer('svc', rep, samp, **kw)
    w.run_ready()
    for i in range(9):
        tr.start_span('o').finish()
    w.advance(200)
    tr.close()
    w.advance(5)
    got = dict(calls)
    if style == 'recorder':
        for k, v in rec.counters.items():
            q = k.split('|')
            got[q[0] + ''.join('.' + t.replace('=', '_') for t in q[1:])] = v
    sent = got.get('jaeger:reporter_spans.result_%s' % ('err' if fail else 'ok'), 0)
    x.eq(sent + got.get('jaeger:reporter_spans.result_dropped', 0), 9, 'fates of the spans in %r' % got)
    x.check(sent >= 4, '%r' % got)
    x.eq((got.get('jaeger:started_spans.sampled_y'), got.get('jaeger:finished_spans')), (9, 9), 'spans')
    polls = len(w.net.http_log)
    x.check(polls >= 1, 'no poll')
    x.check(sum(v for k, v in got.items() if 'sampler' in k) >= polls, 'sampler counters of %d polls in %r' % (polls, got))
    x.state((style, answer, fail))
    x.case()


def base(x):
    from jaeger_client.metrics import MetricsFactory
    f = MetricsFactory()
    for kind in ('counter', 'gauge', 'timer'):
        for tags in TAGSETS.values():
            x.case()
            getattr(f, 'create_' + kind)('n', tags)(1)


# -- threads -----------------------------------------------------------------------------------------------------------------

def race(x, kind, how, n):
    p = Prom(x, FACTORIES['two-same' if how == 'two' else 'two-labels' if how == 'labels' else 'plain'])
    name = p.pre + 'm'
    done = []

    def body(i):
        def f():
            fac = p.fs[i % len(p.fs)][0]
            m = getattr(fac, 'create_' + kind)(name, {'r': 'x' if how != 'tags' else 'x%d' % i})
            m(1)
            done.append(i)
        return f
    run_threads(x, [body(i) for i in range(n)])
    x.eq(len(done), n, 'threads')
    got = samples()
    full = name + ('_total' if kind == 'counter' else '')
    want = {}
    for i in range(n):
        lab = {'r': 'x' if how != 'tags' else 'x%d' % i}
        s = p.fs[i % len(p.fs)][1].get('service_name_label')
        if s:
            lab['service'] = s
        k = (full, tuple(sorted(lab.items())))
        want[k] = want.get(k, 0.0) + 1.0 if kind == 'counter' else 1.0
    x.eq(got, want, 'values')


def pump(x):
    """Many metrics, many label values, many updates: every value at its metric."""
    p = Prom(x, FACTORIES[x.pick(sorted(FACTORIES))])
    kind = x.pick(['counter', 'gauge'])
    how = x.pick(['names', 'values', 'tags', 'updates', 'again', 'long'])
    n = 300 if how in ('names', 'values', 'again') else 40
    for i in range(n):
        f = i % len(p.fs)
        if how == 'names':
            p.create(kind, 'n%d' % i, {'a': '1'} if i % 3 else None, f)
        elif how == 'values':
            p.create(kind, 'v', {'a': 'x%d' % (i // 7), 'b': str(i)}, f)
        elif how == 'tags':
            p.create(kind, 't%d' % i, {'k%d' % j: 'v%d' % (i - j) for j in range(i)}, f)
        elif how == 'long':
            p.create(kind, 'l' * (i * 10 + 1), {'k' * (i * 10 + 1): 'v' * (i * 10)}, f)
        else:
            p.create(kind, 'u', {'a': str(i % 5)}, f)
        p.update(i, i + 1)
    for r in range(30 if how == 'updates' else 2):
        for i in range(n):
            p.update(i, 3 * i + r + 1)
        if r % 10 == 1:
            p.judge('%d %ss (%s), updated %d times' % (n, kind, how, r + 2))
    x.case(n)
    x.state((str(p.fs), kind, how))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for fs in sorted(FACTORIES):
        for name in sorted(NAMES):
            for kind in ('counter', 'gauge'):
                big = len(NAMES[name]) * len(FACTORIES[fs]) > 8
                out.append(Scenario('prom-%s-%s-%s' % (fs, name, kind), sequence,
                                    params=dict(fs=fs, name=name, kind=kind, depth=(4 if t else 3) if big else (5 if t else 4))))
    out += [Scenario('mixed', mixed, params=dict(depth=4 if t else 3)), Scenario('timer', timer), Scenario('legacy', legacy, params=dict(depth=3 if t else 2)),
            Scenario('tracer', through), Scenario('pump', pump), Scenario('parts', parts), Scenario('base', base)]
    for kind in ('counter', 'gauge'):
        for how in ('same', 'tags', 'two', 'labels'):
            for n in (2, 3):
                out.append(Scenario('race-%s-%s-%d' % (kind, how, n), race, sched=True, bound=(3 if t else 2) if n == 2 else (2 if t else 1),
                                    params=dict(kind=kind, how=how, n=n)))
    return out
