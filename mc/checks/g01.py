"""G01: every configuration key and environment variable has its effect on the tracer that is built."""
import copy
import itertools
import os
from urllib.parse import urlsplit, parse_qsl
from mc import env, net, ctx
from mc.lib import *
from mc.checks.s02 import Model as Bucket

RULE = ('every value of every configuration key and environment variable, and every pair of them; the resulting tracer is exercised '
        'and its requests, datagrams, carriers, spans, logs and metrics are compared with what the configuration says; distinct by '
        'configuration')
ASSUMPTIONS = ['`enabled` has no documented effect on the tracer: it is checked to be accepted and to be told by Config.enabled',
               'values of other types than the documented ones (and null values except for tags) are unspecified']
M = 1 << 64
ENVS = ('JAEGER_AGENT_HOST', 'JAEGER_AGENT_PORT', 'JAEGER_TRACEID_128BIT', 'JAEGER_TAGS')


class Own(object):
    """A sampler of the application."""


def items():
    """(name, kind, key, value)"""
    out = []

    def add(key, *values):
        for i, v in enumerate(values):
            out.append(('%s=%d' % (key, i), 'config', key, v))

    def addenv(key, *values):
        for i, v in enumerate(values):
            out.append(('$%s=%d' % (key, i), 'env', key, v))
    add('service_name', 'other', u's v\u00e9')
    add('enabled', True, False)
    add('reporter_batch_size', 1, 3, '4', 25)
    add('reporter_queue_size', 10, 12, '11', 200, 5)
    add('reporter_flush_interval', 0.5, 2, 10)
    add('logging', True, False, 'true', 'false', 1, 0, '1', 'None', 'maybe')
    add('metrics', True, False, 'false', '0', 'true', 1)
    add('sampler', {'type': 'const', 'param': True}, {'type': 'const', 'param': False}, {'type': 'const', 'param': 1},
        {'type': 'const', 'param': '0'}, {'type': 'const', 'param': 'true'}, {'type': 'const'}, {},
        {'type': 'const', 'param': 'no'}, {'type': 'const', 'param': 'FALSE'}, {'type': 'const', 'param': ''}, {'type': 'const', 'param': None},
        {'type': 'probabilistic', 'param': 0.5}, {'type': 'probabilistic', 'param': '0.25'}, {'type': 'probabilistic', 'param': 1},
        {'type': 'probabilistic', 'param': 0}, {'type': 'ratelimiting', 'param': 2}, {'type': 'rate_limiting', 'param': '4'},
        {'type': 'ratelimiting', 'param': 0.5}, 'OWN', {'type': 'probabilistic', 'param': 1.5}, {'type': 'probabilistic', 'param': -0.5},
        {'type': 'probabilistic', 'param': 'x'}, {'type': 'probabilistic'}, {'type': 'lucky', 'param': 1}, {'type': 'rate_limiting', 'param': 'x'})
    add('sampling_refresh_interval', 2, 0.5, 120)
    add('max_operations', 1, 2, 4)
    add('trace_id_header', 'my-trace', 'X-Trace-ID')
    add('baggage_header_prefix', 'bag-', 'X-Bag-')
    add('debug_id_header', 'my-debug', 'X-Debug')
    add('generate_128bit_trace_id', True, False, 'true', 'false', 1, 0)
    add('max_tag_value_length', 5, 2000, 0)
    add('max_traceback_length', 7, 10000, 0)
    add('tags', {'a': 'cfg'}, {'z': 1, 'y': True, 'x': 'w' * 30}, {}, None, {'hostname': 'h1', 'ip': '1.2.3.4'},
        {'many%d' % i: i for i in range(130)})
    add('propagation', 'b3', 'jaeger')
    add('local_agent', {}, {'reporting_host': 'cfg-host'}, {'reporting_port': 7777}, {'reporting_port': '7778'}, {'sampling_port': 5999},
        {'sampling_port': '6000', 'reporting_host': 'h2', 'reporting_port': 1234}, {'reporting_port': 'xx'}, {'sampling_port': 'xx'},
        {'enabled': True, 'sampling_port': 6001}, {'reporting_host': 'Agent.Host_1'})
    add('throttler', {}, {'port': 7000}, {'port': '7001', 'refresh_interval': '2'}, {'refresh_interval': 3}, {'port': 'xx', 'refresh_interval': 'yy'})
    addenv('JAEGER_AGENT_HOST', 'env-host')
    addenv('JAEGER_AGENT_PORT', '7100', 'port', '')
    addenv('JAEGER_TRACEID_128BIT', 'true', 'false', '')
    addenv('JAEGER_TAGS', 'a=env', 'a=env,b=2', ' a = b , c = d=e ,bad,=,f=', '', ',')
    return out


ITEMS = items()
BOUNDS = ('%d values of %d keys and variables; all pairs of values of different keys (triples in '
          'thorough); each value with and without validation, with and without an event loop of the application, for new_tracer() '
          'and initialize_tracer()' % (len(ITEMS), len(set(i[2] for i in ITEMS))))
KEYS = sorted(set(i[2] for i in ITEMS if i[1] == 'config'))


def truth(v, default):
    s = str(v).lower()
    return False if s in ('false', '0', 'none') else True if s in ('true', '1') else default


def number(v, default):
    try:
        return int(v)
    except (TypeError, ValueError):
        return default


def expect(c, e):
    """What the configuration says; None if the tracer cannot be built."""
    d = {}
    d['service'] = c.get('service_name', 'svc')
    d['batch'] = int(c.get('reporter_batch_size', 10))
    d['queue'] = int(c.get('reporter_queue_size', 100))
    d['flush'] = c.get('reporter_flush_interval', 1)
    d['logging'] = truth(c.get('logging', False), False)
    d['metrics'] = truth(c.get('metrics', True), True)
    d['refresh'] = c.get('sampling_refresh_interval', 60)
    d['max_ops'] = c.get('max_operations', 2000)
    d['hdr'] = c.get('trace_id_header', 'uber-trace-id')
    d['prefix'] = c.get('baggage_header_prefix', 'uberctx-')
    d['debug'] = c.get('debug_id_header', 'jaeger-debug-id')
    d['wide'] = truth(c['generate_128bit_trace_id'], False) if 'generate_128bit_trace_id' in c else \
        e.get('JAEGER_TRACEID_128BIT') == 'true'
    d['tagmax'] = c.get('max_tag_value_length', 1024)
    d['tbmax'] = c.get('max_traceback_length', 4096)
    d['b3'] = c.get('propagation') == 'b3'
    la = c.get('local_agent', {})
    d['host'] = la.get('reporting_host', e.get('JAEGER_AGENT_HOST', 'localhost'))
    d['rport'] = number(la.get('reporting_port'), number(e.get('JAEGER_AGENT_PORT'), 6831))
    d['sport'] = number(la.get('sampling_port'), 5778)
    th = c.get('throttler')
    d['throttler'] = None if th is None else (number(th.get('port'), 5778), number(th.get('refresh_interval'), 5))
    tags = dict(c.get('tags') or {})
    for kv in (e.get('JAEGER_TAGS') or '').split(','):
        if '=' in kv:
            k, v = kv.split('=', 1)
            tags[k.strip()] = v.strip()
    d['tags'] = tags
    s = c.get('sampler', {})
    d['sampler'] = None
    if s == 'OWN':
        d['sampler'] = ('own',)
    elif s.get('type'):
        if s['type'] == 'const':
            d['sampler'] = ('const', truth(s.get('param'), False))
        else:
            try:
                p = float(s.get('param'))
            except (TypeError, ValueError):
                return None
            if s['type'] == 'probabilistic':
                if not 0 <= p <= 1:
                    return None
                d['sampler'] = ('p', p)
            elif s['type'] in ('ratelimiting', 'rate_limiting'):
                d['sampler'] = ('r', p)
            else:
                return None
    if d['queue'] < d['batch']:
        return None
    return d


def build(x, c, e, validate, own_loop, via):
    """-> (tracer, config object) or an exception"""
    from jaeger_client import Config
    from jaeger_client.sampler import Sampler
    w = x.world

    class MySampler(Sampler):
        def __init__(self):
            Sampler.__init__(self, tags={'mine': 'yes'})

        def is_sampled(self, trace_id, operation=''):
            return True, {'mine': 'yes'}

        def close(self):
            pass
    cfg = copy.deepcopy(c)
    own = MySampler()
    if cfg.get('sampler') == 'OWN':
        cfg['sampler'] = own
    before = copy.deepcopy({k: v for k, v in cfg.items() if k != 'sampler'}), cfg.get('sampler')
    shallow = dict(cfg)
    saved = dict(os.environ)
    try:
        for k in ENVS:
            os.environ.pop(k, None)
        for k, v in e.items():
            os.environ[k] = v
        env0 = dict(os.environ)
        conf = Config(cfg, service_name='svc', metrics_factory=w.metrics.factory(), validate=validate)
        loop = w.io_loop if own_loop else None
        if via == 'initialize':
            tr = conf.initialize_tracer(loop) if own_loop else conf.initialize_tracer()
        else:
            tr = conf.new_tracer(loop)
        x.check(tr is not None, 'no tracer')
        if own_loop:
            x.eq(w.thread_loops, 0, 'threads started although the application gave its event loop')
        x.check(dict(os.environ) == env0, 'the environment was modified')
    finally:
        for k in ENVS:
            os.environ.pop(k, None)
        os.environ.update({k: v for k, v in saved.items() if k in ENVS})
    x.check(({k: v for k, v in cfg.items() if k != 'sampler'}, cfg.get('sampler')) == before and list(cfg) == list(shallow)
            and all(cfg[k] is shallow[k] for k in cfg), 'the given dictionary was modified: %r' % (cfg,))
    return tr


def observe(x, tr, d, what, many, resolved):
    from jaeger_client import SpanContext
    from opentracing import Format
    import opentracing.propagation
    w = x.world
    reqs, sent, adaptive = [], [], []

    def fail(f, got, want):
        x.fail('%s: %s: got %r, expected %r' % (what, f, got, want))

    def eq(f, got, want):
        if got != want:
            fail(f, got, want)

    def on_http(url, kw):
        u = urlsplit(url)
        reqs.append((round(env.clock.mono, 6), u.path, u.hostname, u.port, sorted(parse_qsl(u.query, keep_blank_values=True))))
        if u.path == '/sampling' and not adaptive:
            body = b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 0.001}}'
        elif u.path == '/sampling':
            body = b'{"operationSampling": {"defaultSamplingProbability": 0, "defaultLowerBoundTracesPerSecond": 4, "perOperationStrategies": []}}'
        else:
            body = b'{"balances": [{"operation": "dbg", "balance": 1}]}'
        return w.http_future(net.FakeResponse(body))
    w.net.on_http = on_http
    w.net.on_send = lambda data, addr: sent.append((round(env.clock.mono, 6), data, addr))
    eq('service name', tr.service_name, d['service'])
    logged = lambda: sum('Reporting span' in m for _, _, m in w.log.records)   # noqa
    par = SpanContext(0x1234, 0x5, 0x7, 1, {})
    # the reporter: queue, batches, flushing
    w.run_ready()
    k = many
    t0 = env.clock.mono
    for i in range(k):
        tr.start_span('q', child_of=par).finish()
    w.run_ready()
    full = list(sent)
    acc = min(k, d['queue'] + 1)
    sizes = [len(wire.decode_batch(p[1])['spans']) for p in full]
    if sizes != [d['batch']] * len(sizes) or len(sizes) not in (acc // d['batch'], (acc - 1) // d['batch']):
        fail('batches at once of %d spans (queue %d)' % (k, d['queue']), sizes, [d['batch']] * (acc // d['batch']))
    w.advance(d['flush'] * 0.9)
    eq('datagrams before the flush interval', len(sent), len(full))
    w.advance(d['flush'] * 0.2)
    bs = [wire.decode_batch(p[1]) for p in sent]
    n = sum(len(b['spans']) for b in bs)
    if n not in (acc, acc - 1 if k > d['queue'] else acc):
        fail('spans of %d that were sent' % k, n, acc)
    if len(sent) > len(full) and abs(sent[-1][0] - t0 - d['flush']) > 1e-3:
        fail('flushed at', sent[-1][0] - t0, d['flush'])
    if d['metrics']:
        eq('counted as sent', w.metrics.get(OK), n)
        eq('counted as dropped', w.metrics.get(DROP), k - n)
    eq('spans logged', logged(), k if d['logging'] else 0)
    # limits of values
    s = tr.start_span('lim', child_of=par)
    s.set_tag('long', 'v' * 3000)
    try:
        _deep(30)
    except ValueError as e:
        import sys
        s.log_kv({'tb': sys.exc_info()[2], 'msg': 'm' * 2500})
        import traceback
        tb = ''.join(traceback.format_tb(e.__traceback__))
    s.finish()
    w.advance(d['flush'] * 1.1)
    b = wire.decode_batch(sent[-1][1])
    sp = b['spans'][-1]
    eq('operation', sp['operation'], 'lim')
    eq('length of a long tag', len(dict((t[0], t[2]) for t in sp['tags'])['long']), min(3000, d['tagmax']))
    fields = dict((t[0], t[2]) for t in sp['logs'][0][1])
    eq('length of a logged text', len(fields['msg']), min(2500, d['tagmax']))
    if not tb.startswith(fields['tb'][:20]) or len(fields['tb']) != min(len(tb), d['tbmax']):
        fail('length of a traceback', len(fields['tb']), min(len(tb), d['tbmax']))
    # process
    eq('service in batches', b['service'], d['service'])
    ptags = dict((t[0], t[2]) for t in b['tags'])
    for key, v in d['tags'].items():
        eq('process tag %r' % key, ptags.get(key), v[:d['tagmax']] if isinstance(v, str) else v)
    for key, v in (('hostname', 'mc-host'), ('ip', '10.9.8.7')):
        eq(key, ptags.get(key), d['tags'].get(key, v)[:d['tagmax']])
    extra = set(ptags) - set(d['tags']) - {'hostname', 'ip', 'jaeger.version', 'client-uuid'}
    eq('other process tags', extra, set())
    eq('client-uuid', 'client-uuid' in ptags, d['throttler'] is not None)
    eq('agent', set(({'9.9.9.9': d['host']}.get(p[2][0], p[2][0]), p[2][1]) for p in sent), {(d['host'], d['rport'])})
    eq('names resolved', set(resolved) - {d['host']}, set())
    # carriers
    m = dict(trace=0x1234, span=5, parent=7, flags=1, baggage={'k': 'v w'})
    c = ctx.context(m)
    for http, fmt in ((False, Format.TEXT_MAP), (True, Format.HTTP_HEADERS)):
        car = {}
        tr.inject(c, fmt, car)
        b3 = d['b3'] and http
        want = ctx.encode_b3(m, d['wide']) if b3 else ctx.encode_text(m, http, d['hdr'], d['prefix'])
        eq('carrier %s' % fmt, {k_.lower(): v for k_, v in car.items()}, {k_.lower(): v for k_, v in want.items()})
        got = tr.extract(fmt, dict(want))
        eq('extracted %s' % fmt, got and ctx.of(got), dict(m, baggage={} if b3 else m['baggage']))
        if not b3:
            if http:
                up = tr.extract(fmt, {k.upper(): v for k, v in want.items()})
                eq('extracted %s' % fmt, up and ctx.of(up), m)
            ds = tr.extract(fmt, {d['debug']: 'corr'})
            eq('debug ID in %s' % fmt, ds and ds.debug_id, 'corr')
            other = {'uber-trace-id': '1:2:3:1', 'jaeger-debug-id': 'no', 'uberctx-q': 'no'}
            for key in (d['hdr'], d['debug']):
                other.pop(key, None)
            if d['prefix'] == 'uberctx-':
                other.pop('uberctx-q')
            no = tr.extract(fmt, other)
            eq('other headers', no and (no.trace_id, no.debug_id, dict(no.baggage)), None)
    # width of IDs
    env.rand.bits_hook = lambda kk: (1 << kk) - 1
    env.rand.float_hook = lambda: 0.75
    s = tr.start_span('w')
    eq('ID of a new trace', s.context.trace_id, (1 << 128 if d['wide'] else M) - 1)
    # forced sampling and the throttler
    t1 = env.clock.mono
    s = tr.start_span('dbg')
    s.set_tag('sampling.priority', 1)
    eq('forced', s.is_debug(), d['throttler'] is None)
    if d['throttler']:
        port, every = d['throttler']
        reqs[:] = [r for r in reqs if r[1] != '/credits']
        w.advance(every * 1.01)
        cr = [r for r in reqs if r[1] == '/credits']
        eq('credit requests in one interval', [r[2:4] for r in cr], [(d['host'].lower(), port)])
        eq('service in credit requests', [v for k_, v in cr[0][4] if k_ == 'service'], [d['service']])
        eq('client ID in credit requests', [v for k_, v in cr[0][4] if k_ == 'uuid'], [str(ptags['client-uuid'])])
        w.advance(every * 1.0)
        cr = [r for r in reqs if r[1] == '/credits']
        eq('interval of credit requests', round(cr[-1][0] - cr[-2][0], 3), every)
        s = tr.start_span('dbg')
        s.set_tag('sampling.priority', 1)
        eq('forced with credit', s.is_debug(), True)
    # the sampler
    asked = [r for r in reqs if r[1] == '/sampling']
    if d['sampler'] is None:
        end = t0 + 0.5 * d['refresh']
        while env.clock.mono < end + 2 * d['refresh']:
            w.advance(d['refresh'] / 2.0)
        asked = [r for r in reqs if r[1] == '/sampling']
        times = [r[0] - t0 for r in asked]
        want = [d['refresh'] * (0.5 + i) for i in range(len(times))]
        if len(times) < 2 or any(abs(a - b) > 1e-2 for a, b in zip(times, want)):
            fail('strategy requests at', times, want)
        eq('strategy requests to', set(r[2:4] for r in asked), {(d['host'].lower(), d['sport'])})
        eq('strategy requests for', asked[0][4], [('service', d['service'])])
        adaptive.append(1)
        w.advance(d['refresh'])
        # every operation has a budget of its own, up to max_operations of them
        got = [decide(tr, M - 1, 'o%d' % i)[0] for i in range(6)]
        eq('budgets', got, [i < d['max_ops'] for i in range(6)])
    else:
        eq('strategy requests', asked, [])
        kind = d['sampler'][0]

        def cut(tags):      # tags of samplers are subject to max_tag_value_length like any other
            return {k_: v[:d['tagmax']] if isinstance(v, str) else v for k_, v in tags.items()}
        if kind == 'own':
            eq('decision', decide(tr, 5), (True, cut({'mine': 'yes'})))
        elif kind == 'const':
            for t in (1, M - 1):
                eq('decision', decide(tr, t), (d['sampler'][1], cut({'sampler.type': 'const', 'sampler.param': True}) if d['sampler'][1] else {}))
        elif kind == 'p':
            p = d['sampler'][1]
            for t in sorted({1, int(p * M) - 1, int(p * M), M - 1}):
                if 0 < t < M:
                    eq('decision for %x' % t, decide(tr, t),
                       (True, cut({'sampler.type': 'probabilistic', 'sampler.param': p})) if t < p * M else (False, {}))
        else:
            r = d['sampler'][1]
            w.advance(100)
            n = int(max(r, 1))
            got = [decide(tr, 1) for _ in range(n + 2)]
            eq('decisions', [g[0] for g in got], [i < n for i in range(n + 2)])
            eq('tags', got[0][1], cut({'sampler.type': 'ratelimiting', 'sampler.param': r}))
    env.rand.bits_hook = None
    if not d['metrics']:
        eq('metrics', dict(w.metrics.counters), {})
    f = tr.close()
    w.advance(d['flush'] + 1)
    if not f.done():
        fail('close()', 'open', 'complete')


def _deep(n):
    if n == 0:
        raise ValueError('deep')
    _deep(n - 1)


def decide(tr, tid, op='op'):
    env.rand.bits_hook = lambda k: tid & ((1 << k) - 1)
    s = tr.start_span(op)
    tags = {t.key: tag_value(t) for t in s.tags}
    return s.is_sampled(), {k: v for k, v in tags.items() if k in ('sampler.type', 'sampler.param', 'mine')}


def run(x, chosen, validate, own_loop, via, many):
    c = {i[2]: i[3] for i in chosen if i[1] == 'config'}
    e = {i[2]: i[3] for i in chosen if i[1] == 'env'}
    what = 'config %r, environment %r%s' % (c, e, ', validate' if validate else '')
    d = expect(c, e)
    env.clock.mono = 0.0
    env.rand.float_hook = lambda: 0.5
    x.state((tuple(i[0] for i in chosen), validate, own_loop, via))
    resolved = []
    x.world.net.on_resolve = lambda host, port: resolved.append(host) or [(2, 2, 17, '', ('9.9.9.9', int(port)))]
    if d is None:
        try:
            build(x, c, e, validate, own_loop, via)
        except Violation:
            raise
        except Exception:
            return
        x.fail('%s: a tracer was built' % what)
    try:
        tr = build(x, c, e, validate, own_loop, via)
    except Violation:
        raise
    except Exception as ex:
        x.fail('%s: no tracer: %s: %s' % (what, type(ex).__name__, ex))
    observe(x, tr, d, what, many, resolved)


def singles(x):
    i = x.pick([None] + ITEMS)
    run(x, [i] if i else [], bool(x.choose(2)), bool(x.choose(2)), x.pick(['new', 'initialize']), 103)


def pairs(x, first, full):
    a = ITEMS[first]
    rest = [n for n in range(first + 1, len(ITEMS)) if ITEMS[n][2] != a[2]]
    if not rest:
        return
    n = x.pick(rest)
    ch = [a, ITEMS[n]]
    if full:
        more = [None] + [ITEMS[m] for m in range(n + 1, len(ITEMS)) if ITEMS[m][2] not in (a[2], ITEMS[n][2])]
        c = x.pick(more)
        ch += [c] if c else []
    run(x, ch, True, True, 'new', 27)


PREC = ['local_agent=0', 'local_agent=1', 'local_agent=2', 'local_agent=5', 'local_agent=6', 'tags=0', 'tags=1', 'tags=3', 'generate_128bit_trace_id=0',
        'generate_128bit_trace_id=1', 'generate_128bit_trace_id=3', 'propagation=0', 'throttler=1', 'max_tag_value_length=0']


def environment(x):
    """All combinations of environment variables x configuration that touches the same things."""
    ch = []
    for v in ENVS:
        i = x.pick([None] + [i for i in ITEMS if i[1] == 'env' and i[2] == v][:2 if v != 'JAEGER_TAGS' else 3])
        if i:
            ch.append(i)
    for n in (x.pick([None] + PREC),):
        if n:
            ch.append([i for i in ITEMS if i[0] == n][0])
    run(x, ch, False, False, 'new', 12)


def operations(x):
    """max_operations is exactly as many operations with budgets of their own, also beyond the default of 2000."""
    from jaeger_client import Config
    n = x.pick([None, 1, 2, 7, 100, 500, 1999, 2000, 2001, 3000, 6000])
    w = x.world
    env.clock.mono = 0.0
    env.rand.float_hook = lambda: 0.999999
    body = b'{"operationSampling": {"defaultSamplingProbability": 0, "defaultLowerBoundTracesPerSecond": 4, "perOperationStrategies": []}}'
    w.net.on_http = lambda url, kw: w.http_future(net.FakeResponse(body))
    cfg = {} if n is None else {'max_operations': n}
    tr = Config(cfg, service_name='svc', metrics_factory=w.metrics.factory(), validate=True).new_tracer(w.io_loop)
    w.advance(61)
    want = n or 2000
    got = [tr.start_span('o%d' % i).is_sampled() for i in range(want + 3)]
    x.eq(got.index(False) if False in got else None, want, 'max_operations=%r: operations with a budget' % n)
    x.check(not any(got[want:]), 'max_operations=%r: more operations have a budget' % n)
    x.check(all(tr.start_span('o%d' % i).is_sampled() for i in range(0, want, 97)), 'max_operations=%r: budget of a known operation' % n)
    x.case(want)
    x.state(n)
    tr.close()


def twice(x):
    """Tracers made from one Config share nothing that the application did not give: budgets, credits, strategies, tags, scopes."""
    from jaeger_client import Config, SpanContext
    from opentracing import Format
    w = x.world
    env.clock.mono = 0.0
    env.rand.float_hook = lambda: 0.999999
    env.rand.bits_hook = None
    body = [b'']
    sent = []
    w.net.on_send = lambda data, addr: sent.append(wire.decode_batch(data))
    paid = []

    def on_http(url, kw):
        if '/credits' not in url:
            return w.http_future(net.FakeResponse(body[0]))
        who = dict(parse_qsl(urlsplit(url).query))['uuid']
        new = who not in paid
        paid.append(who)
        return w.http_future(net.FakeResponse(b'{"balances": [{"operation": "dbg", "balance": %d}]}' % new))
    w.net.on_http = on_http
    s = x.pick([{'type': 'ratelimiting', 'param': 2}, {'type': 'probabilistic', 'param': 1}, {'type': 'const', 'param': True}, None])
    thr = bool(x.choose(2))
    n = x.pick([2, 3])
    close = x.pick(range(n))
    c = {'tags': {'a': 'b'}, 'logging': True}
    if s:
        c['sampler'] = s
    if thr:
        c['throttler'] = {}
    conf = Config(c, service_name='svc', metrics_factory=w.metrics.factory(), validate=True)
    trs = [conf.new_tracer(w.io_loop) for _ in range(n)]
    if s is None:
        body[0] = b'{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 2}}'
        w.advance(121)
    kind = s['type'] if s else 'ratelimiting'
    w.advance(100)
    for i, tr in enumerate(trs):
        got = [tr.start_span('o').is_sampled() for _ in range(4)]
        x.eq(got, [True, True, False, False] if kind == 'ratelimiting' else [True] * 4, 'decisions of tracer %d of one configuration' % i)
    for i, tr in enumerate(trs):
        par = SpanContext(0x1234, 0x5, 0x7, 1, {})
        sp = tr.start_span('dbg', child_of=par)
        sp.set_tag('sampling.priority', 1)
        x.eq(sp.is_debug(), not thr, 'tracer %d forces before any credit' % i)
    w.advance(11)
    for i, tr in enumerate(trs):
        got = []
        for _ in range(3):
            sp = tr.start_span('dbg', child_of=SpanContext(0x1234, 0x5, 0x7, 0, {}))
            sp.set_tag('sampling.priority', 1)
            got.append(sp.is_debug())
        x.eq(got, [True, False, False] if thr else [True] * 3, 'forced by tracer %d with its credit' % i)
    with trs[0].start_active_span('outer') as scope:
        x.eq([t.active_span is scope.span for t in trs], [True] + [False] * (n - 1), 'the active span of the first tracer is the one of others')
        trs[0].tags['mine'] = 1
        x.eq(['mine' in t.tags for t in trs], [True] + [False] * (n - 1), 'tags shared')
    w.advance(3)
    f = trs[close].close()
    w.advance(3)
    x.check(f.done(), 'close() is open')
    sent[:] = []
    for i, tr in enumerate(trs):
        tr.start_span('last%d' % i, child_of=SpanContext(0x1234, 0x5, 0x7, 1, {})).finish()
    w.advance(3)
    x.eq(sorted(sp['operation'] for b in sent for sp in b['spans']), ['last%d' % i for i in range(n) if i != close], 'reported after one tracer was closed')
    for tr in trs:
        tr.close()
    w.advance(3)
    x.state((str(s), thr, n, close))


def unflushed(x):
    """A flush interval of 0 switches the periodic flush off: batches are sent when they are full, and at close()."""
    from jaeger_client import Config, SpanContext
    w = x.world
    env.clock.mono = 0.0
    sent = []
    w.net.on_send = lambda data, addr: sent.append(data)
    size = x.pick([None, 2, 3, 25])
    n = x.pick([1, 2, 3, 9, 10, 11, 24, 25, 26])
    validate = bool(x.choose(2))
    c = {'reporter_flush_interval': 0, 'sampler': {'type': 'const', 'param': True}}
    if size is not None:
        c['reporter_batch_size'] = size
    tr = Config(c, service_name='svc', metrics_factory=w.metrics.factory(), validate=validate).new_tracer(w.io_loop)
    w.run_ready()
    size = size or 10
    for i in range(n):
        tr.start_span('s%d' % i).finish()
        w.run_ready()
    for wait in (0, 1, 10, 3600):
        w.advance(wait)
        x.eq([len(wire.decode_batch(d)['spans']) for d in sent], [size] * (n // size), 'batches after %d spans and %d s' % (n, wait))
    f = tr.close()
    w.advance(5)
    x.check(f.done(), 'close() is open')
    x.eq([s['operation'] for d in sent for s in wire.decode_batch(d)['spans']], ['s%d' % i for i in range(n)], 'spans sent')
    x.state((size, n, validate))


def validation(x):
    """Exactly the known keys are accepted; the service name must come from somewhere."""
    from jaeger_client import Config
    known = sorted(KEYS)
    for k in known:
        v = [i[3] for i in ITEMS if i[2] == k][0]
        for extra in (None, 'unknown', k + 's', k.upper(), '', 'reporter'):
            c = {k: v}
            if extra is not None:
                c[extra] = 1
            for validate in (True, False):
                x.case()
                try:
                    Config(dict(c), service_name='svc', validate=validate)
                    ok = True
                except ValueError:
                    ok = False
                x.eq(ok, not validate or extra is None, 'config %r accepted (validate=%r)' % (c, validate))
    for cfg, param, want in (({}, None, None), ({}, '', None), ({'service_name': 'a'}, None, 'a'), ({}, 'b', 'b'), ({'service_name': 'a'}, 'b', 'a'),
                             ({'service_name': ''}, 'b', None), ({'service_name': None}, None, None)):
        x.case()
        try:
            got = Config(dict(cfg), service_name=param).service_name
        except ValueError:
            got = None
        if cfg.get('service_name', 1):
            x.eq(got, want, 'service name of %r, %r' % (cfg, param))
    for v, want in ((None, True), (True, True), (False, False), ('true', True), ('false', False), (1, True), (0, False), ('0', False)):
        x.case()
        x.eq(Config({} if v is None else {'enabled': v}, service_name='svc').enabled, want, 'enabled for %r' % (v,))


def parameters(x):
    """Arguments of Config(): metrics, metrics_factory, scope_manager."""
    from jaeger_client import Config, ConstSampler
    from jaeger_client.metrics import Metrics
    from jaeger_client.reporter import InMemoryReporter
    from opentracing.scope_managers import ThreadLocalScopeManager
    w = x.world
    sm = ThreadLocalScopeManager() if x.choose(2) else None
    counts = []
    how = x.pick(['factory', 'legacy', 'none', 'both'])
    on = x.pick([True, False, None])
    kw = {}
    if how in ('factory', 'both'):
        kw['metrics_factory'] = w.metrics.factory()
    if how in ('legacy', 'both'):
        kw['metrics'] = Metrics(count=lambda k, v: counts.append((k, v)))
    c = {} if on is None else {'metrics': on}
    rep = InMemoryReporter()
    tr = Config(c, service_name='svc', scope_manager=sm, **kw).create_tracer(rep, ConstSampler(True))
    if sm is not None:
        x.check(tr.scope_manager is sm, 'the scope manager is not used')
    with tr.start_active_span('a') as scope:
        x.check(tr.active_span is scope.span, 'active')
        tr.start_span('b').finish()
    x.eq([s.operation_name for s in rep.get_spans()], ['b', 'a'], 'spans')
    x.eq(bool(w.metrics.counters), how in ('factory', 'both') and on is not False, 'metrics of the factory')
    x.eq(bool(counts), how == 'legacy' and on is not False, 'legacy metrics')
    x.state((how, on, sm is None))


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('singles', singles), Scenario('environment', environment), Scenario('validation', validation), Scenario('operations', operations), Scenario('unflushed', unflushed), Scenario('twice', twice),
           Scenario('parameters', parameters)]
    for n in range(len(ITEMS)):
        out.append(Scenario('pairs-%s' % ITEMS[n][0], pairs, params=dict(first=n, full=t)))
    return out
