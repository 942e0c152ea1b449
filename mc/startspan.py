"""Shared enumeration of every way to start a span, with a reference model (A01, A02, M01)."""
import itertools
from . import env
from .lib import *

SERVER = {'span.kind': 'server'}


class ScriptSampler(object):
    """Public sampler API; answers a script and records what it was asked."""

    def __init__(self, answers, tags=None):
        self.answers, self.asked, self.tags = list(answers), [], tags or {
            'sampler.type': 'script', 'sampler.param': 0.25}

    def is_sampled(self, trace_id, operation=''):
        self.asked.append((trace_id, operation))
        a = self.answers.pop(0) if len(self.answers) > 1 else self.answers[0]
        return a, dict(self.tags)

    def close(self):
        pass


class ScriptThrottler(object):
    def __init__(self, allow):
        self.allow, self.asked = allow, []

    def set_client_id(self, c):
        self.client_id = c

    def is_allowed(self, op):
        self.asked.append(op)
        return self.allow

    def close(self):
        pass


class RecordingReporter(object):
    def __init__(self):
        self.spans = []

    def set_process(self, service_name, tags, max_length):
        self.process = (service_name, dict(tags), max_length)

    def report_span(self, span):
        self.spans.append(span)

    def close(self):
        pass


# --- what can be passed as child_of / reference -------------------------------------------------
def contexts(tr):
    """name -> (argument, model or None).  model: dict(trace,span,parent,flags,baggage,debug)"""
    from jaeger_client import SpanContext
    out = {'none': (None, None)}

    def ctx(name, t, s, p, f, b=None, d=None):
        c = SpanContext(trace_id=t, span_id=s, parent_id=p, flags=f, baggage=b, debug_id=d)
        out[name] = (c, dict(trace=t, span=s, parent=p, flags=f, baggage=dict(b or {}), debug=d))
    ctx('remote-sampled', 0x1234, 0x77, 0x66, 1, {'rb': '1'})
    ctx('remote-unsampled', (1 << 127) + 5, 1 << 63, None, 0)
    ctx('remote-debug', 0xabcdef, 0x99, 0x1, 3)
    ctx('remote-debug-only-flag', 0xabcdee, 0x9a, 0x1, 2)
    ctx('remote-flags-firehose', 0xabcded, 0x9b, None, 9)
    ctx('debug-id', None, None, None, None, None, 'dbg-1')
    ctx('debug-id+baggage', None, None, None, None, {'db': 'x'}, 'dbg-2')
    ctx('baggage-only', None, None, None, None, {'bo': 'y'}, None)
    ctx('remote+debug-id', 0x5a, 0x5b, None, 0, {'rd': 'w'}, 'dbg-3')
    ctx('half-trace', 0x55, None, None, None)
    ctx('no-trace-id', None, 0x56, None, 1, {'nt': 'z'})
    ctx('zero-trace-id', 0, 0x56, 0x57, 3)
    ctx('no-flags', 0x58, 0x59, None, None)
    return out


def local_spans(tr, rnd):
    """A sampled and an unsampled local span with baggage, as Span objects."""
    out = {}
    for name, fl in (('local-sampled', 1), ('local-unsampled', 0)):
        base = {'local-sampled': 0x4000, 'local-unsampled': 0x5000}[name]
        from jaeger_client import SpanContext
        sp = tr.start_span(name, child_of=SpanContext(base, base + 1, None, fl),
                           ignore_active_span=True)
        sp.set_baggage_item('lb', name)
        out[name] = (sp, dict(trace=base, span=sp.span_id, parent=base + 1, flags=fl,
                              baggage={'lb': name}, debug=None))
    sp, m = out['local-sampled']
    done = tr.start_span('done', child_of=sp, ignore_active_span=True)
    done.finish()
    out['local-finished'] = (done, dict(m, span=done.span_id, parent=m['span']))
    return out


def has_trace(m):
    return m is not None and bool(m['trace'] and m['span'] and m['flags'] is not None)


CHILD_OF = ['none', 'local-sampled', 'local-unsampled', 'local-sampled.context', 'remote-sampled',
            'remote-unsampled', 'remote-debug', 'remote-debug-only-flag', 'remote-flags-firehose',
            'debug-id', 'debug-id+baggage', 'baggage-only', 'remote+debug-id', 'half-trace', 'no-trace-id', 'zero-trace-id',
            'no-flags', 'local-finished']
REFS = ['none', 'empty', 'single:child_of:remote-sampled', 'list:follows_from:remote-unsampled',
        'list:child_of:local-sampled', 'list:child_of:None+follows_from:remote-debug',
        'list:follows_from:remote-sampled+child_of:local-unsampled', 'list:child_of:None',
        'list:child_of:debug-id', 'list:child_of:baggage-only+child_of:remote-sampled']
TAGS = ['none', 'empty', 'server', 'client', 'consumer', 'plain', 'server+plain']
# other values of span.kind, none of which makes a server span
KINDS = ['client', 'producer', 'consumer', 'Server', 'SERVER', ' server', 'server,client', 'rpc_server', '', None, True, 1, b'server']
OPS = ['op', '', None]


def mk_tags(name):
    if name.startswith('kind:'):
        return {'span.kind': KINDS[int(name[5:])], 'peer.service': 'server'}
    return {'none': None, 'empty': {}, 'server': {'span.kind': 'server'},
            'client': {'span.kind': 'client'}, 'consumer': {'span.kind': 'consumer', 'message_bus.destination': 'q'}, 'plain': {'a': 'b', 'n': 5},
            'server+plain': {'z': True, 'span.kind': 'server'}, 'prio': {'sampling.priority': 1, 'a': 'b'},
            'unprio': {'a': 'b', 'sampling.priority': 0}, 'server+prio': {'span.kind': 'server', 'sampling.priority': 1}}[name]


class Case(object):
    """One start_span call and what the model says about it."""


def cases(x, cfg, child_names, ref_names, tag_names, op_names, finish=None):
    """Yield Case objects, each produced by a real call on a fresh tracer."""
    from opentracing import Reference
    import opentracing
    for cn, rn, tn, on in itertools.product(child_names, ref_names, tag_names, op_names):
        base = env.rand.base
        env.reset_state()
        env.rand.base = base    # IDs never repeat
        x.world.metrics.counters.clear()
        c = Case()
        c.name = '%s child_of=%s refs=%s tags=%s op=%r' % (cfg, cn, rn, tn, on)
        rep = RecordingReporter()
        samp = ScriptSampler([cfg['sampled']])
        thr = None if cfg['throttle'] is None else ScriptThrottler(cfg['throttle'])
        tr = tracer(x, rep, samp, one_span_per_rpc=cfg['one_rpc'],
                    generate_128bit_trace_id=cfg['bits128'], throttler=thr)
        argm = contexts(tr)
        argm.update(local_spans(tr, None))
        a, m = argm['local-sampled']
        argm['local-sampled.context'] = (a.context, m)
        active = None
        if cfg['active']:
            act = argm['local-' + cfg['active']]
            if cfg['active'] == 'sampled':
                from jaeger_client import SpanContext
                sp = tr.start_span('active', child_of=SpanContext(0x6000, 0x6001, None, 1))
                act = (sp, dict(trace=0x6000, span=sp.span_id, parent=0x6001, flags=1, baggage={},
                                debug=None))
            tr.scope_manager.activate(act[0], False)
            active = act[1]
        samp.asked[:] = []
        rep.spans[:] = []
        if thr:
            thr.asked[:] = []
        x.world.metrics.counters.clear()
        drawn = []
        base = env.rand.base

        def bits(k):
            v = base.getrandbits(k) or 1
            drawn.append((k, v))
            return v
        env.rand.bits_hook = bits
        refs, mrefs = None, []
        if rn == 'empty':
            refs = []
        elif rn != 'none':
            kind, spec = rn.split(':', 1)
            refs = []
            for part in spec.split('+'):
                rt, who = part.split(':')
                if who == 'None':
                    refs.append(Reference(type=rt, referenced_context=None))
                else:
                    arg, m = argm[who]
                    arg = getattr(arg, 'context', arg)
                    refs.append(Reference(type=rt, referenced_context=arg))
                    mrefs.append((rt, m))
            if kind == 'single':
                refs = refs[0]
        child_arg, child_m = argm[cn]
        c.kwargs = dict(operation_name=on, child_of=child_arg, references=refs, tags=mk_tags(tn),
                        ignore_active_span=cfg['ignore'])
        # ---- reference model ----
        if child_m is not None:
            parent = child_m
        elif mrefs:
            parent = mrefs[0][1]
        elif active is not None and not cfg['ignore']:
            parent = active
        else:
            parent = None
        if child_m is not None and not has_trace(child_m) and mrefs:
            parent = mrefs[0][1]
        server = tn in ('server', 'server+plain', 'server+prio')
        c.root = not has_trace(parent)
        c.tags = dict(mk_tags(tn) or {})
        c.asks = []
        c.throttle_asks = 0
        c.baggage = dict(parent['baggage']) if parent else {}
        if c.root:
            c.bits = 128 if cfg['bits128'] else 64
            c.flags = 0
            if parent is not None and parent['debug']:
                c.throttle_asks = 1 if thr else 0
                if cfg['throttle'] in (None, True):
                    c.flags = 3
                    c.tags['jaeger-debug-id'] = parent['debug']
            else:
                c.asks = [on or '']
                if cfg['sampled']:
                    c.flags = 1
                    c.tags.update(samp.tags)
            c.parent_id = None
            c.trace_id = c.span_id = None
        else:
            c.trace_id = parent['trace']
            c.flags = parent['flags'] | (1 if parent['flags'] & 2 else 0)
            if server and cfg['one_rpc']:
                c.span_id, c.parent_id = parent['span'], parent['parent']
            else:
                c.span_id, c.parent_id = None, parent['span']
        c.server = server
        c.mrefs = [(rt, m) for rt, m in mrefs if has_trace(m)]
        c.drawn, c.samp, c.thr, c.tr, c.rep, c.parent = drawn, samp, thr, tr, rep, parent
        c.operation = on or ''
        c.before = tr.scope_manager.active
        if finish is None:
            c.span = tr.start_span(**c.kwargs)
        else:
            c.scope = tr.start_active_span(finish_on_close=finish, **c.kwargs)
            c.span = c.scope.span
        env.rand.bits_hook = None
        yield c
        x.case()


CONFIGS = [dict(sampled=s, one_rpc=o, bits128=b, active=a, ignore=i, throttle=t)
           for s in (True, False) for o in (False, True) for b in (False, True)
           for a in (None, 'sampled', 'unsampled') for i in (False, True)
           for t in (None, True, False) if not (i and a is None)]
# the active span is finished, but its scope is not closed
CONFIGS += [dict(sampled=s, one_rpc=s, bits128=False, active='finished', ignore=False, throttle=None) for s in (True, False)]
