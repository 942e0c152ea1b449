"""T02: every remote call is settled once, with its own answer."""
import importlib
import itertools
from mc.lib import *
from mc import tstruct as T
from mc.checks import t01 as S

RULE = ('every history of calls, answers in any order, errors, incomplete and unknown answers and a closing connection, on every '
        'service and both protocols; distinct by (service, protocol, history)')
BOUNDS = '5 operations of 4 services; histories of up to 6 events with up to 3 outstanding calls; 3 concurrent requests at a server, answered in every order'

CALL, REPLY, EXC, ONEWAY = 1, 2, 3, 4

# module, method, oneway, [(id, argument kind, module)], result (id, kind, module) or None
OPS = [('jaeger.Collector', 'submitBatches', False, ('list', 'jaeger', 'Batch'), ('list', 'jaeger', 'BatchSubmitResponse')),
       ('sampling.SamplingManager', 'getSamplingStrategy', False, ('str',), ('struct', 'sampling', 'SamplingStrategyResponse')),
       ('zipkincore.ZipkinCollector', 'submitZipkinBatch', False, ('list', 'zipkincore', 'Span'), ('list', 'zipkincore', 'Response')),
       ('agent.Agent', 'emitBatch', True, ('struct', 'jaeger', 'Batch'), None),
       ('agent.Agent', 'emitZipkinBatch', True, ('list', 'zipkincore', 'Span'), None)]


def sample(kind, i):
    """The i-th distinct value of the kind: (plain, object, (wire kind, wire value))."""
    if kind[0] == 'str':
        v = 'svc-%d' % i
        return v, ('str', v)
    mod, name = kind[1:]
    ids = {'Batch': lambda: {'process': {'serviceName': 'p%d' % i}, 'spans': [S.minimal('jaeger', 'Span')] * (i % 3)},
           'Span': lambda: {'trace_id': i + 1, 'name': 'z%d' % i, 'debug': i % 2 == 0},
           'BatchSubmitResponse': lambda: {'ok': i % 2 == 0}, 'Response': lambda: {'ok': i % 2 == 0},
           'SamplingStrategyResponse': lambda: {'strategyType': i % 2, 'probabilisticSampling': {'samplingRate': i / 8.}}}
    v = ids[name]()
    if kind[0] == 'struct':
        return S.build(mod, name, v), ('struct', S.wire_of(mod, name, v))
    n = i
    return [S.build(mod, name, v)] * n, ('list', ('struct', [S.wire_of(mod, name, v)] * n))


def value_is(x, got, kind, i, what):
    want = sample(kind, i)[0]
    x.check(got == want, '%s: got %r, expected %r' % (what, got, want))


def factory(proto):
    from thrift.protocol import TCompactProtocol, TBinaryProtocol
    return TCompactProtocol.TCompactProtocolFactory() if proto == 'compact' else TBinaryProtocol.TBinaryProtocolFactory()


class Wire(object):
    """A connected framed transport: what is written until flush() is one frame; frames are handed to readFrame()."""

    def __init__(self, x):
        from thrift.transport import TTransport
        from tornado import concurrent
        self.io_loop = x.world.io_loop
        self.buf, self.sent, self.waiting, self.frames = b'', [], None, []
        self.mk = concurrent.Future
        self.err = TTransport.TTransportException

    def write(self, b):
        self.buf += bytes(b)

    def flush(self):
        self.sent.append(self.buf)
        self.buf = b''

    def readFrame(self):
        f = self.mk()
        if self.frames:
            self._give(f, self.frames.pop(0))
        else:
            self.waiting = f
        return f

    def _give(self, f, fr):
        if isinstance(fr, Exception):
            f.set_exception(fr)
        else:
            f.set_result(fr)

    def arrive(self, fr):
        if self.waiting is not None:
            f, self.waiting = self.waiting, None
            self._give(f, fr)
        else:
            self.frames.append(fr)


def run(x):
    x.world.vloop.run_ready()


def on_loop(x, fn):
    """fn() called by the event loop, before anything else it has to do."""
    import asyncio
    prev = asyncio._get_running_loop()
    asyncio._set_running_loop(x.world.vloop)
    try:
        return fn()
    finally:
        asyncio._set_running_loop(prev)


def decode(x, proto, frame):
    r = T.Reader(proto, frame)
    try:
        return r.message()
    except (T.Bad, UnicodeDecodeError) as e:
        x.fail('a malformed message was sent: %s' % e, data=frame[:200])


def check_call(x, frame, proto, op, i, seen):
    name, mtype, seq, body = decode(x, proto, frame)
    x.eq(name, op[1], 'method')
    x.eq(mtype, ONEWAY if op[2] else CALL, 'type of the message of %s' % op[1])
    want = S.as_read([(1,) + sample(op[3], i)[1]])
    x.check(S.same(body, want), 'arguments of %s: got %r, expected %r' % (op[1], body, want))
    x.check(seq not in seen, 'sequence number %d used again' % seq)
    seen.add(seq)
    return seq


def client(x, depth=5):
    """Histories of one client on one connection."""
    op = x.pick(OPS[:3])
    proto = x.pick(['compact', 'binary'])
    mod = importlib.import_module('jaeger_client.thrift_gen.' + op[0])
    tr = Wire(x)
    c = mod.Client(tr, factory(proto))
    run(x)
    futs, seqs, expect, seen = [], [], [], set()
    hist = []
    early = x.pick([False, True])     # answers arrive before the loop ran the client
    for step in range(depth):
        open_ = [i for i, e in enumerate(expect) if e is None]
        acts = ['end'] + (['call'] if len(futs) < 3 else [])
        for i in open_:
            acts += [('reply', i), ('exception', i), ('empty', i), ('cancel', i)]
        acts += ['foreign'] + [('again', i) for i, e in enumerate(expect) if e is not None][:1] + ['close']
        a = x.pick(acts)
        hist.append(a)
        if a == 'end':
            break
        if a == 'call':
            i = len(futs)
            futs.append(on_loop(x, lambda: getattr(c, op[1])(sample(op[3], i)[0])))
            expect.append(None)
            x.eq(len(tr.sent), i + 1, 'messages sent after %d calls' % (i + 1))
            seqs.append(check_call(x, tr.sent[-1], proto, op, i, seen))
        elif a == 'foreign':
            tr.arrive(T.enc_message(proto, op[1], REPLY, 7777, T.enc_struct(proto, [(0,) + sample(op[4], 0)[1]])))
        elif a == 'close':
            tr.arrive(tr.err(tr.err.END_OF_FILE, 'closed'))
            expect = [('closed',) if e is None else e for e in expect]
            run(x)
            break
        elif a[0] == 'cancel':
            # the caller gives up, e.g. by asyncio.wait_for(); the answer may still arrive
            on_loop(x, futs[a[1]].cancel)
            expect[a[1]] = ('cancelled',)
        else:
            kind, i = a
            if kind in ('reply', 'again'):
                body = [(0,) + sample(op[4], i if kind == 'reply' else i + 3)[1]]
                tr.arrive(T.enc_message(proto, op[1], REPLY, seqs[i], T.enc_struct(proto, body)))
                if kind == 'reply':
                    expect[i] = ('value', i)
            elif kind == 'exception':
                tr.arrive(T.enc_message(proto, op[1], EXC, seqs[i], T.enc_struct(proto, [(1, 'str', 'boom %d' % i), (2, 'i32', 6)])))
                expect[i] = ('error', 6, 'boom %d' % i)
            else:
                tr.arrive(T.enc_message(proto, op[1], REPLY, seqs[i], T.enc_struct(proto, [])))
                expect[i] = ('error', 5, None)
        if not early:
            run(x)
            judge(x, op, futs, expect, hist)
    run(x)
    judge(x, op, futs, expect, hist)
    x.state((op[1], proto, early, str(hist)))


def judge(x, op, futs, expect, hist):
    for i, (f, e) in enumerate(zip(futs, expect)):
        if e is None:
            x.check(not f.done(), 'call %d was settled without an answer' % i, history=hist)
            continue
        x.check(f.done(), 'call %d was never settled after %r' % (i, e), history=hist)
        if e[0] == 'cancelled':
            x.check(f.cancelled(), 'call %d is not cancelled any more' % i, history=hist)
            continue
        err = f.exception()
        if e[0] == 'value':
            x.check(err is None, 'call %d failed with %r though it was answered' % (i, err), history=hist)
            value_is(x, f.result(), op[4], e[1], 'answer of call %d' % i)
        elif e[0] == 'closed':
            x.eq(type(err).__name__, 'TTransportException', 'call %d when the connection closes' % i, history=hist)
        else:
            x.eq(type(err).__name__, 'TApplicationException', 'error of call %d' % i, history=hist)
            x.eq(err.type, e[1], 'type of the error of call %d' % i, history=hist)
            if e[2]:
                x.eq(err.message, e[2], 'message of the error of call %d' % i, history=hist)


def oneway(x):
    """Calls without an answer."""
    proto = x.pick(['compact', 'binary'])
    mod = importlib.import_module('jaeger_client.thrift_gen.agent.Agent')
    for n in range(1, 5):
        for seq in itertools.product(OPS[3:], repeat=n):
            tr = Wire(x)
            c = mod.Client(tr, factory(proto))
            seen = set()
            for i, op in enumerate(seq):
                x.eq(on_loop(x, lambda: getattr(c, op[1])(sample(op[3], i)[0])), None, 'result of a one-way call')
                x.eq(len(tr.sent), i + 1, 'messages sent')
                check_call(x, tr.sent[-1], proto, op, i, seen)
            x.case()
        x.state((proto, n))


def server(x):
    """Requests at a server, handled at once or later, answered in every order."""
    from tornado import concurrent
    from thrift.transport import TTransport
    modname = x.pick(sorted(set(o[0] for o in OPS)))
    ops = [o for o in OPS if o[0] == modname]
    proto = x.pick(['compact', 'binary'])
    mod = importlib.import_module('jaeger_client.thrift_gen.' + modname)
    got, pending = [], {}

    class H(object):
        pass

    h = H()
    mode = {}

    def add(op):
        def handler(arg):
            i = len(got)
            got.append((op[1], arg))
            if op[2]:
                return None
            if mode['m'] == 'now':
                return sample(op[4], i)[0]
            pending[i] = concurrent.Future()   # of the loop that runs
            return pending[i]
        setattr(h, op[1], handler)
    for op in ops:
        add(op)
    p = mod.Processor(h)
    pf = factory(proto)
    n = x.choose(3) + 1
    reqs, outs = [], []
    for i in range(n):
        op = x.pick(ops + [None])
        mode['m'] = x.pick(['now', 'later'])
        seq = 40 + 3 * i
        if op is None:
            data = T.enc_message(proto, 'noSuchCall', CALL, seq, T.enc_struct(proto, [(1, 'list', ('i32', [1, 2])), (2, 'str', 'x')]))
        else:
            data = T.enc_message(proto, op[1], ONEWAY if op[2] else CALL, seq, T.enc_struct(proto, [(1,) + sample(op[3], i)[1]]))
        out = Wire(x)
        k = len(got)
        on_loop(x, lambda: p.process(pf.getProtocol(TTransport.TMemoryBuffer(data)), pf.getProtocol(out)))
        run(x)
        outs.append(out)
        if op is None:
            x.eq(len(got), k, 'calls of the handler by an unknown method')
            reqs.append((None, seq, None))
            x.eq(len(out.sent), 1, 'answers to an unknown method')
            name, mtype, s, body = decode(x, proto, out.sent[0])
            x.eq((name, mtype, s, body.get(2)), ('noSuchCall', EXC, seq, ('i32', 1)), 'answer to an unknown method')
            continue
        x.eq(len(got), k + 1, 'calls of the handler')
        x.eq(got[-1][0], op[1], 'method called')
        value_is(x, got[-1][1], op[3], i, 'argument of %s' % op[1])
        reqs.append((op, seq, k))
        if op[2]:
            x.eq(len(out.sent), 0, 'answers to a one-way call')
        elif mode['m'] == 'now':
            answer(x, proto, out, op, seq, k)
        else:
            x.eq(len(out.sent), 0, 'answers before the handler finished')
    order = list(pending)
    while order:
        k = order.pop(x.choose(len(order)))
        i = [j for j, r in enumerate(reqs) if r[2] == k][0]
        op, seq, _ = reqs[i]
        pending[k].set_result(sample(op[4], k)[0])
        run(x)
        answer(x, proto, outs[i], op, seq, k)
        for j, r in enumerate(reqs):
            if r[2] in order:
                x.eq(len(outs[j].sent), 0, 'answers to request %d before its handler finished' % j)
    x.state((modname, proto, str([(r[0] and r[0][1], r[2] in pending) for r in reqs])))


def answer(x, proto, out, op, seq, k):
    x.eq(len(out.sent), 1, 'answers to one request')
    name, mtype, s, body = decode(x, proto, out.sent[0])
    x.eq((name, mtype, s), (op[1], REPLY, seq), 'head of the answer')
    want = S.as_read([(0,) + sample(op[4], k)[1]])
    x.check(S.same(body, want), 'answer of %s: got %r, expected %r' % (op[1], body, want))


def pump(x):
    """Many calls outstanding at once and many one after the other: everyone gets the own answer."""
    op = x.pick(OPS[:3])
    proto = x.pick(['compact', 'binary'])
    order = x.pick(['first', 'last', 'middle', 'at-once'])
    n = x.pick([1, 15, 16, 17, 50, 300])
    mod = importlib.import_module('jaeger_client.thrift_gen.' + op[0])
    tr = Wire(x)
    c = mod.Client(tr, factory(proto))
    run(x)
    seen = set()
    futs, seqs = [], []

    def reply(i):
        tr.arrive(T.enc_message(proto, op[1], REPLY, seqs[i], T.enc_struct(proto, [(0,) + sample(op[4], i % 9)[1]])))
        run(x)

    def settled(i):
        x.check(futs[i].done(), 'call %d of %d was never settled' % (i, n))
        x.check(futs[i].exception() is None, 'call %d of %d failed: %r' % (i, n, futs[i].exception()))
        value_is(x, futs[i].result(), op[4], i % 9, 'answer of call %d of %d' % (i, n))
    for i in range(n):
        futs.append(on_loop(x, lambda: getattr(c, op[1])(sample(op[3], i % 9)[0])))
        x.eq(len(tr.sent), i + 1, 'messages sent after %d calls' % (i + 1))
        seqs.append(check_call(x, tr.sent[-1], proto, op, i % 9, seen))
        if order == 'at-once':
            reply(i)
            settled(i)
    todo = list(range(n)) if order != 'at-once' else []
    if order == 'last':
        todo.reverse()
    elif order == 'middle':
        todo = todo[n // 2:] + todo[:n // 2]
    for k, i in enumerate(todo):
        for j in todo[k:k + 20]:
            x.check(not futs[j].done(), 'call %d was settled without an answer' % j)
        reply(i)
        settled(i)
    x.case(n)
    x.state((op[1], proto, order, n))


def scenarios(tier):
    return [Scenario('pump', pump), Scenario('client', client, params=dict(depth=6 if tier == 'thorough' else 5)), Scenario('oneway', oneway), Scenario('server', server)]
