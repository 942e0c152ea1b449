"""T01: Thrift structures survive the wire."""
import importlib
import itertools
from mc.lib import *
from mc import tstruct as T

RULE = ('for every structure of the interface definitions: every subset of its fields, every value of every pair of fields, on '
        'the compact and the binary protocol, written and read; distinct by (structure, protocol, fields)')
BOUNDS = 'all 22 structures; up to 11 fields; 2-6 values per field; lists up to 200 elements; unknown and mistyped fields at every place'

VALUES = {'i16': [7, 0, -1, 32767, -32768], 'i32': [1, 0, -1, 2 ** 31 - 1, -2 ** 31, 300],
          'i64': [5, 0, -1, 2 ** 63 - 1, -2 ** 63, 1600000000000000], 'double': [0.25, 0.0, -1.5, 1e300, float('inf')],
          'bool': [True, False], 'str': ['op', '', 'é\u4e2d\U0001f600', 'x' * 200, '\0 \n']}


def cls(mod, name):
    pkg = 'crossdock' if mod == 'tracetest' else 'jaeger_client'
    return getattr(importlib.import_module('%s.thrift_gen.%s.ttypes' % (pkg, mod)), name)


def minimal(mod, name, depth=0):
    """Field values {attr: plain value} with every field that is required set; lists of length 1."""
    out = {}
    for fid, attr, kind, req in T.TYPES[mod][name]:
        if req:
            out[attr] = default(mod, kind, depth)
    if not out and depth < 3:
        fid, attr, kind, req = T.TYPES[mod][name][0]
        out[attr] = default(mod, kind, depth)
    return out


def default(mod, kind, depth=0):
    if isinstance(kind, list):
        return [minimal(mod, kind[0], depth + 1)]
    if kind in T.TYPES[mod]:
        return minimal(mod, kind, depth + 1)
    return VALUES[kind][0]


def falsy(mod, kind):
    if isinstance(kind, list):
        return []
    return values(mod, kind)[2 if kind in T.TYPES[mod] else 1]


def values(mod, kind):
    if isinstance(kind, list):
        m = minimal(mod, kind[0])
        fields = T.TYPES[mod][kind[0]]
        full = {a: default(mod, k) for _, a, k, _ in fields}
        return [[m], [], [m, full, m], [full] * 14, [m] * 15, [m] * 16, [m] * 200]
    if kind in T.TYPES[mod]:
        full = {a: default(mod, k) for _, a, k, _ in T.TYPES[mod][kind]}
        return [minimal(mod, kind), full, {}]
    return VALUES[kind]


def build(mod, name, vals):
    """The repository's object."""
    kw = {}
    for fid, attr, kind, req in T.TYPES[mod][name]:
        if attr in vals:
            kw[attr] = conv(mod, kind, vals[attr])
    return cls(mod, name)(**kw)


def conv(mod, kind, v):
    if v is None:
        return None
    if isinstance(kind, list):
        return [build(mod, kind[0], i) for i in v]
    if kind in T.TYPES[mod]:
        return build(mod, kind, v)
    return v


def wire_of(mod, name, vals, asked=None):
    """What must stand on the wire: [(id, kind, value)]."""
    out = []
    for fid, attr, kind, req in T.TYPES[mod][name]:
        v = vals.get(attr, T.DEFAULTS.get((mod, name, attr)))
        if v is None:
            continue
        out.append((fid, T.kind_name(kind), wire_val(mod, kind, v)))
    return out


def wire_val(mod, kind, v):
    if isinstance(kind, list):
        return ('struct', [wire_of(mod, kind[0], i) for i in v])
    if kind in T.TYPES[mod]:
        return wire_of(mod, kind, v)
    return v


def as_read(fields):
    """The same as tstruct.Reader.struct() gives it."""
    out = {}
    for fid, kind, v in fields:
        if kind == 'struct':
            v = as_read(v)
        elif kind == 'list':
            v = (v[0], [as_read(i) if v[0] == 'struct' else i for i in v[1]])
        out[fid] = (kind, v)
    return out


def same(a, b):
    """Equal, not caring for the element type of an empty compact list."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return a == b and type(a) is type(b)


def prot(proto, buf=None):
    from thrift.transport import TTransport
    from thrift.protocol import TCompactProtocol, TBinaryProtocol
    t = TTransport.TMemoryBuffer(buf)
    return t, (TCompactProtocol.TCompactProtocol(t) if proto == 'compact' else TBinaryProtocol.TBinaryProtocol(t))


def write(obj, proto):
    t, p = prot(proto)
    obj.write(p)
    return t.getvalue()


def read(mod, name, proto, data):
    t, p = prot(proto, data)
    o = cls(mod, name)()
    o.read(p)
    left = t.cstringio_buf.read() if hasattr(t, 'cstringio_buf') else t._buffer.read()
    return o, left


def attrs(mod, name, o):
    """The object's fields as plain values."""
    out = {}
    for fid, attr, kind, req in T.TYPES[mod][name]:
        v = getattr(o, attr)
        if v is not None:
            out[attr] = back(mod, kind, v)
    return out


def back(mod, kind, v):
    if isinstance(kind, list):
        return [attrs(mod, kind[0], i) for i in v]
    if kind in T.TYPES[mod]:
        return attrs(mod, kind, v)
    return v


def full_of(mod, name, vals):
    """vals with the defaults of fields not given."""
    out = {}
    for fid, attr, kind, req in T.TYPES[mod][name]:
        v = vals.get(attr, T.DEFAULTS.get((mod, name, attr)))
        if v is None:
            continue
        if isinstance(kind, list):
            v = [full_of(mod, kind[0], i) for i in v]
        elif kind in T.TYPES[mod]:
            v = full_of(mod, kind, v)
        out[attr] = v
    return out


def judge(x, mod, name, proto, vals):
    o = build(mod, name, vals)
    want = wire_of(mod, name, vals)
    data = write(o, proto)
    r = T.Reader(proto, data)
    try:
        got = r.struct()
    except (T.Bad, UnicodeDecodeError) as e:
        x.fail('%s.%s %r written by %s is not well-formed: %s' % (mod, name, vals, proto, e), data=data[:300])
    x.eq(r.i, len(data), 'bytes of one %s.%s on %s' % (mod, name, proto), fields=vals)
    x.check(same(got, as_read(want)), '%s.%s on the %s wire: got %r, expected %r' % (mod, name, proto, got, as_read(want)))
    o2, left = read(mod, name, proto, T.enc_struct(proto, want))
    x.check(not left, '%s.%s left %d bytes unread' % (mod, name, len(left)))
    x.check(same(attrs(mod, name, o2), full_of(mod, name, vals)),
            '%s.%s read from %s: got %r, expected %r' % (mod, name, proto, attrs(mod, name, o2), full_of(mod, name, vals)))
    x.case()
    return o, o2, want


def pick_struct(x):
    mod = x.pick(sorted(T.TYPES))
    name = x.pick(sorted(T.TYPES[mod]))
    return mod, name, T.TYPES[mod][name]


def subsets(x):
    """Every subset of the fields."""
    mod, name, fields = pick_struct(x)
    proto = x.pick(['compact', 'binary'])
    pickv = x.pick([default, falsy])
    for n in range(len(fields) + 1):
        for sub in itertools.combinations(fields, n):
            vals = {a: pickv(mod, k) for _, a, k, _ in sub}
            o, o2, want = judge(x, mod, name, proto, vals)
            x.check(o == o2 and not (o != o2), '%s %r is not equal to itself after the wire' % (name, vals))
            try:
                h = hash(o)
            except TypeError:
                pass        # holds lists
            else:
                x.eq(hash(o2), h, 'hash of two equal structures %s' % name)
            x.check(name in repr(o), 'repr of %s is %r' % (name, o))
            # complete, or refused by validate()
            try:
                o.validate()
                ok = True
            except Exception as e:   # noqa
                ok = False
                x.eq(type(e).__name__, 'TProtocolException', 'error of validate()')
            x.eq(ok, all(a in vals for _, a, _, req in fields if req), 'validate() of %s.%s with %s' % (mod, name, sorted(vals)))
            if sub:
                less = {a: v for a, v in vals.items() if a != sub[0][1]}
                o3 = build(mod, name, less)
                if (mod, name, sub[0][1]) not in T.DEFAULTS or vals[sub[0][1]] != T.DEFAULTS[mod, name, sub[0][1]]:
                    x.check(o != o3 and not (o == o3), '%s with and without %s are equal' % (name, sub[0][1]))
        x.state((mod, name, proto, pickv is falsy, n))


def pairs(x, tier='quick'):
    """All values of every pair of fields."""
    mod, name, fields = pick_struct(x)
    proto = x.pick(['compact', 'binary'])
    base = minimal(mod, name)
    for (_, a, ka, _), (_, b, kb, _) in itertools.combinations_with_replacement(fields, 2):
        for va in values(mod, ka):
            for vb in values(mod, kb) if a != b else [va]:
                o, o2, _ = judge(x, mod, name, proto, dict(base, **{a: va, b: vb}))
                x.check(o == o2, '%s is not equal to itself after the wire' % name)
        x.state((mod, name, proto, a, b))


def equality(x):
    """Structures are equal if and only if their fields are, however they came by them."""
    mod, name, fields = pick_struct(x)
    full = {a: default(mod, k) for _, a, k, _ in fields}
    for _, attr, kind, _ in fields:
        num = isinstance(kind, str) and kind in ('i8', 'i16', 'i32', 'i64', 'double', 'bool')
        if num:
            vs = [None, 0, 1, 2, 1.0, 0.0, True, False, -1, 0.5]
        elif kind == 'str':
            vs = [None, '', 'a', 'A', 'a ', b'a', '\xe9', 'e\u0301', '1', 1]
        else:
            continue
        for va in vs:
            for vb in vs:
                a, b = build(mod, name, full), build(mod, name, full)
                setattr(a, attr, va)
                keep = dict(b.__dict__)
                b.__dict__.clear()                  # set in another order
                setattr(b, attr, vb)
                for k in reversed(list(keep)):
                    if k != attr:
                        setattr(b, k, keep[k])
                eq = va == vb
                x.eq((a == b, b == a, a != b, b != a), (eq, eq, not eq, not eq), '%s with %s=%r and %r: ==, !=' % (name, attr, va, vb))
                x.case()
    a = build(mod, name, full)
    other = type('Other', (), {})()
    other.__dict__.update(a.__dict__)
    for o in (other, None, 0, '', dict(a.__dict__), type(a)):
        x.check(not a == o and a != o, '%s is equal to %r' % (name, o))
    x.state((mod, name))


UNKNOWN = [(99, 'i8', 3), (99, 'i16', -2), (99, 'i32', 70000), (99, 'i64', -1), (99, 'double', 2.5), (99, 'str', 'unknown'),
           (99, 'bool', True), (99, 'bool', False), (99, 'struct', [(1, 'i32', 5), (2, 'struct', [])]),
           (99, 'list', ('i32', [1, 2, 3])), (99, 'list', ('struct', [[(1, 'str', 'x')]])), (30000, 'i32', 1), (13, 'str', 'near')]


def tolerant(x):
    """Fields in any order, unknown fields and fields of another type do not disturb the others."""
    mod, name, fields = pick_struct(x)
    proto = x.pick(['compact', 'binary'])
    vals = {a: default(mod, k) for _, a, k, _ in fields}
    want = wire_of(mod, name, vals)
    orders = list(itertools.permutations(want)) if len(want) <= 4 else \
        [want[i:] + want[:i] for i in range(len(want))] + [want[::-1]] + \
        [want[:i] + [want[j]] + want[i + 1:j] + [want[i]] + want[j + 1:] for i, j in itertools.combinations(range(len(want)), 2)]

    def rd(fs, expect, what):
        o, left = read(mod, name, proto, T.enc_struct(proto, fs))
        x.case()
        x.check(not left and same(attrs(mod, name, o), expect), '%s.%s with %s read from %s: got %r, expected %r' % (
            mod, name, what, proto, attrs(mod, name, o), expect))
    full = full_of(mod, name, vals)
    for od in orders:
        rd(list(od), full, 'fields in the order %s' % [f[0] for f in od])
    ids = [f[0] for f in fields]
    for u in UNKNOWN:
        if u[0] in ids:
            continue
        for i in range(len(want) + 1):
            rd(want[:i] + [u] + want[i:], full, 'an unknown field %r' % (u,))
    for i, (fid, kind, _) in enumerate(want):
        attr = [a for f, a, _, _ in fields if f == fid][0]
        expect = {k: v for k, v in full.items() if k != attr}
        d = T.DEFAULTS.get((mod, name, attr))
        if d is not None:
            expect[attr] = d
        for u in UNKNOWN:
            if u[1] != kind:
                rd(want[:i] + [(fid,) + u[1:]] + want[i + 1:], expect, 'a field %d of another type, %r' % (fid, u))
    # what is cut short is not taken for complete
    data = T.enc_struct(proto, want)
    for n in range(len(data)):
        try:
            o, _ = read(mod, name, proto, data[:n])
        except Exception:   # noqa
            x.case()
            continue
        x.fail('%s.%s cut after %d of %d bytes on %s was read as %r' % (mod, name, n, len(data), proto, o))
    x.state((mod, name, proto))


def enums(x):
    for mod, es in T.ENUMS.items():
        for name, vals in es.items():
            c = cls(mod, name)
            for k, v in vals.items():
                x.eq(getattr(c, k), v, '%s.%s' % (name, k))
                x.eq(c._VALUES_TO_NAMES[v], k, 'name of %s %d' % (name, v))
                x.eq(c._NAMES_TO_VALUES[k], v, 'value of %s %s' % (name, k))
                x.case()
    x.state('enums')


def strategies(x):
    """A strategy response becomes the sampler it describes, or an error."""
    from jaeger_client.thrift import parse_sampling_strategy as parse
    from jaeger_client import sampler as S
    M = 'sampling'
    for st in (0, 1, 2, -1, None):
        for rate in (None, 0.0, 0.25, 1.0, -0.0, -0.01, 1.01, float('nan'), float('inf'), 5e-324):
            for mtps in (None, 0, 1, 499, 500, -1, 32767):
                v = {}
                if st is not None:
                    v['strategyType'] = st
                if rate is not None:
                    v['probabilisticSampling'] = {'samplingRate': rate}
                if mtps is not None:
                    v['rateLimitingSampling'] = {'maxTracesPerSecond': mtps}
                s, err = parse(build(M, 'SamplingStrategyResponse', v))
                x.case()
                good = (st == 0 and rate is not None and 0 <= rate <= 1) or (st == 1 and mtps is not None and 0 <= mtps < 500)
                if not good:
                    x.check(s is None and err, 'strategy %r gave %r, %r' % (v, s, err))
                    continue
                x.check(err is None, 'strategy %r gave an error %r' % (v, err))
                if st == 0:
                    x.check(type(s) is S.ProbabilisticSampler and s.rate == rate, 'strategy %r gave %s' % (v, s))
                else:
                    x.check(type(s) is S.RateLimitingSampler and s.traces_per_second == mtps, 'strategy %r gave %s' % (v, s))
                s.close()
    x.state('strategies')


def pump(x):
    """Long lists, strings and varints of every length around the powers of two."""
    proto = x.pick(['compact', 'binary'])
    mod, name, attr, kind = x.pick(PUMPED)
    sizes = sorted(set([2 ** i + d for i in range(0, 12) for d in (-1, 0, 1)] + [100, 180, 300, 1000]))
    for n in sizes if not isinstance(kind, list) else [s for s in sizes if s < 600]:
        if kind == 'str':
            v = 'y' * n
        else:
            m = minimal(mod, kind[0])
            k = [a for _, a, kk, _ in T.TYPES[mod][kind[0]] if kk in ('str', 'i64', 'i32')]
            v = []
            for i in range(n):
                e = dict(m)
                for a in k:
                    if a in e:
                        e[a] = ('e%d' % i) if isinstance(e[a], str) else (e[a] if a in ENUMS else i)
                v.append(e)
        o, o2, _ = judge(x, mod, name, proto, dict(minimal(mod, name), **{attr: v}))
        x.check(o == o2, '%s.%s of length %d is not equal to itself after the wire' % (name, attr, n))
    for b in range(0, 64) if kind == 'str' else []:
        for d in (-1, 0, 1):
            for s in (1, -1):
                v = s * ((1 << b) + d)
                if -2 ** 63 <= v < 2 ** 63:
                    judge(x, 'jaeger', 'Span', proto, dict(minimal('jaeger', 'Span'), traceIdLow=v, startTime=v, flags=v if -2 ** 31 <= v < 2 ** 31 else 1))
    x.state((proto, mod, name, attr))


ENUMS = ('vType', 'refType', 'annotation_type', 'strategyType', 'samplingType')
PUMPED = [(m, s, a, k) for m in sorted(T.TYPES) for s in sorted(T.TYPES[m]) for _, a, k, _ in T.TYPES[m][s] if k == 'str' or isinstance(k, list)]


def scenarios(tier):
    return [Scenario('pump', pump), Scenario('subsets', subsets), Scenario('equality', equality), Scenario('pairs', pairs), Scenario('tolerant', tolerant), Scenario('enums', enums),
            Scenario('strategies', strategies)]
