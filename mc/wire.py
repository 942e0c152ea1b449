"""Independent strict decoder for what jaeger-agent receives: Thrift compact emitBatch datagrams.

Written from the Thrift compact-protocol specification and jaeger.thrift / agent.thrift; shares no
code with the repository or the thrift library.
"""
import struct


class Corrupt(Exception):
    pass


class _R(object):
    def __init__(self, b):
        self.b, self.i = bytes(b), 0

    def take(self, n):
        if n < 0 or self.i + n > len(self.b):
            raise Corrupt('truncated at %d (need %d of %d)' % (self.i, n, len(self.b)))
        v = self.b[self.i:self.i + n]
        self.i += n
        return v

    def byte(self):
        return self.take(1)[0]

    def varint(self):
        r = s = 0
        while True:
            c = self.byte()
            r |= (c & 0x7f) << s
            if not c & 0x80:
                return r
            s += 7
            if s > 63:
                raise Corrupt('varint too long')

    def zz(self, bits):
        n = self.varint()
        if n >= 1 << bits:
            raise Corrupt('varint does not fit i%d' % bits)
        return (n >> 1) ^ -(n & 1)

    def binary(self):
        return self.take(self.varint())


# compact type ids
T_TRUE, T_FALSE, T_I8, T_I16, T_I32, T_I64, T_DOUBLE, T_BIN, T_LIST, T_SET, T_MAP, T_STRUCT = \
    range(1, 13)


def _value(r, t):
    if t in (T_TRUE, T_FALSE):
        return t == T_TRUE
    if t == T_I8:
        return struct.unpack('b', r.take(1))[0]
    if t == T_I16:
        return ('i16', r.zz(16))
    if t == T_I32:
        return ('i32', r.zz(32))
    if t == T_I64:
        return ('i64', r.zz(64))
    if t == T_DOUBLE:
        return ('double', struct.unpack('<d', r.take(8))[0])
    if t == T_BIN:
        return ('bin', r.binary())
    if t == T_LIST:
        h = r.byte()
        n, et = h >> 4, h & 15
        if n == 15:
            n = r.varint()
        if n > len(r.b):
            raise Corrupt('list longer than datagram')
        return ('list', et, [_value(r, et) for _ in range(n)])
    if t == T_STRUCT:
        return ('struct', _struct(r))
    raise Corrupt('unexpected type %d' % t)


def _struct(r):
    fields, last = {}, 0
    while True:
        h = r.byte()
        if h == 0:
            return fields
        t, d = h & 15, h >> 4
        fid = last + d if d else r.zz(16)
        last = fid
        if fid in fields:
            raise Corrupt('field %d twice' % fid)
        fields[fid] = _value(r, t)


def _get(f, fid, kind, what, required=True):
    v = f.pop(fid, None)
    if v is None:
        if required:
            raise Corrupt('%s: required field %d missing' % (what, fid))
        return None
    if kind == 'bool':
        if not isinstance(v, bool):
            raise Corrupt('%s.%d is not a bool' % (what, fid))
        return v
    if not isinstance(v, tuple) or v[0] != kind:
        raise Corrupt('%s.%d has wrong type %r' % (what, fid, v))
    if kind == 'list':
        return v[2]
    return v[1]


def _str(f, fid, what, required=True):
    v = _get(f, fid, 'bin', what, required)
    if v is None:
        return None
    try:
        return v.decode('utf-8')
    except UnicodeDecodeError:
        raise Corrupt('%s.%d is not UTF-8' % (what, fid))


def _done(f, what):
    if f:
        raise Corrupt('%s: unknown fields %s' % (what, sorted(f)))


def _u64(v):
    return v & 0xFFFFFFFFFFFFFFFF


def _structs(items, what):
    for i in items:
        if not isinstance(i, tuple) or i[0] != 'struct':
            raise Corrupt('%s: element is not a struct' % what)
        yield i[1]


def tag(f):
    k = _str(f, 1, 'Tag')
    vt = _get(f, 2, 'i32', 'Tag')
    vals = {}
    s = _str(f, 3, 'Tag', False)
    if s is not None:
        vals[0] = s
    d = _get(f, 4, 'double', 'Tag', False)
    if d is not None:
        vals[1] = d
    b = _get(f, 5, 'bool', 'Tag', False)
    if b is not None:
        vals[2] = b
    n = _get(f, 6, 'i64', 'Tag', False)
    if n is not None:
        vals[3] = n
    x = _get(f, 7, 'bin', 'Tag', False)
    if x is not None:
        vals[4] = x
    _done(f, 'Tag')
    if vt not in vals:
        raise Corrupt('Tag %r: type %r but value fields %r' % (k, vt, vals))
    if len(vals) != 1:
        raise Corrupt('Tag %r: several values' % k)
    return (k, {0: 'str', 1: 'double', 2: 'bool', 3: 'long', 4: 'binary'}[vt], vals[vt])


def decode_process(f):
    svc = _str(f, 1, 'Process')
    tags = [tag(t) for t in _structs(_get(f, 2, 'list', 'Process', False) or [], 'Process.tags')]
    _done(f, 'Process')
    return {'service': svc, 'tags': tags}


def decode_span(f):
    s = {}
    low, high = _get(f, 1, 'i64', 'Span'), _get(f, 2, 'i64', 'Span')
    s['trace_id'] = (_u64(high) << 64) | _u64(low)
    s['span_id'] = _u64(_get(f, 3, 'i64', 'Span'))
    s['parent_id'] = _u64(_get(f, 4, 'i64', 'Span'))
    s['operation'] = _str(f, 5, 'Span')
    refs = []
    for rf in _structs(_get(f, 6, 'list', 'Span', False) or [], 'Span.references'):
        rt = _get(rf, 1, 'i32', 'SpanRef')
        rl, rh = _get(rf, 2, 'i64', 'SpanRef'), _get(rf, 3, 'i64', 'SpanRef')
        sp = _u64(_get(rf, 4, 'i64', 'SpanRef'))
        _done(rf, 'SpanRef')
        if rt not in (0, 1):
            raise Corrupt('SpanRef type %r' % rt)
        refs.append(({0: 'child_of', 1: 'follows_from'}[rt], (_u64(rh) << 64) | _u64(rl), sp))
    s['references'] = refs
    s['flags'] = _get(f, 7, 'i32', 'Span')
    s['start'] = _get(f, 8, 'i64', 'Span')
    s['duration'] = _get(f, 9, 'i64', 'Span')
    s['tags'] = [tag(t) for t in _structs(_get(f, 10, 'list', 'Span', False) or [], 'Span.tags')]
    logs = []
    for lf in _structs(_get(f, 11, 'list', 'Span', False) or [], 'Span.logs'):
        ts = _get(lf, 1, 'i64', 'Log')
        fields = [tag(t) for t in _structs(_get(lf, 2, 'list', 'Log'), 'Log.fields')]
        _done(lf, 'Log')
        logs.append((ts, fields))
    s['logs'] = logs
    _done(f, 'Span')
    return s


def decode_batch(data):
    """-> {'service', 'tags', 'spans': [...]}; Corrupt unless the datagram is exactly one batch."""
    r = _R(data)
    if r.byte() != 0x82:
        raise Corrupt('not a compact message')
    vt = r.byte()
    if vt & 0x1f != 1:
        raise Corrupt('bad version')
    if vt >> 5 != 4:
        raise Corrupt('not a oneway message (%d)' % (vt >> 5))
    seq = r.varint()
    name = r.binary()
    if name != b'emitBatch':
        raise Corrupt('method %r' % name)
    args = _struct(r)
    if r.i != len(r.b):
        raise Corrupt('%d trailing bytes after the batch' % (len(r.b) - r.i))
    b = _get(args, 1, 'struct', 'emitBatch')
    _done(args, 'emitBatch')
    proc = decode_process(_get(b, 1, 'struct', 'Batch'))
    spans = [decode_span(s) for s in _structs(_get(b, 2, 'list', 'Batch'), 'Batch.spans')]
    _done(b, 'Batch')
    return {'service': proc['service'], 'tags': proc['tags'], 'spans': spans, 'seq': seq}
