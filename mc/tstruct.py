"""Thrift structures as the interface definitions (jaeger, agent, sampling, zipkincore and tracetest.thrift) have
them, with an own encoder and decoder of the compact and the binary protocol.  Shares no code with the repository or the
thrift library."""
import struct

# name: [(field id, attribute, kind, required)]
TYPES = {
    'jaeger': {
        'Tag': [(1, 'key', 'str', 1), (2, 'vType', 'i32', 1), (3, 'vStr', 'str', 0), (4, 'vDouble', 'double', 0),
                (5, 'vBool', 'bool', 0), (6, 'vLong', 'i64', 0), (7, 'vBinary', 'str', 0)],
        'Log': [(1, 'timestamp', 'i64', 1), (2, 'fields', ['Tag'], 1)],
        'SpanRef': [(1, 'refType', 'i32', 1), (2, 'traceIdLow', 'i64', 1), (3, 'traceIdHigh', 'i64', 1), (4, 'spanId', 'i64', 1)],
        'Span': [(1, 'traceIdLow', 'i64', 1), (2, 'traceIdHigh', 'i64', 1), (3, 'spanId', 'i64', 1), (4, 'parentSpanId', 'i64', 1),
                 (5, 'operationName', 'str', 1), (6, 'references', ['SpanRef'], 0), (7, 'flags', 'i32', 1),
                 (8, 'startTime', 'i64', 1), (9, 'duration', 'i64', 1), (10, 'tags', ['Tag'], 0), (11, 'logs', ['Log'], 0)],
        'Process': [(1, 'serviceName', 'str', 1), (2, 'tags', ['Tag'], 0)],
        'Batch': [(1, 'process', 'Process', 1), (2, 'spans', ['Span'], 1)],
        'BatchSubmitResponse': [(1, 'ok', 'bool', 1)],
    },
    'sampling': {
        'ProbabilisticSamplingStrategy': [(1, 'samplingRate', 'double', 1)],
        'RateLimitingSamplingStrategy': [(1, 'maxTracesPerSecond', 'i16', 1)],
        'OperationSamplingStrategy': [(1, 'operation', 'str', 1), (2, 'probabilisticSampling', 'ProbabilisticSamplingStrategy', 1)],
        'PerOperationSamplingStrategies': [(1, 'defaultSamplingProbability', 'double', 1),
                                           (2, 'defaultLowerBoundTracesPerSecond', 'double', 1),
                                           (3, 'perOperationStrategies', ['OperationSamplingStrategy'], 1),
                                           (4, 'defaultUpperBoundTracesPerSecond', 'double', 0)],
        'SamplingStrategyResponse': [(1, 'strategyType', 'i32', 1), (2, 'probabilisticSampling', 'ProbabilisticSamplingStrategy', 0),
                                     (3, 'rateLimitingSampling', 'RateLimitingSamplingStrategy', 0),
                                     (4, 'operationSampling', 'PerOperationSamplingStrategies', 0)],
    },
    'zipkincore': {
        'Endpoint': [(1, 'ipv4', 'i32', 0), (2, 'port', 'i16', 0), (3, 'service_name', 'str', 0), (4, 'ipv6', 'str', 0)],
        'Annotation': [(1, 'timestamp', 'i64', 0), (2, 'value', 'str', 0), (3, 'host', 'Endpoint', 0)],
        'BinaryAnnotation': [(1, 'key', 'str', 0), (2, 'value', 'str', 0), (3, 'annotation_type', 'i32', 0), (4, 'host', 'Endpoint', 0)],
        'Span': [(1, 'trace_id', 'i64', 0), (3, 'name', 'str', 0), (4, 'id', 'i64', 0), (5, 'parent_id', 'i64', 0),
                 (6, 'annotations', ['Annotation'], 0), (8, 'binary_annotations', ['BinaryAnnotation'], 0), (9, 'debug', 'bool', 0),
                 (10, 'timestamp', 'i64', 0), (11, 'duration', 'i64', 0), (12, 'trace_id_high', 'i64', 0)],
        'Response': [(1, 'ok', 'bool', 1)],
    },
    'tracetest': {
        'Downstream': [(1, 'serviceName', 'str', 1), (2, 'serverRole', 'str', 1), (3, 'host', 'str', 1), (4, 'port', 'str', 1),
                       (5, 'transport', 'i32', 1), (6, 'downstream', 'Downstream', 0)],
        'StartTraceRequest': [(1, 'serverRole', 'str', 1), (2, 'sampled', 'bool', 1), (3, 'baggage', 'str', 1),
                              (4, 'downstream', 'Downstream', 1)],
        'JoinTraceRequest': [(1, 'serverRole', 'str', 1), (2, 'downstream', 'Downstream', 0)],
        'ObservedSpan': [(1, 'traceId', 'str', 1), (2, 'sampled', 'bool', 1), (3, 'baggage', 'str', 1)],
        'TraceResponse': [(1, 'span', 'ObservedSpan', 0), (2, 'downstream', 'TraceResponse', 0), (3, 'notImplementedError', 'str', 1)],
    },
}
ENUMS = {
    'jaeger': {'TagType': dict(STRING=0, DOUBLE=1, BOOL=2, LONG=3, BINARY=4), 'SpanRefType': dict(CHILD_OF=0, FOLLOWS_FROM=1)},
    'sampling': {'SamplingStrategyType': dict(PROBABILISTIC=0, RATE_LIMITING=1)},
    'tracetest': {'Transport': dict(HTTP=0, TCHANNEL=1)},
    'zipkincore': {'AnnotationType': dict(BOOL=0, BYTES=1, I16=2, I32=3, I64=4, DOUBLE=5, STRING=6)},
}
DEFAULTS = {('zipkincore', 'Span', 'debug'): False}

COMPACT = {'i16': 4, 'i32': 5, 'i64': 6, 'double': 7, 'str': 8, 'list': 9, 'struct': 12, 'bool': 2, 'i8': 3}
BINARY = {'i16': 6, 'i32': 8, 'i64': 10, 'double': 4, 'str': 11, 'list': 15, 'struct': 12, 'bool': 2, 'i8': 3}
BITS = {'i16': 16, 'i32': 32, 'i64': 64}


def kind_name(k):
    return 'list' if isinstance(k, list) else k if k in COMPACT else 'struct'


# -- writing.  A struct value is a list of (field id, kind, value); kind 'struct' has such a list as value, 'list' (kind, [values])

def varint(n):
    out = b''
    while True:
        if n < 128:
            return out + bytes([n])
        out += bytes([n & 127 | 128])
        n >>= 7


def zz(n, bits):
    return varint(((n << 1) ^ (n >> (bits - 1))) & ((1 << bits) - 1))


def enc_value(proto, kind, v):
    c = proto == 'compact'
    if kind == 'bool':      # as a list element
        return bytes([(1 if v else 2) if c else (1 if v else 0)])
    if kind == 'i8':
        return struct.pack('b', v)
    if kind in BITS:
        return zz(v, BITS[kind]) if c else struct.pack({16: '>h', 32: '>i', 64: '>q'}[BITS[kind]], v)
    if kind == 'double':
        return struct.pack('<d' if c else '>d', v)
    if kind == 'str':
        b = v.encode('utf-8')
        return (varint(len(b)) if c else struct.pack('>i', len(b))) + b
    if kind == 'list':
        ek, items = v
        body = b''.join(enc_value(proto, ek, i) for i in items)
        if not c:
            return bytes([BINARY[ek]]) + struct.pack('>i', len(items)) + body
        if len(items) < 15:
            return bytes([len(items) << 4 | COMPACT[ek]]) + body
        return bytes([0xf0 | COMPACT[ek]]) + varint(len(items)) + body
    return enc_struct(proto, v)


def enc_struct(proto, fields):
    out, last = b'', 0
    for fid, kind, v in fields:
        if proto == 'binary':
            out += bytes([BINARY[kind]]) + struct.pack('>h', fid) + enc_value(proto, kind, v)
            continue
        t = (1 if v else 2) if kind == 'bool' else COMPACT[kind]
        if 0 < fid - last <= 15:
            out += bytes([fid - last << 4 | t])
        else:
            out += bytes([t]) + zz(fid, 16)
        last = fid
        if kind != 'bool':
            out += enc_value(proto, kind, v)
    return out + b'\0'


def enc_message(proto, name, mtype, seq, body):
    n = name.encode()
    if proto == 'compact':
        return bytes([0x82, 1 | mtype << 5]) + varint(seq) + varint(len(n)) + n + body
    return struct.pack('>I', 0x80010000 | mtype) + struct.pack('>i', len(n)) + n + struct.pack('>i', seq) + body


# -- reading: -> {field id: (kind, value)}; a list is ('list', (kind, [values]))

class Bad(Exception):
    pass


class Reader(object):
    def __init__(self, proto, b):
        self.p, self.b, self.i = proto, bytes(b), 0

    def take(self, n):
        if n < 0 or self.i + n > len(self.b):
            raise Bad('truncated')
        self.i += n
        return self.b[self.i - n:self.i]

    def un(self, f):
        return struct.unpack(f, self.take(struct.calcsize(f)))[0]

    def varint(self):
        r = s = 0
        while True:
            c = self.take(1)[0]
            r |= (c & 127) << s
            if c < 128:
                return r
            s += 7

    def value(self, t):
        """-> (kind, value)"""
        if self.p == 'compact':
            kinds = {1: 'bool', 2: 'bool', 3: 'i8', 4: 'i16', 5: 'i32', 6: 'i64', 7: 'double', 8: 'str', 9: 'list', 12: 'struct'}
        else:
            kinds = {v: k for k, v in BINARY.items()}
        if t not in kinds:
            raise Bad('type %d' % t)
        k = kinds[t]
        if k in BITS:
            if self.p == 'compact':
                n = self.varint()
                if n >> BITS[k]:
                    raise Bad('value too large for %s' % k)
                return k, (n >> 1) ^ -(n & 1)
            return k, self.un({16: '>h', 32: '>i', 64: '>q'}[BITS[k]])
        if k == 'i8':
            return k, self.un('b')
        if k == 'double':
            return k, self.un('<d' if self.p == 'compact' else '>d')
        if k == 'str':
            return k, self.take(self.varint() if self.p == 'compact' else self.un('>i')).decode('utf-8')
        if k == 'bool':
            return k, self.take(1)[0] == 1
        if k == 'list':
            if self.p == 'compact':
                h = self.take(1)[0]
                n, et = h >> 4, h & 15
                if n == 15:
                    n = self.varint()
            else:
                et, n = self.take(1)[0], self.un('>i')
            items = [self.value(et) for _ in range(n)]
            ek = kinds.get(et)
            return k, (ek, [v for _, v in items])
        return k, self.struct()

    def struct(self):
        out, last = {}, 0
        while True:
            h = self.take(1)[0]
            if h == 0:
                return out
            if self.p == 'compact':
                t = h & 15
                fid = last + (h >> 4) if h >> 4 else self.value(4)[1]
                last = fid
                v = ('bool', t == 1) if t in (1, 2) else self.value(t)
            else:
                fid = self.un('>h')
                v = self.value(h)
            if fid in out:
                raise Bad('field %d twice' % fid)
            out[fid] = v

    def message(self):
        if self.p == 'compact':
            if self.take(1)[0] != 0x82:
                raise Bad('protocol id')
            vt = self.take(1)[0]
            if vt & 31 != 1:
                raise Bad('version')
            mtype, seq, name = vt >> 5, self.varint(), self.take(self.varint())
        else:
            v = self.un('>I')
            if v >> 16 != 0x8001:
                raise Bad('version')
            mtype, name = v & 255, self.take(self.un('>i'))
            seq = self.un('>i')
        body = self.struct()
        if self.i != len(self.b):
            raise Bad('%d bytes after the message' % (len(self.b) - self.i))
        return name.decode(), mtype, seq, body
