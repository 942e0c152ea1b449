"""Reference model of trace-context propagation (C01-C04), independent of the repository's codecs."""
import struct
import urllib.parse

M64, M128 = (1 << 64) - 1, (1 << 128) - 1
FORMATS = ['text_map', 'http_headers', 'binary', 'zipkin', 'b3']


def hex16(n, w=16):
    s = ''
    for _ in range(32):
        s = '0123456789abcdef'[n & 15] + s
        n >>= 4
    s = s.lstrip('0')
    return '0' * max(0, w - len(s)) + s


def jaeger_id(t, s, p, f):
    return '%s:%s:%s:%s' % (hex16(t, 1), hex16(s, 1), hex16(p or 0, 1), hex16(f, 1))


def q(v):
    """RFC 3986 percent-encoding of the UTF-8 bytes; '/' is safe in the reference clients."""
    if isinstance(v, bytes):
        v = v.decode('utf-8')
    out = ''
    for b in v.encode('utf-8'):
        c = chr(b)
        if b < 128 and (c.isalnum() or c in '-_.~/'):
            out += c
        else:
            out += '%' + '0123456789ABCDEF'[b >> 4] + '0123456789ABCDEF'[b & 15]
    return out


def encode_text(m, http=False, hdr='uber-trace-id', prefix='uberctx-'):
    d = {hdr: jaeger_id(m['trace'], m['span'], m['parent'], m['flags'])}
    for k, v in m['baggage'].items():
        d[prefix + k] = q(v) if http else v
    return d


def encode_binary(m):
    def kv(s):
        b = s.encode('utf-8')
        return len(b).to_bytes(4, 'big') + b
    out = (m['trace'] >> 64).to_bytes(8, 'big') + (m['trace'] & M64).to_bytes(8, 'big')
    out += m['span'].to_bytes(8, 'big') + (m['parent'] or 0).to_bytes(8, 'big')
    out += bytes([m['flags']]) + len(m['baggage']).to_bytes(4, 'big')
    for k, v in m['baggage'].items():
        out += kv(k) + kv(v)
    return out


def encode_zipkin(m):
    return {'trace_id': m['trace'], 'span_id': m['span'], 'parent_id': m['parent'], 'traceflags': m['flags']}


def encode_b3(m, bits128=False):
    d = {'X-B3-TraceId': hex16(m['trace'], 32 if bits128 or m['trace'] > M64 else 16),
         'X-B3-SpanId': hex16(m['span'])}
    if m['parent'] is not None:
        d['X-B3-ParentSpanId'] = hex16(m['parent'])
    if m['flags'] & 2:
        d['X-B3-Flags'] = '1'
    elif m['flags'] & 1:
        d['X-B3-Sampled'] = '1'
    return d


def encode(fmt, m, bits128=False):
    return {'text_map': lambda: encode_text(m), 'http_headers': lambda: encode_text(m, True),
            'binary': lambda: bytearray(encode_binary(m)), 'zipkin': lambda: encode_zipkin(m),
            'b3': lambda: encode_b3(m, bits128)}[fmt]()


def after_hop(fmt, m):
    """What the next process sees of context m."""
    r = dict(m)
    if fmt in ('zipkin', 'b3'):
        r['baggage'] = {}
    elif fmt in ('text_map', 'http_headers'):
        r['baggage'] = {k.lower(): v for k, v in m['baggage'].items()}
    if fmt == 'b3':
        r['flags'] = 2 if m['flags'] & 2 else m['flags'] & 1
    return r


def of(c):
    return dict(trace=c.trace_id, span=c.span_id, parent=c.parent_id, flags=c.flags, baggage=dict(c.baggage))


def context(m, debug_id=None):
    from jaeger_client import SpanContext
    return SpanContext(m['trace'], m['span'], m['parent'], m['flags'], dict(m['baggage']), debug_id)


def formats():
    from opentracing import Format
    from jaeger_client.codecs import ZipkinSpanFormat
    return {'text_map': Format.TEXT_MAP, 'http_headers': Format.HTTP_HEADERS, 'binary': Format.BINARY,
            'zipkin': ZipkinSpanFormat, 'b3': 'b3'}


def mk_tracer(x, bits128=False, sampler=None, rep=None, **kw):
    from .lib import tracer
    from jaeger_client.codecs import B3Codec
    return tracer(x, rep, sampler, generate_128bit_trace_id=bits128,
                  extra_codecs={'b3': B3Codec(generate_128bit_trace_id=bits128)}, **kw)


def empty(fmt):
    return bytearray() if fmt == 'binary' else {}


TRACE = [1, 0xf, 0x10, 0x0123456789abcdef, M64, 1 << 63, 1 << 64, (1 << 64) + 5, 0xfedcba9876543210aabbccddeeff0011,
         M128, 1 << 127, 0x00000001000000000000000000000000]
SPAN = [1, 0xa, 0x0fffffffffffffff, 1 << 63, M64, 0x00ab000000000000]
PARENT = [None, 1, 0xab, M64, 1 << 63]
BAG = [{}, {'k': 'v'}, {'k': ''}, {'key': 'a b'}, {'k': 'a=b&c;d,e%20f+g/h:i'}, {'k': '%41'}, {'k': '100%'},
       {'k': 'é中\U0001f600'}, {'k1': 'v1', 'k2': 'v2', 'k3': 'v3'}, {'k-1': 'x', 'k_2': 'y', 'k.3': 'z'},
       {'k': 'x' * 300}, {'k': 'é' * 200, 'l': 'y' * 70000}, {'k': '"quoted"\\'}, {'k': '\n\t\x00\x7f'},
       {'k': ' lead trail '}, {'x' * 256: 'v'}, {'UserId': 'Ab', 'TRACE': 'C'},
       {'k': 'e\u0301\u212b\ufb01\u1100\u1161\u00a0\u200b\u2028\ufeff'}, {'e\u0301': 'v', '\u00fc': 'w'}]
# keys that headers cannot tell apart, or cannot hold
BAG_BINARY = [{'Key': '1', 'key': '2', 'KEY': '3'}, {'\u00c9t\u00c9': 'v', '\u0130': 'w', 'k y\n': 'x', '': 'empty key'}, {'': ''}, {'a': 'b', '': ''},
              {'k': 'v', '\x00': '', '\x00\x00': '\x00'}, {'k1': '', 'k2': '', 'k3': ''}]


def bags(span, parent):
    """The baggage alphabet; the bulky ones only with one pair of ids."""
    return BAG if span == 1 and parent in (None, M64) else [b for b in BAG if sum(map(len, b.values())) < 200]
