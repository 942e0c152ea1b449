"""S01: constant and probabilistic sampling are exact functions of the trace ID."""
import math
from fractions import Fraction
from mc import env
from mc.lib import *
from mc import startspan as S

RULE = 'every (rate, trace ID, operation) of the product; distinct by (rate, ID, decision)'
BOUNDS = ('about 130 rates (1,200 thorough), for each the IDs within 3 of the boundary, of the neighbouring rates and of powers '
          'of two, and all 2^12 (2^16) leading-bit patterns, each with 4 high halves; 12 rates with all IDs of a tracer of '
          'each width; 20 refused values')
M = 1 << 64
HIGH = [0, 1, 1 << 63, M - 1]


def rates(tier):
    r = {0, 1, 0.0, 1.0, -0.0, 2.0 ** -64, 2.0 ** -63, 2.0 ** -65, 3 * 2.0 ** -64, 5e-324, 1e-300, 0.1, 0.001, 0.01, 0.9, 0.99,
         1 / 3, 2 / 3, math.nextafter(1, 0), math.nextafter(0.5, 0), math.nextafter(0.5, 1), math.nextafter(0.1, 0),
         math.nextafter(0.1, 1), 0.3, 0.7, 0.123456789, math.pi / 4, 1 - 2.0 ** -11, 1 - 2.0 ** -12}
    n = 64 if tier == 'quick' else 1024
    r |= {k / n for k in range(n + 1)}
    r |= {2.0 ** -k for k in range(1, 66, 1 if tier != 'quick' else 2)}
    return sorted(r, key=lambda v: (v, str(type(v))))


def limit(rate):
    return Fraction(rate) * M


def ids_for(rate, tier):
    b = int(limit(rate))
    out = set()
    for c in (b, 0, M, M // 2, M // 4, 1 << 63, 1 << 32, 1 << 53):
        out.update(range(c - 3, c + 4))
    out.update(b ^ (1 << k) for k in range(64))
    out.update((b - 1) ^ (1 << k) for k in range(64))
    return sorted(v for v in out if 0 <= v < M)


def exact(x, tier, part, parts):
    from jaeger_client import ProbabilisticSampler
    for rate in rates(tier)[part::parts]:
        s = ProbabilisticSampler(rate)
        other = ProbabilisticSampler(rate=rate)
        lim = limit(rate)
        want_tags = {'sampler.type': 'probabilistic', 'sampler.param': rate}
        for low in ids_for(rate, tier):
            want = low < lim
            for h in HIGH:
                tid = (h << 64) | low
                d, tags = s.is_sampled(tid, 'op')
                x.check(d is True or d is False, 'decision %r' % (d,))
                x.eq((d, tags), (want, want_tags), 'rate %r, trace ID %x' % (rate, tid))
                x.eq(other.is_sampled(trace_id=tid)[0], want, 'an equal sampler, rate %r, trace ID %x' % (rate, tid))
                x.case()
            x.state((rate, low, want))
        bits = 12 if tier == 'quick' else 16
        for k in range(1 << bits) if part % 4 == 0 else ():
            low = k << (64 - bits)
            x.check(s.is_sampled(low, '')[0] == (low < lim), 'rate %r, trace ID %x' % (rate, low))
            low = low | ((1 << (64 - bits)) - 1)
            x.check(s.is_sampled(low, '')[0] == (low < lim), 'rate %r, trace ID %x' % (rate, low))
            x.case(2)
        s.close()
    x.outcome(part)


def refused(x):
    from jaeger_client import ProbabilisticSampler
    for bad in (-1, -0.1, -5e-324, math.nextafter(1, 2), 1.5, 2, 100, -100, float('inf'), float('-inf'), float('nan'), 1e300,
                -1e300, 2 ** 64, -2 ** 64, 2.0 ** 53, -2.0 ** -64, 1 + 2.0 ** -52, 99.9, Fraction(3, 2)):
        try:
            s = ProbabilisticSampler(bad)
        except Exception:
            x.case()
            x.state(repr(type(bad)) + repr(bad)[:10])
            continue
        x.fail('rate %r was accepted: %s' % (bad, s))


def const(x):
    from jaeger_client import ConstSampler
    for d in (True, False):
        s = ConstSampler(d)
        for tid in [0, 1, M - 1, M, (M - 1) << 64] + [1 << k for k in range(128)]:
            for op in ('', 'op', 'other'):
                got = s.is_sampled(tid, op)
                x.eq(got, (d, {'sampler.type': 'const', 'sampler.param': d}), 'ConstSampler(%r) for %x' % (d, tid))
                x.case()
        x.state(d)


def history(x, depth):
    """A decision depends on nothing that happened before."""
    from jaeger_client import ProbabilisticSampler, ConstSampler
    kind = x.pick(['p0.5', 'p0.25', 'cT', 'cF'])
    s = ProbabilisticSampler(float(kind[1:])) if kind[0] == 'p' else ConstSampler(kind == 'cT')
    for i in range(depth):
        tid = x.pick([0, M // 4 - 1, M // 4, M // 2 - 1, M // 2, M - 1, (1 << 64) | (M // 4), M << 32])
        op = x.pick(['a', 'b']) if i < 2 else 'a'
        want = {'cT': True, 'cF': False}.get(kind)
        if want is None:
            want = tid % M < limit(s.rate)
        got = s.is_sampled(tid, op)
        x.eq(got[0], want, '%s, trace ID %x after %d others' % (kind, tid, i))
        if x.choose(2):
            env.clock.advance(3600)
    x.outcome(kind)


def through_tracer(x, wide):
    """Spans of real traces with scripted IDs: sampled, tagged and reported exactly as the ID says."""
    from jaeger_client import ProbabilisticSampler
    rate = x.pick([0.0, 1.0, 0.5, 0.25, 0.1, 1 / 3, 2.0 ** -63, 3 * 2.0 ** -64, 0.001, math.nextafter(1, 0), 1 - 2.0 ** -12, 0.75])
    rep = S.RecordingReporter()
    trs = [tracer(x, rep, ProbabilisticSampler(rate), generate_128bit_trace_id=wide, service_name='s%d' % i) for i in range(2)]
    lim = limit(rate)
    b = int(lim)
    lows = sorted({v for v in (b - 2, b - 1, b, b + 1, 1, 2, M // 2 - 1, M // 2, M - 1) if 0 < v < M})
    for low in lows:
        for h in (HIGH if wide else [0]):
            tid = (h << 64) | low
            for i, tr in enumerate(trs):
                drawn = []

                def bits(k, tid=tid, drawn=drawn):
                    drawn.append(k)
                    return (tid if len(drawn) == 1 else 4711) & ((1 << k) - 1) or 1
                env.rand.bits_hook = bits
                sp = tr.start_span('op')
                env.rand.bits_hook = None
                want = sp.trace_id % M < lim
                x.eq(sp.is_sampled(), want, 'rate %r, trace ID %x' % (rate, sp.trace_id))
                if want:
                    x.eq(sorted(tags_of(sp)), [('sampler.param', rate), ('sampler.type', 'probabilistic')], 'tags')
                n = len(rep.spans)
                sp.finish()
                x.eq(len(rep.spans) - n, int(want), 'reported')
                x.case()
                x.state((rate, sp.trace_id, want))
    x.outcome(rate)


def scenarios(tier):
    out = [Scenario('exact-%d' % p, exact, params={'tier': tier, 'part': p, 'parts': 16}) for p in range(16)]
    out.append(Scenario('refused', refused))
    out.append(Scenario('const', const))
    out.append(Scenario('history', history, params={'depth': 3 if tier == 'quick' else 4}))
    out += [Scenario('tracer-%d' % (128 if w else 64), through_tracer, params={'wide': w}) for w in (False, True)]
    return out
