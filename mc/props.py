#!/usr/bin/env python3
"""The properties, in one place.  `python3 mc/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), text=text,
                  why=' '.join(why.split()), files=files, mech=mech, observe=observe, technique=technique,
                  note=' '.join(note.split()), state=state))


SEQ = 'explicit-state enumeration of operation/input sequences on the real code, judged by an independent reference model'
SCHED = 'stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler'
FAULT = 'exhaustive enumeration of operation sequences with faults at every point, on the real code over a virtual network and clock'
TRUST = ('The checked code is the real jaeger_client, run unmodified on a virtual clock, network and event loop; the '
         'reference models and the scheduler (instruction-level switching as on CPython 3.7-3.9) are trusted. ')

prop('A01', 'Span lineage', '''
The parent of a new span is its child_of argument if that carries a trace, else the first of its references
that has a context, else - if no context was given at all - the span active in the calling context unless that is to be ignored. It shares its parent's trace
ID and baggage and has the parent's span ID as parent ID and a new span ID of its own - except that a SERVER span
takes over the span and parent ID of its parent if the tracer is configured for one span per RPC. Without a parent
carrying a trace it is the root of a new trace with new IDs of the configured width.''', 'inputs configurations', 'every combination of parent argument, references, active span, tags and tracer options',
     'The tests start spans with a handful of parent/reference/active-span combinations; the product of reference order, '
     'partially filled contexts, active scope and configuration is not covered.',
     ['jaeger_client/tracer.py', 'jaeger_client/span.py', 'jaeger_client/span_context.py'],
     [('start_span parent resolution and ID generation', 'jaeger_client/tracer.py: Tracer.start_span')],
     ['span.context', 'the spans received by the agent'], SEQ + '; plus ' + SCHED,
     TRUST + 'Random IDs come from a scripted source; collisions of random IDs are not explored.')

prop('A02', 'Sampling is decided once per trace', '''
The sampler is asked exactly once for every new trace that does not start from a debug ID, with the trace ID and
operation name of its root span, and every descendant, local or remote, inherits the flags of its parent without any
sampler being asked again. The root span of a trace its sampler accepted carries the tags the sampler gave; no other span does.''',
     'inputs histories schedules', 'every parent context (flags, IDs, baggage), every sampler answer, every trace shape up to the bound',
     'Tests use ConstSampler on single spans; a decision taken twice, or inherited wrongly by a grandchild in another '
     'process, needs disagreeing samplers along a multi-process trace.',
     ['jaeger_client/tracer.py', 'jaeger_client/sampler.py'],
     [('is_new_trace / is_sampled branch', 'jaeger_client/tracer.py: Tracer.start_span')],
     ['calls of the sampler', 'flags and tags of spans', 'injected carriers'], SEQ + '; plus ' + SCHED, TRUST)

prop('A03', 'A sampled span is reported exactly once, as finished', '''
The first time a span is finished while it is sampled it is handed to the reporter, with the finish time given or
else the current time, and never again, no matter how many threads, scopes and calls finish it or update it concurrently
or afterwards. A span that is never finished while sampled is never reported.''',
     'histories schedules', 'every sequence and interleaving of finish, scope exit, exception, tag and priority operations',
     'Double or missing reports show only under particular interleavings of two finishing threads or particular orders of '
     'sampling.priority and finish(), which the sequential tests do not produce.',
     ['jaeger_client/span.py', 'jaeger_client/tracer.py'],
     [('finished flag under update_lock', 'jaeger_client/span.py: Span.finish'),
      ('report_span', 'jaeger_client/tracer.py: Tracer.report_span')],
     ['calls of the reporter', 'datagrams'], SCHED + '; plus ' + SEQ, TRUST)

prop('A04', 'Concurrent updates of a span are not lost', '''
Tags, logs, baggage items, operation names and sampling flags set on one span by several threads at once all take
effect as if the calls had been made one after the other: no update is lost or torn, readers see only states that some
order of the calls produces, and all of them that precede finish() are part of what is reported.''',
     'schedules', 'all interleavings of 2-3 threads updating one span',
     'The test-suite has no concurrent updates of a span at all.',
     ['jaeger_client/span.py'], [('update_lock around tags, logs, context', 'jaeger_client/span.py: Span')],
     ['tags, logs and baggage of the span', 'the span received by the agent'], SCHED,
     TRUST + 'Preemption bound 1-2 in quick, 2-3 in thorough.')

prop('A05', 'Baggage', '''
Baggage set on a span is visible on that span at once and in every child created and every carrier injected afterwards,
never in ones created before, and never leaks to siblings or to the parent; changing it keeps IDs and flags. On a sampled
span each change is recorded as a log whose fields are event=baggage, the key, the value and, if it replaced one, an
override mark.''', 'histories', 'every sequence of set/overwrite/remove/child/inject operations on a tree of spans up to the bound',
     'Aliasing of baggage between relatives needs several spans and writes in a particular order.',
     ['jaeger_client/span.py', 'jaeger_client/span_context.py', 'jaeger_client/tracer.py'],
     [('immutable contexts, copied by with_baggage_item', 'jaeger_client/span_context.py: SpanContext.with_baggage_item')],
     ['get_baggage_item', 'span.context.baggage', 'carriers', 'logs'], SEQ, TRUST)

prop('A06', 'Forced sampling', '''
Setting sampling.priority to a positive number (at start or later) makes the span sampled and debug, and 0 makes it
neither, with the throttler, if there is one, asked once with the operation name for each attempt to force a span that
is not debug already; a refused attempt changes nothing and values that are not numbers are ignored. A debug ID in a
carrier starts a sampled debug trace tagged with it if the throttler agrees.''',
     'histories inputs schedules', 'every sequence of priority values, updates and children for every script of throttler answers',
     'Tests force a span once; repeated forcing, clearing, refusal and concurrent forcing are not exercised.',
     ['jaeger_client/span.py', 'jaeger_client/tracer.py'],
     [('_set_sampling_priority', 'jaeger_client/span.py'), ('debug ID handling', 'jaeger_client/tracer.py: Tracer.start_span')],
     ['flags', 'tags', 'calls of the throttler'], SEQ + '; plus ' + SCHED, TRUST)

prop('A07', 'Active span scoping', '''
The active span is the one most recently activated and not yet closed in the calling thread (or scope manager context):
closing a scope restores exactly the span that was active before, also when scopes exit through exceptions, and
activating or closing scopes in one thread never affects another, nor in one tracer another tracer that was not given the
same scope manager. A scope finishes its span on close exactly if it was
asked to.''', 'histories schedules', 'every sequence of activate/start/close/exception operations on two threads up to the bound, and interleavings',
     'Tests nest scopes in one thread in LIFO order.',
     ['jaeger_client/tracer.py', 'jaeger_client/span.py'],
     [('scope_manager property and start_active_span', 'jaeger_client/tracer.py')],
     ['tracer.active_span', 'parents of new spans', 'finished spans'], SEQ + '; plus ' + SCHED, TRUST)

prop('A08', 'No deadlock', '''
No call of the tracing API blocks forever: log handlers, metrics backends, samplers, throttlers, reporters and str() of
tag values may themselves use the tracer and the span being processed, and log handlers and tag values may hold locks of
their own while other threads use the span, without a deadlock or an exception.''',
     'schedules histories', 'every call-back of user code x every tracing action in it; all interleavings for lock-order inversions',
     'A deadlock needs user code that re-enters the tracer at one of the points where it holds a lock, or two threads '
     'taking two locks in opposite order.',
     ['jaeger_client/span.py', 'jaeger_client/sampler.py', 'jaeger_client/throttler.py', 'jaeger_client/config.py',
      'jaeger_client/reporter.py'],
     [('locks released before user code is called', 'jaeger_client/span.py, sampler.py, throttler.py, config.py')],
     ['termination of every call'], SCHED,
     TRUST + 'Call-backs of metrics backends are assumed not to raise.')

prop('A09', 'What a span tells about itself', '''
IDs, flags, sampled and debug state, operation name, baggage items, context and text form
(trace:span:parent:flags in hexadecimal, then service.operation) of a span reflect exactly the updates made so far; it is an RPC span
if the first span.kind tag recorded on it says client or server (RPC client: client). The convenience calls info, error, log and log_event
record one log each, with the event and the payload given (info and error: unless it is empty) and the time given or else the current time, error() also the tag
error=True; an exception that leaves a with-block of the span is recorded as the tag error=True and one log with event,
message, object, kind and traceback, and finishes the span. Nothing is recorded while the span is not sampled, and every update returns the span.''',
     'histories inputs', 'every sequence of updates and convenience calls on spans started in every way',
     'The tests call each of these once on a fresh span; their combinations with later updates of flags, kind, name and '
     'baggage are not covered.',
     ['jaeger_client/span.py', 'jaeger_client/span_context.py', 'jaeger_client/thrift.py'],
     [('accessors, is_rpc, __repr__, info, error, log_kv', 'jaeger_client/span.py: Span')],
     ['accessors of the span', 'tags and logs of the span'], SEQ, TRUST)

prop('C01', 'Propagation round trip', '''
A context injected into a carrier and extracted from it by the same codec, in any number of hops and mixed formats,
has the same trace ID, span ID, parent ID (where the format carries it), flags (as far as the format carries them) and
baggage, for every 64- or 128-bit ID and every baggage text, with or without URL encoding.''',
     'inputs configurations', 'every combination of format, ID width, flags and baggage from boundary alphabets, chains of up to 3 hops',
     'Round trips are tested for a few IDs and baggage values; leading zeros, wide IDs, separators in baggage and chains '
     'over mixed formats are not.',
     ['jaeger_client/codecs.py', 'jaeger_client/tracer.py', 'jaeger_client/span_context.py'],
     [('codecs', 'jaeger_client/codecs.py')], ['extracted SpanContext'], SEQ, TRUST)

prop('C02', 'Malformed carriers', '''
Extracting from any carrier either returns a context whose IDs are in range and appear in the carrier, returns None if
the carrier carries no trace, or raises SpanContextCorruptedException (or the documented unsupported-format and
invalid-carrier errors); it never raises anything else, never hangs and never modifies the carrier. Entries that are not the library's own do not matter, whatever their names and values are. Injecting into a carrier of the wrong type is refused with the invalid-carrier error and changes nothing.''',
     'inputs fault_sequences', 'every truncation, substitution and type confusion of every valid carrier within the bound',
     'Tests try a handful of malformed headers; every truncation and byte corruption of binary carriers is not tried.',
     ['jaeger_client/codecs.py', 'jaeger_client/tracer.py'],
     [('validation in extract', 'jaeger_client/codecs.py')], ['result or exception of Tracer.extract'], SEQ, TRUST)

prop('C03', 'Wire format of carriers', '''
Injected carriers have the documented Jaeger, B3 and binary formats byte for byte: lowercase hexadecimal IDs without
losing leading digits of 128-bit trace IDs, decimal baggage count and length-prefixed pairs in binary, configured header
names and URL-encoded values only where configured; carriers written by other clients in those formats (any case, with
or without leading zeros) are understood.''', 'inputs configurations', 'every context from the boundary alphabets x every format and header configuration',
     'Round-trip tests cannot see a symmetric deviation from the format that other languages use.',
     ['jaeger_client/codecs.py', 'jaeger_client/constants.py'],
     [('span_context_to_string, BinaryCodec, B3Codec', 'jaeger_client/codecs.py')], ['carrier contents'],
     SEQ, TRUST + 'The reference encoders in mc/ctx.py are written from the format descriptions, not from the code.')

prop('C04', 'Header order, case and names', '''
What is extracted from a text carrier does not depend on the order of its entries or, for HTTP headers, on the case of
header names; unrelated headers are ignored, and jaeger-baggage / debug-ID headers have their documented effect under
the configured names.''', 'inputs configurations', 'every permutation and case variant of carriers up to the bound',
     'Tests use one order and case per carrier.',
     ['jaeger_client/codecs.py'], [('TextCodec.extract, B3Codec.extract', 'jaeger_client/codecs.py')],
     ['extracted SpanContext'], SEQ, TRUST)

prop('M01', 'Tracer counters', '''
Each span counts once as started, with the sampling state it got at its start; a span without a parent ID
also counts one trace as started, or as joined if it is a SERVER span; and each span handed to the reporter counts once
as finished. These counters never count anything else, whatever else the application does.''',
     'histories schedules', 'every sequence of starts and finishes of all kinds up to the bound, and interleavings of two threads',
     'Tests check single increments.',
     ['jaeger_client/tracer.py'], [('TracerMetrics and _emit_span_metrics', 'jaeger_client/tracer.py')],
     ['counters of the metrics factory'], SEQ + '; plus ' + SCHED, TRUST)

prop('R01', 'Every reported span has exactly one fate', '''
Every span reported before or after close() is delivered to the agent exactly once, counted as failed, or counted as
dropped - exactly one of the three, and the counters reporter_spans ok/err/dropped say which; the spans of each thread
arrive in the order they finished and no datagram holds more than the batch size.''',
     'histories schedules fault_sequences', 'every sequence of reports, loop turns, passing time, send faults and close; all interleavings of reporting threads and the loop',
     'The tests report a few spans without faults; loss or duplication depends on where loop turns, timeouts and faults fall.',
     ['jaeger_client/reporter.py'], [('queue, _consume_queue, _submit', 'jaeger_client/reporter.py: Reporter')],
     ['datagrams', 'reporter counters'], FAULT + '; plus ' + SCHED, TRUST)

prop('R02', 'Closing flushes everything and completes', '''
The future returned by close() of a tracer or reporter completes, without an exception, in any thread and however often
and concurrently close() is called - with or without an event loop of the application running in the calling thread -
and when it completes everything reported before it has been sent or counted; the library never blocks the caller to do so.''',
     'histories schedules configurations', 'every number, timing and thread of close() calls relative to reports, flushes and faults; all interleavings with the loop',
     'Tests close once, from the loop, after the queue is empty.',
     ['jaeger_client/reporter.py', 'jaeger_client/tracer.py', 'jaeger_client/ioloop_util.py'],
     [('close, _flush, stop mark', 'jaeger_client/reporter.py'), ('submit', 'jaeger_client/ioloop_util.py')],
     ['the future', 'datagrams'], FAULT + '; plus ' + SCHED,
     TRUST + 'The event loop keeps running until the future is complete.')

prop('R03', 'Bounded queue, timely flush', '''
A span is dropped if and only if the queue is full or the reporter is closed when the reporter receives it, so at most
queue capacity plus one batch of spans are ever held; a full batch is sent as soon as the loop runs and an incomplete one
no later than one flush interval after its last span was taken. The queue length gauge is set
after each batch, to the number of spans that wait in the queue.''',
     'histories configurations', 'every sequence of reports, loop turns and time steps, with sends that fail, for every small capacity, batch size and interval',
     'Tests check one overflow and one timeout.',
     ['jaeger_client/reporter.py'], [('bounded queue and flush timeout', 'jaeger_client/reporter.py: Reporter')],
     ['datagrams over virtual time', 'dropped counter', 'queue length gauge'], FAULT, TRUST)

prop('R04', 'Faults are contained', '''
A span that cannot be encoded or a send that fails - for whatever reason, also because the agent cannot be
resolved - loses at most the batch it is in: its spans are counted as failed, all other batches arrive intact, and nothing
but complete batches reaches the agent. Unusual tag, log and operation values (lone surrogates, huge integers, objects whose
str() fails) are sent in a readable form instead, and tracing calls of the application never raise because of them.''',
     'fault_sequences inputs', 'every placement of up to two faults and unusual values in a stream of batches',
     'Tests make one send fail; corruption of the following batch needs a failure after part of a batch was written.',
     ['jaeger_client/reporter.py', 'jaeger_client/thrift.py', 'jaeger_client/local_agent_net.py', 'jaeger_client/TUDPTransport.py'],
     [('_submit error handling, discard', 'jaeger_client/reporter.py, local_agent_net.py'), ('sanitizing', 'jaeger_client/thrift.py')],
     ['datagrams', 'counters', 'log'], FAULT, TRUST)

prop('R05', 'The agent receives exactly what was recorded', '''
Each delivered span carries, in the Jaeger Thrift compact encoding, exactly its recorded IDs (unsigned 64/128-bit as two
signed halves), parent, flags, operation name, references, start time and duration in microseconds, and tags and logs in
order with their values typed as bool, long, double or string and cut at the configured length; and the process carries
the service name and the tracer's tags.''', 'inputs configurations', 'every span from boundary alphabets of each field, pairwise and in full product where small',
     'Tests look at Thrift objects before encoding, for a few values.',
     ['jaeger_client/thrift.py', 'jaeger_client/reporter.py', 'jaeger_client/span.py', 'jaeger_client/tracer.py'],
     [('make_jaeger_batch, make_tag, id_to_int', 'jaeger_client/thrift.py')],
     ['datagrams decoded by an independent decoder'], SEQ, TRUST + 'The decoder in mc/wire.py is written from the Thrift compact protocol description.')

prop('R06', 'Serialization is isolated from the application', '''
While the reporter thread serializes a finished span the application may keep setting tags, logs, baggage, the name or
priority on it or finish others: every datagram remains one well-formed batch with everything recorded before finish(),
and no span is lost or duplicated because of it. Reporting a span changes nothing on the span object itself.''', 'schedules', 'all interleavings of an application thread updating finished spans with the thread that builds and sends the batch',
     'The tests have no concurrency between span updates and serialization.',
     ['jaeger_client/thrift.py', 'jaeger_client/span.py', 'jaeger_client/reporter.py'],
     [('copies taken under update_lock', 'jaeger_client/thrift.py: make_jaeger_batch')],
     ['datagrams'], SCHED, TRUST)

prop('R07', 'Composite, in-memory, logging and null reporters', '''
A composite reporter hands every span and the process to each of its reporters once and in order, and its close()
completes exactly when all of theirs have, for any number of them, completing in any order and in any thread; the
in-memory reporter returns every span it got in order, unaffected by what callers do with the list; the logging reporter
logs each span once; the null reporter does nothing.''', 'configurations histories schedules',
     'every composition up to 3 reporters (nested ones included) x completion orders; interleavings of reporting and reading threads',
     'Tests compose two reporters whose close() is immediate.',
     ['jaeger_client/reporter.py'], [('CompositeReporter', 'jaeger_client/reporter.py')],
     ['calls of the component reporters', 'future of close()'], SEQ + '; plus ' + SCHED, TRUST)

prop('S01', 'Constant and probabilistic sampling are exact', '''
The probabilistic sampler with rate r samples a trace if and only if the low 64 bits of its ID are below r * 2^64 (so all
for r = 1 and none for r = 0, and the same trace gets the same decision from equal samplers everywhere, and every trace
sampled at a lower rate is sampled at a higher one); the constant sampler always gives its decision; both report type and
parameter as tags, and rates outside [0, 1] are refused.''', 'inputs configurations',
     'every rate from an alphabet x the IDs around every boundary, 64- and 128-bit',
     'Tests try a few IDs; off-by-one and 128-bit behaviour is at the boundaries.',
     ['jaeger_client/sampler.py', 'jaeger_client/tracer.py'], [('ProbabilisticSampler.is_sampled', 'jaeger_client/sampler.py')],
     ['is_sampled()', 'spans of a tracer'], SEQ, TRUST)

prop('S02', 'Rate limiting neither exceeds nor starves', '''
In any interval of length t a rate limiter of rate r samples at most r * t + max(r, 1) traces, and after an idle period
long enough to accumulate one credit it does sample; both hold for every arrival pattern, for concurrent callers and
whatever steps the system clock makes. When the rate is changed at run time - r is then the highest rate in force in the
interval - what has accumulated is kept in proportion to the new maximum max(r, 1).''',
     'histories schedules', 'every sequence of arrivals, time steps, clock steps and rate updates up to the bound; interleavings of 2-3 callers',
     'Tests check a few arrivals on a patched clock, in one thread.',
     ['jaeger_client/rate_limiter.py', 'jaeger_client/sampler.py'],
     [('leaky bucket under a lock on the monotonic clock', 'jaeger_client/rate_limiter.py')],
     ['is_sampled()', 'check_credit()'], SEQ + '; plus ' + SCHED, TRUST + 'Times and rates are exact binary fractions.')

prop('S03', 'Guaranteed-throughput and adaptive sampling', '''
Per operation, the adaptive sampler samples what its probability selects and, where that is less than its lower bound
rate, more traces up to that rate, tagging the decision as probabilistic or lowerbound accordingly; operations have
independent budgets, known ones use their own strategy and unknown ones the default until the maximum number of operations
is reached, after which they are sampled with the default probability only. A new strategy changes the operations it lists
and the defaults for those not seen yet.''', 'histories configurations',
     'every sequence of operations, IDs around the boundaries, time steps and strategy updates up to the bound',
     'Tests walk a few fixed sequences.',
     ['jaeger_client/sampler.py'], [('GuaranteedThroughputProbabilisticSampler, AdaptiveSampler', 'jaeger_client/sampler.py')],
     ['is_sampled()'], SEQ, TRUST)

prop('S04', 'Remote strategies are applied atomically or not at all', '''
Whatever the agent answers - any well-formed strategy, malformed JSON, wrong types, values out of range, HTTP errors -
polling never raises: a valid strategy takes effect completely and counts as retrieved (and as updated if it changed
anything), an invalid one is counted, logged and leaves sampling exactly as it was. An unchanged strategy does not reset
rate-limiter budgets.''', 'inputs fault_sequences histories', 'every sequence of answers from an alphabet of valid and malformed strategies up to the bound',
     'Tests try a handful of malformed answers once; partial application needs a strategy that is invalid in its middle.',
     ['jaeger_client/sampler.py', 'jaeger_client/local_agent_net.py'],
     [('_update_sampler and validation', 'jaeger_client/sampler.py: RemoteControlledSampler')],
     ['is_sampled() afterwards', 'sampler counters', 'log'], FAULT, TRUST)

prop('S05', 'Polling lifecycle', '''
The remote sampler and the throttler poll the agent first after a random delay of at most one refresh interval and then
once per interval as long as they are open (the throttler as long as it knows an operation to ask for), no matter how
individual requests fail or how long they take; no poll starts after they or their tracer were closed, at whatever moment
that happens.''',
     'histories fault_sequences schedules', 'every placement of close() and of failing, slow and raising requests over several periods; interleavings of close() with the loop',
     'Tests call the polling functions directly.',
     ['jaeger_client/sampler.py', 'jaeger_client/throttler.py', 'jaeger_client/tracer.py'],
     [('_init_polling, _delayed_polling, close', 'jaeger_client/sampler.py, throttler.py')],
     ['times of requests to the agent'], FAULT + '; plus ' + SCHED, TRUST)

prop('S06', 'Sampling is consistent during strategy updates', '''
While a strategy update is applied, concurrent sampling decisions are each made entirely by the old or entirely by the
new strategy - decision and tags match - never raise, and together stay within the rate limits and the maximum number of
operations; after the update has been applied only the new one decides.''', 'schedules',
     'all interleavings of 1-2 sampling threads with the thread applying updates, for all transitions between strategy kinds',
     'There are no concurrent tests of samplers.',
     ['jaeger_client/sampler.py', 'jaeger_client/rate_limiter.py'], [('lock of RemoteControlledSampler', 'jaeger_client/sampler.py')],
     ['is_sampled()'], SCHED, TRUST)

prop('H01', 'Throttling credits', '''
A debug span is allowed for an operation exactly when at least one whole credit granted to that operation is left, each
allowed one consumes one credit, credits granted by the agent accumulate, and operations are independent; every operation
asked about is included, exactly once, in the following credit requests together with the service name and the first client
ID set, and malformed or failed answers are counted and change no credit.''',
     'histories inputs fault_sequences', 'every sequence of requests and agent answers, valid and malformed, up to the bound',
     'Tests use one operation and one answer.',
     ['jaeger_client/throttler.py', 'jaeger_client/local_agent_net.py'],
     [('credits', 'jaeger_client/throttler.py: RemoteThrottler')], ['is_allowed()', 'HTTP requests', 'counters'], FAULT, TRUST)

prop('H02', 'Throttling under concurrency', '''
However many threads ask concurrently and whenever credits arrive meanwhile, the number of debug spans allowed never
exceeds the credits granted and no granted credit is lost; no call raises, and refused ones are counted exactly.''',
     'schedules', 'all interleavings of 2-3 asking threads and the thread applying an answer',
     'There are no concurrent tests of the throttler.',
     ['jaeger_client/throttler.py'], [('lock around credits', 'jaeger_client/throttler.py')],
     ['is_allowed()', 'counters'], SCHED, TRUST)

prop('M02', 'Metrics factories deliver every value to the right metric', '''
With each provided metrics factory (legacy, Prometheus), each counter, gauge and timer value arrives at exactly the
metric with that name and those tags (and the namespace and service label of the factory), whatever the order and contents
of the tags and however many tracers, factories and threads share the process; creating the same metric again continues
it, and nothing the caller passes is modified; tracer, reporter and remote sampler report to the factory or the deprecated metrics
object they are given. (As Prometheus demands, a name is always used for one kind of metric and one
set of tag names.)''',
     'histories configurations schedules', 'every sequence of metric creations and updates over names and tag sets up to the bound',
     'Tests create single metrics.',
     ['jaeger_client/metrics/__init__.py', 'jaeger_client/metrics/prometheus.py'],
     [('PrometheusMetricsFactory, LegacyMetricsFactory', 'jaeger_client/metrics')],
     ['Prometheus registry', 'legacy callbacks'], SEQ + '; plus ' + SCHED, TRUST)

prop('G01', 'Configuration means what it says', '''
Every configuration key that Config reads and every JAEGER_* environment variable has its documented effect on the tracer
that is built, with explicit configuration taking precedence over the environment and the environment over defaults (tags
of both are merged, those of the environment winning); validation accepts every such key and rejects all others, sampler
and queue settings that cannot work are refused with an exception, and neither the given dictionary nor the environment is modified.
The metrics factory, scope manager and event loop of the application that Config is given are the ones the tracer uses; apart from
them and a sampler object of the application, tracers built from the same Config share no sampling decisions or budgets, credits, tags or active spans.''',
     'configurations inputs', 'every key with every value class, and pairs of keys/environment variables, observed through the tracer that results',
     'Tests check individual properties of Config, seldom the behaviour that results.',
     ['jaeger_client/config.py', 'jaeger_client/constants.py'], [('Config properties, new_tracer, create_tracer', 'jaeger_client/config.py')],
     ['behaviour of the resulting tracer: requests, datagrams, carriers, spans'], SEQ, TRUST)

prop('G02', 'The tracer is initialized once', '''
However many threads call initialize_tracer() and however attempts fail, at most one attempt returns a tracer, which is
then the global one, and all others return nothing (or raise their own failure) and leave it in place; after a failed
attempt the next one may succeed, and when no attempt is in progress initialized() says whether one has succeeded.''',
     'schedules histories fault_sequences', 'all interleavings of 2-3 initializing threads, with a failure at any stage of an attempt',
     'Tests initialize twice in one thread.',
     ['jaeger_client/config.py'], [('_initialized_lock and _initialized', 'jaeger_client/config.py: Config.initialize_tracer')],
     ['return values', 'opentracing.global_tracer()'], SCHED + '; plus ' + FAULT, TRUST)

prop('G03', 'Construction survives its environment', '''
Building a tracer succeeds whatever the resolver, the network interfaces, the host name lookup and the agent do - errors,
timeouts reported as errors, odd results - and the tracer then has the hostname and IP tags the application
gave (even blank ones) or else those that could be determined; spans still can be created and finished.''', 'fault_sequences', 'every combination of failures of the system calls made during construction',
     'Tests run in one environment.',
     ['jaeger_client/utils.py', 'jaeger_client/tracer.py', 'jaeger_client/TUDPTransport.py'],
     [('local_ip, get_local_ip_by_...', 'jaeger_client/utils.py'), ('_create_socket', 'jaeger_client/TUDPTransport.py')],
     ['process tags', 'exceptions'], FAULT, TRUST)

prop('U01', 'Errors are logged without flooding', '''
The error reporter of a configuration, shared by sampler, throttler and reporter, logs an error, with exactly its
arguments, if and only if it has a logger (logging is enabled) and more than the logging interval (15 minutes) has passed
since the last error it logged - or since it was created, if it has logged none; errors in between change nothing. So a
lasting outage of the agent, however many submissions and polls fail and for whatever reason, is logged once per
interval, and no failure is logged by any other way or surfaces in the application.''',
     'histories', 'every sequence of errors and time steps up to the bound; every combination of outages of the three paths to the agent',
     'Tests check two errors.',
     ['jaeger_client/utils.py'], [('ErrorReporter', 'jaeger_client/utils.py')], ['log records'], SEQ, TRUST)

prop('N01', 'Requests to the agent are well-formed', '''
For every service name, operation name and client ID, requests for sampling strategies (path /sampling) and
throttling credits (path /credits) go to the configured host and sampling or throttling port with the given timeout and with
exactly those values, each operation once, as URL-encoded UTF-8 query parameters service, uuid (the one the process of the
tracer is tagged with) and operations; spans go to the configured host and reporting port over one non-blocking UDP
socket of the family of the first address the host resolves to (IPv4 if it does not).''', 'inputs configurations',
     'every name from an alphabet of special characters x host/port configuration',
     'Tests use plain ASCII names.',
     ['jaeger_client/local_agent_net.py', 'jaeger_client/TUDPTransport.py'],
     [('LocalAgentHTTP._request', 'jaeger_client/local_agent_net.py')], ['HTTP requests and datagrams of the virtual network'], SEQ, TRUST)

prop('T01', 'Thrift structures survive the wire', '''
Every structure of the Thrift interface (spans, batches, sampling strategies, Zipkin spans, crossdock requests), whichever
of its fields are set and whatever (text) values they hold, is written to the compact and the binary protocol with exactly
the field IDs and types of the interface definition, and is read from there with equal fields, whatever the order of the
fields; fields unknown, absent, or of another type leave the others, and what is read of them, undisturbed; a structure cut
short is never taken for complete. validate() refuses exactly the structures that lack a required field. Structures are
equal if and only if their fields are. A sampling strategy response turns into the sampler it describes, or an error.''',
     'inputs', 'every subset of the fields of every structure; every value of every pair of fields; every field order and foreign field up to the bound',
     'Tests serialize a few complete spans with one protocol and never read them back.',
     ['jaeger_client/thrift_gen', 'jaeger_client/thrift.py', 'crossdock/thrift_gen'],
     [('read and write of the generated structures', 'jaeger_client/thrift_gen/*/ttypes.py'), ('parse_sampling_strategy', 'jaeger_client/thrift.py')],
     ['bytes of the protocols', 'fields of the objects read'], SEQ,
     TRUST + 'The oracle is an own codec of both protocols with field tables from the interface definitions.')

prop('T02', 'Remote calls are settled once, with their own answer', '''
A call through a generated Thrift client (collector, sampling manager, Zipkin collector) sends one message with a sequence
number not used before and its arguments; it is settled exactly once, by the answer with its sequence number: with the
result, the error the server reports, or a missing-result error for an empty answer, whatever the order in which answers
arrive and whatever answers to unknown or settled calls arrive in between; if the connection closes, all calls still
open fail with the transport error, and a call that its caller cancelled disturbs no other. One-way calls (agent) send one message and expect no answer. A server calls the handler
once per request with the arguments sent, answers each request under its own name and sequence number with the result of the
handler, whenever that is available, and answers calls of unknown methods with an unknown-method error.''',
     'histories', 'every history of calls, answers, errors and closing up to the bound; every order in which concurrent requests complete',
     'No test uses these clients or servers.',
     ['jaeger_client/thrift_gen'],
     [('Client and Processor', 'jaeger_client/thrift_gen/*/{Collector,SamplingManager,ZipkinCollector,Agent}.py')],
     ['frames sent', 'futures', 'calls of the handler'], SEQ, TRUST)

prop('X01', 'Crossdock messages and trace generator', '''
Requests and responses of the crossdock server keep all their fields, through every hop of the chain of downstream
calls, when they are turned to JSON and back (unknown keys are ignored, text may be given as bytes) or to structures for
TChannel; malformed responses are refused with an error. The end-to-end handler answers each request once and creates exactly
as many sampled root spans of the requested operation, with the requested tags, as asked for, and reports them to the agent
at AGENT_HOST_PORT (jaeger-agent:6831 if that is unset or unusable).''',
     'inputs histories', 'every chain of hops with every combination of set fields up to the bound; every pair of generator requests',
     'Most of these tests are skipped with the installed Tornado; the others send one message.',
     ['crossdock/server/serializer.py', 'crossdock/server/thriftrw_serializer.py', 'crossdock/server/endtoend.py', 'crossdock/thrift_gen'],
     [('serializers', 'crossdock/server/serializer.py'), ('EndToEndHandler', 'crossdock/server/endtoend.py')],
     ['JSON text, structures', 'datagrams at the agent'], SEQ,
     TRUST + 'server.py itself needs tchannel and Tornado 4, which are not installed: it is not run. Structures of thriftrw are a strict stand-in.')


def main():
    done = [p for p in P if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in done:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                 'observe_at': p['observe'], 'hook_needed': None}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python mc/run.py A01 --only explicit --cap 5 >/dev/null; /opt/venv/bin/python -m compileall -q mc',
         'checks': [{'property': p['id'],
                     'quick_cmd': '/opt/venv/bin/python mc/run.py %s --tier quick' % p['id'],
                     'thorough_cmd': '/opt/venv/bin/python mc/run.py %s --tier thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'],
                     'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note'].strip()} for p in done],
         'not_applicable': [],
         'notes': 'No hooks in /repo: the harness replaces locks, clocks, sockets, HTTP and the event loop from outside.'}
    m['setup_cmd'] = '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); from mc import env; env.bootstrap()"'
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80
    print('%d of %d properties claimed' % (len(done), len(P)))


if __name__ == '__main__':
    main()
