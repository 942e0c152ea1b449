From 8a88f499b301130b0aa44fc3efe67239fbf93fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 01/50] fix: explicit references take precedence over the
 active span as parent

---
 jaeger_client/tracer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 1c6c002..2125eef 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -157,11 +157,6 @@ class Tracer(opentracing.Tracer):
         """
         parent = child_of
 
-        if self.active_span is not None \
-                and not ignore_active_span \
-                and not parent:
-            parent = self.active_span
-
         # allow Span to be passed as reference, not just SpanContext
         if isinstance(parent, Span):
             parent = parent.context
@@ -179,6 +174,12 @@ class Tracer(opentracing.Tracer):
         if valid_references and (parent is None or not parent.has_trace):
             parent = valid_references[0].referenced_context
 
+        # the active span is the parent only when none was given explicitly
+        if self.active_span is not None \
+                and not ignore_active_span \
+                and not parent:
+            parent = self.active_span.context
+
         rpc_server = bool(tags and tags.get(ext_tags.SPAN_KIND) == ext_tags.SPAN_KIND_RPC_SERVER)
 
         if parent is None or not parent.has_trace:
-- 
2.43.0


From 577d57629d7d212018ae301c1c1ff4a3e9a9866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 02/50] fix: consult the sampler for a new trace whose parent
 context carries only baggage

---
 jaeger_client/tracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 2125eef..b4f443a 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -188,7 +188,8 @@ class Tracer(opentracing.Tracer):
             parent_id = None
             flags = 0
             baggage = None
-            if parent is None:
+            if parent is None or not parent.debug_id:
+                # a parent without a trace may only carry baggage
                 sampled, sampler_tags = \
                     self.sampler.is_sampled(trace_id, operation_name or '')
                 if sampled:
@@ -196,7 +197,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif parent.debug_id and self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From 17015ecdb7119dbf2af39362311556ff0f927dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 03/50] fix: a child of a context with only the debug flag is
 sampled

---
 jaeger_client/tracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index b4f443a..7e1d6ad 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -213,6 +213,9 @@ class Tracer(opentracing.Tracer):
                 span_id = self._random_id(constants._max_id_bits)
                 parent_id = parent.span_id
             flags = parent.flags
+            if flags & DEBUG_FLAG:
+                # debug implies sampled; B3 transmits only the debug flag
+                flags |= SAMPLED_FLAG
             baggage = dict(parent.baggage)  # TODO do we need to clone?
 
         span_ctx = SpanContext(trace_id=trace_id, span_id=span_id,
-- 
2.43.0


From 3cbf529d4e6b98ca7f939e09cb63991ba7cfa8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 04/50] fix: do not lose baggage or sampling flags when
 set_baggage_item races with another update

---
 jaeger_client/span.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 65ff161..eee00f4 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -149,10 +149,9 @@ class Span(opentracing.Span):
         return self
 
     def set_baggage_item(self, key: str, value: Optional[str]) -> 'Span':
-        prev_value = self.get_baggage_item(key=key)
-        new_context = self.context.with_baggage_item(key=key, value=value)
         with self.update_lock:
-            self._context = new_context
+            prev_value = self.get_baggage_item(key=key)
+            self._context = self.context.with_baggage_item(key=key, value=value)
         if self.is_sampled():
             logs = {
                 'event': 'baggage',
-- 
2.43.0


From 533695296b7d361842a9e88d40bed41965c59254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 05/50] fix: ignore any sampling.priority value that is not a
 number

---
 jaeger_client/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index eee00f4..652efea 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -124,7 +124,7 @@ class Span(opentracing.Span):
 
         try:
             value_num = int(value)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
-- 
2.43.0


From 1130512d370ad80dd0c1d24ecea6149f8ea3197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 06/50] fix: no deadlock when a log handler, tag value or
 throttler uses the span being updated

---
 jaeger_client/span.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 652efea..9f25595 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -53,7 +53,8 @@ class Span(opentracing.Span):
         self.start_time = start_time or time.time()
         self.end_time: Optional[float] = None
         self.finished = False
-        self.update_lock = threading.Lock()
+        # reentrant: str(value) of a tag or a throttler may use this span
+        self.update_lock = threading.RLock()
         self.references = references
         # we store tags and logs as Thrift objects to avoid extra allocations
         self.tags: List[ttypes.Tag] = []
@@ -87,11 +88,15 @@ class Span(opentracing.Span):
             return
 
         with self.update_lock:
-            if self.finished:
-                logger.warning('Span has already been finished; will not be reported again.')
-                return
-            self.finished = True
-            self.end_time = finish_time or time.time()
+            already_finished = self.finished
+            if not already_finished:
+                self.finished = True
+                self.end_time = finish_time or time.time()
+
+        if already_finished:
+            # not under the lock: log handlers may use this span
+            logger.warning('Span has already been finished; will not be reported again.')
+            return
 
         self.tracer.report_span(self)
 
-- 
2.43.0


From 4bbd689b1716b4c1d05320ef0b4bc4a12f8e78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 07/50] fix: a span updated after finish() cannot corrupt the
 batch being serialized

---
 jaeger_client/thrift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index fbe07ff..72e0a37 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -213,8 +213,9 @@ def make_jaeger_batch(spans, process):
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
                 duration=timestamp_micros(span.end_time - span.start_time),
-                tags=span.tags,  # TODO
-                logs=span.logs,  # TODO
+                # copies: the span may still be written to while the batch is serialized
+                tags=list(span.tags),
+                logs=list(span.logs),
             )
         batch.spans.append(jaeger_span)
     return batch
-- 
2.43.0


From 24527bbedad7b3725246caf81459fe6cab8c1ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 08/50] fix: do not send span references without trace and span
 IDs

---
 jaeger_client/thrift.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 72e0a37..d81d1fe 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -187,6 +187,9 @@ def make_references(references):
         return None
     list_of_span_refs = list()
     for span_ref in references:
+        if not span_ref.referenced_context.has_trace:
+            # e.g. a debug ID or baggage without trace: SpanRef requires the IDs
+            continue
         list_of_span_refs.append(ttypes.SpanRef(
             refType=make_ref_type(span_ref.type),
             traceIdLow=id_to_int(_id_to_low(span_ref.referenced_context.trace_id)),
-- 
2.43.0


From 98ee87562a66f91e38cd42644bc7eba2216cd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 09/50] fix: an integer tag outside of the i64 range does not
 discard the whole batch

---
 jaeger_client/thrift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index d81d1fe..71cbc37 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -66,7 +66,8 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif isinstance(value, int):
+    elif isinstance(value, int) and -_max_signed_id - 1 <= value <= _max_signed_id:
+        # larger numbers do not fit Thrift i64 and are sent as strings
         return _make_long_tag(
             key=key,
             value=value
-- 
2.43.0


From 8ce22e14099051a895afa8bac5989044fd152700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 10/50] fix: strings that are not valid UTF-8 do not discard
 the whole batch

---
 jaeger_client/thrift.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 71cbc37..0c65640 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -55,9 +55,15 @@ def id_to_int(big_id):
 
 def _to_string(s):
     try:
-        return str(s)
+        s = str(s)
     except Exception as e:
-        return str(e)
+        s = str(e)
+    try:
+        s.encode('utf-8')
+    except UnicodeEncodeError:
+        # lone surrogates cannot be sent
+        s = s.encode('utf-8', 'replace').decode('utf-8')
+    return s
 
 
 def make_tag(key, value, max_length, max_traceback_length):
@@ -93,7 +99,7 @@ def make_tag(key, value, max_length, max_traceback_length):
 
 def _make_traceback_tag(key, value, max_length):
     key = _to_string(key)
-    value = ''.join(traceback.format_tb(value))
+    value = _to_string(''.join(traceback.format_tb(value)))
     if len(value) > max_length:
         value = value[:max_length]
     return ttypes.Tag(
@@ -171,7 +177,7 @@ def make_log(timestamp, fields, max_length, max_traceback_length):
 
 def make_process(service_name, tags, max_length):
     return ttypes.Process(
-        serviceName=service_name,
+        serviceName=_to_string(service_name),
         tags=make_tags(tags=tags, max_length=max_length,
                        max_traceback_length=MAX_TRACEBACK_LENGTH),
     )
@@ -212,7 +218,7 @@ def make_jaeger_batch(spans, process):
                 traceIdHigh=id_to_int(_id_to_high(span.trace_id)),
                 spanId=id_to_int(span.span_id),
                 parentSpanId=id_to_int(span.parent_id) or 0,
-                operationName=span.operation_name,
+                operationName=_to_string(span.operation_name),
                 references=make_references(span.references),
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
-- 
2.43.0


From d1079f19603963ddb55751d96e1068aebd68a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 11/50] fix: a batch that fails to serialize does not corrupt
 the next one

---
 jaeger_client/local_agent_net.py | 8 ++++++--
 jaeger_client/reporter.py        | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 7f95606..402e9e0 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -78,8 +78,12 @@ class LocalAgentSender(TBufferedTransport):
 
         # UDP reporting - this will only get written to after our flush() call.
         # We are buffering things up because we are a TBufferedTransport.
-        udp = TUDPTransport(host, reporting_port)
-        TBufferedTransport.__init__(self, udp)
+        self._udp = TUDPTransport(host, reporting_port)
+        TBufferedTransport.__init__(self, self._udp)
+
+    def discard(self):
+        """Drop everything written since the last flush()."""
+        TBufferedTransport.__init__(self, self._udp)
 
     def _create_new_thread_loop(self):
         """
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 6888aa8..18a506e 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -223,7 +223,13 @@ class Reporter(BaseReporter):
         Send batch of spans out via thrift transport. Any exceptions thrown
         will be caught above in the exception handler of _submit().
         """
-        return self.agent.emitBatch(batch)
+        try:
+            return self.agent.emitBatch(batch)
+        except Exception:
+            # what was already written must not be sent together with the next batch
+            if hasattr(self._channel, 'discard'):
+                self._channel.discard()
+            raise
 
     def close(self) -> Future:
         """
-- 
2.43.0


From 83b0f41303db1e074906cdf25c81eeb94c0e274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 12/50] fix: closing a reporter twice completes both futures

---
 jaeger_client/reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 18a506e..29a6474 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -242,8 +242,11 @@ class Reporter(BaseReporter):
     def _flush(self):
         # stopping here ensures we don't lose spans from pending _report_span_from_ioloop callbacks
         with self.stop_lock:
+            already_stopped = self.stopped
             self.stopped = True
-        yield self.queue.put(self.stop)
+        if not already_stopped:
+            # the consumer takes exactly one stop mark from the queue
+            yield self.queue.put(self.stop)
         yield self.queue.join()
 
 
-- 
2.43.0


From 20fa991fbcc00e7550c601cbc51d0c20206cda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 13/50] fix: ioloop_util.submit completes its future when the
 function raises

---
 jaeger_client/ioloop_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index eb73b6f..bcd1d4d 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -37,9 +37,7 @@ def submit(fn, io_loop, *args, **kwargs):
             # The function we ran didn't return a future and instead raised
             # an exception. Let's pretend that it returned this dummy
             # future with our stack trace.
-            f = gen.Future()
-            f.set_exc_info(sys.exc_info())
-            on_done(f)
+            future.set_exception(sys.exc_info()[1])
         else:
             result.add_done_callback(on_done)
 
-- 
2.43.0


From bd80c36ab34326513232e3b0309a0fdcc66cbaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 14/50] fix: rate limiter is thread safe and does not depend on
 the wall clock

---
 jaeger_client/rate_limiter.py | 28 +++++++++++++++++-----------
 jaeger_client/sampler.py      |  3 ++-
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 0778db4..c1534e3 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import random
+import threading
 import time
 
 
@@ -42,26 +43,31 @@ class RateLimiter(object):
         self.max_balance = max_balance
         self.balance = self.max_balance * random.random()
         self.last_tick = self.timestamp()
+        self.lock = threading.Lock()
 
     @staticmethod
     def timestamp():
-        return time.time()
+        # not time.time(): steps of the system clock must not affect the balance
+        return time.monotonic()
 
     def update(self, credits_per_second, max_balance):
-        self._update_balance()
-        self.credits_per_second = credits_per_second
-        # The new balance should be proportional to the old balance.
-        self.balance = max_balance * self.balance / self.max_balance
-        self.max_balance = max_balance
+        with self.lock:
+            self._update_balance()
+            self.credits_per_second = credits_per_second
+            # The new balance should be proportional to the old balance.
+            self.balance = max_balance * self.balance / self.max_balance
+            self.max_balance = max_balance
 
     def check_credit(self, item_cost):
-        self._update_balance()
-        if self.balance >= item_cost:
-            self.balance -= item_cost
-            return True
-        return False
+        with self.lock:
+            self._update_balance()
+            if self.balance >= item_cost:
+                self.balance -= item_cost
+                return True
+            return False
 
     def _update_balance(self):
+        # N.B. Caller must be holding the lock.
         current_time = self.timestamp()
         elapsed_time = current_time - self.last_tick
         self.last_tick = current_time
diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 355f853..1453949 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -175,13 +175,14 @@ class RateLimitingSampler(Sampler):
         pass
 
     def __eq__(self, other: Any) -> bool:
-        """The last_tick and balance fields can be different"""
+        """The last_tick, balance and lock fields can be different"""
         if not isinstance(other, self.__class__):
             return False
         d1 = dict(self.rate_limiter.__dict__)
         d2 = dict(other.rate_limiter.__dict__)
         d1['balance'] = d2['balance']
         d1['last_tick'] = d2['last_tick']
+        d1['lock'] = d2['lock']
         return d1 == d2
 
     def update(self, max_traces_per_second: float) -> bool:
-- 
2.43.0


From 27d2e979b492ae80578567f6d86e6f29ee5661d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 15/50] fix: an invalid sampling strategy leaves the current
 strategy in place

---
 jaeger_client/sampler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 1453949..0c5e51d 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -152,7 +152,7 @@ class RateLimitingSampler(Sampler):
         self._init(max_traces_per_second)
 
     def _init(self, max_traces_per_second):
-        assert max_traces_per_second >= 0, \
+        assert 0 <= max_traces_per_second < float('inf'), \
             'max_traces_per_second must not be negative'
         self._tags = {
             SAMPLER_TYPE_TAG_KEY: SAMPLER_TYPE_RATE_LIMITING,
@@ -278,6 +278,7 @@ class AdaptiveSampler(Sampler):
         self.default_sampling_probability = \
             strategies.get(DEFAULT_SAMPLING_PROBABILITY_STR, DEFAULT_SAMPLING_PROBABILITY)
         self.lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
+        RateLimitingSampler(self.lower_bound)  # assert that the lower bound is valid
         self.max_operations = max_operations
 
     def is_sampled(self, trace_id: int, operation: str = '') -> _IsSampledType:
@@ -296,6 +297,8 @@ class AdaptiveSampler(Sampler):
 
     def update(self, strategies: Dict[str, Any]) -> None:
         # (NB) This function should only be called while holding a Write lock.
+        # Invalid strategies raise here, before anything is changed.
+        AdaptiveSampler(strategies, self.max_operations)
         for strategy in strategies.get(STRATEGIES_STR, []):
             operation = strategy.get(OPERATION_STR)
             lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
@@ -482,7 +485,7 @@ class RemoteControlledSampler(Sampler):
             new_sampler = ProbabilisticSampler(rate=sampling_rate)
         elif s_type == RATE_LIMITING_SAMPLING_STRATEGY:
             mtps = get_rate_limit(response)
-            if mtps < 0 or mtps >= 500:
+            if not 0 <= mtps < 500:
                 raise ValueError(
                     'Rate limiting parameter not in [0, 500) range: %s' % mtps)
             if isinstance(self.sampler, RateLimitingSampler):
-- 
2.43.0


From b1d4547e4eac8004bcbef25296980e1bfc658b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 16/50] fix: an undecodable sampling response is a failed query

---
 jaeger_client/sampler.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 0c5e51d..f830a18 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -437,14 +437,12 @@ class RemoteControlledSampler(Sampler):
 
         response = future.result()
 
-        # In Python 3.5 response.body is of type bytes and json.loads() does only support str
-        # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            # In Python 3.5 response.body is of type bytes and json.loads() does only support str
+            # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             sampling_strategies_response = json.loads(response_body)
             self.metrics.sampler_retrieved(1)
         except Exception as e:
-- 
2.43.0


From cfc07d0d17f16c5bf190ecbb211d969de8e6a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 17/50] fix: sampler does not log or count under its lock, or
 poll after close; a failed request does not stop the polling

---
 jaeger_client/sampler.py | 62 ++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index f830a18..854ffa2 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -405,10 +405,14 @@ class RemoteControlledSampler(Sampler):
             delay = r.random() * self.sampling_refresh_interval
             self.io_loop.call_later(delay=delay,
                                     callback=self._delayed_polling)
-            self.logger.info(
-                'Delaying sampling strategy polling by %d sec', delay)
+        # not under the lock: log handlers may start spans
+        self.logger.info(
+            'Delaying sampling strategy polling by %d sec', delay)
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
         periodic = self._create_periodic_callback()
         self._poll_sampling_manager()  # Initialize sampler now
         with self.lock:
@@ -416,9 +420,9 @@ class RemoteControlledSampler(Sampler):
                 return
             self.periodic = periodic
             periodic.start()  # start the periodic cycle
-            self.logger.info(
-                'Tracing sampler started with sampling refresh '
-                'interval %d sec', self.sampling_refresh_interval)
+        self.logger.info(
+            'Tracing sampler started with sampling refresh '
+            'interval %d sec', self.sampling_refresh_interval)
 
     def _create_periodic_callback(self):
         return PeriodicCallback(
@@ -456,26 +460,39 @@ class RemoteControlledSampler(Sampler):
         self.logger.debug('Tracing sampler set to %s', self.sampler)
 
     def _update_sampler(self, response):
-        with self.lock:
-            try:
+        # Metrics and errors are not reported under the lock:
+        # metrics backends and log handlers may start spans.
+        try:
+            with self.lock:
                 if response.get(OPERATION_SAMPLING_STR):
-                    self._update_adaptive_sampler(response.get(OPERATION_SAMPLING_STR))
+                    updated = self._update_adaptive_sampler(response.get(OPERATION_SAMPLING_STR))
                 else:
-                    self._update_rate_limiting_or_probabilistic_sampler(response)
-            except Exception as e:
-                self.metrics.sampler_update_failure(1)
-                self.error_reporter.error(
-                    'Fail to update sampler'
-                    'from jaeger-agent: %s [%s]', e, response)
+                    updated = self._update_rate_limiting_or_probabilistic_sampler(response)
+        except Exception as e:
+            self.metrics.sampler_update_failure(1)
+            self.error_reporter.error(
+                'Fail to update sampler'
+                'from jaeger-agent: %s [%s]', e, response)
+        else:
+            if updated:
+                self.metrics.sampler_updated(1)
 
     def _update_adaptive_sampler(self, per_operation_strategies):
+        """
+        N.B. Caller must be holding the lock.
+        :return: Returns True if the sampler was changed
+        """
         if isinstance(self.sampler, AdaptiveSampler):
             self.sampler.update(per_operation_strategies)
         else:
             self.sampler = AdaptiveSampler(per_operation_strategies, self.max_operations)
-        self.metrics.sampler_updated(1)
+        return True
 
     def _update_rate_limiting_or_probabilistic_sampler(self, response):
+        """
+        N.B. Caller must be holding the lock.
+        :return: Returns True if the sampler was changed
+        """
         s_type = response.get(STRATEGY_TYPE_STR)
         new_sampler = self.sampler
         if s_type == PROBABILISTIC_SAMPLING_STRATEGY:
@@ -487,8 +504,7 @@ class RemoteControlledSampler(Sampler):
                 raise ValueError(
                     'Rate limiting parameter not in [0, 500) range: %s' % mtps)
             if isinstance(self.sampler, RateLimitingSampler):
-                if self.sampler.update(max_traces_per_second=mtps):
-                    self.metrics.sampler_updated(1)
+                return self.sampler.update(max_traces_per_second=mtps)
             else:
                 new_sampler = RateLimitingSampler(max_traces_per_second=mtps)
         else:
@@ -496,11 +512,19 @@ class RemoteControlledSampler(Sampler):
 
         if self.sampler != new_sampler:
             self.sampler = new_sampler
-            self.metrics.sampler_updated(1)
+            return True
+        return False
 
     def _poll_sampling_manager(self):
         self.logger.debug('Requesting tracing sampler refresh')
-        fut = self._channel.request_sampling_strategy(self.service_name)
+        try:
+            fut = self._channel.request_sampling_strategy(self.service_name)
+        except Exception as e:
+            # must not prevent the next poll
+            self.metrics.sampler_query_failure(1)
+            self.error_reporter.error(
+                'Fail to get sampling strategy from jaeger-agent: %s', e)
+            return
         fut.add_done_callback(self._sampling_request_callback)
 
     def close(self) -> None:
-- 
2.43.0


From 7e79d715b169ee378c588d9d6de5493e40b71da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 18/50] fix: a malformed throttling response is not applied in
 part

---
 jaeger_client/throttler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6866e4b..b1195e0 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -177,13 +177,17 @@ class RemoteThrottler(Throttler):
 
     def _update_credits(self, response):
         with self.lock:
+            # a malformed response must not be applied in part
+            credits = dict(self.credits)
             for op_balance in response['balances']:
                 op = op_balance['operation']
                 balance = op_balance['balance']
-                if op not in self.credits:
-                    self.credits[op] = 0
-                self.credits[op] += balance
-            self.logger.debug('credits = %s', self.credits)
+                if op not in credits:
+                    credits[op] = 0
+                credits[op] += balance
+            self.credits = credits
+            snapshot = dict(credits)
+        self.logger.debug('credits = %s', snapshot)
 
     def close(self) -> None:
         with self.lock:
-- 
2.43.0


From e3902929700d35fb4853b848902521abdcaddbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 19/50] fix: throttler does not log or count under its lock, or
 poll after close; a failed request does not stop the polling

---
 jaeger_client/throttler.py | 61 +++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index b1195e0..1fb472f 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -80,17 +80,14 @@ class RemoteThrottler(Throttler):
 
     def is_allowed(self, operation: str) -> bool:
         with self.lock:
-            if operation not in self.credits:
-                self.credits[operation] = 0.0
-                self.metrics.throttled_debug_spans(1)
-                return False
-            value = self.credits[operation]
-            if value < MINIMUM_CREDITS:
-                self.metrics.throttled_debug_spans(1)
-                return False
-
-            self.credits[operation] = value - MINIMUM_CREDITS
-            return True
+            value = self.credits.setdefault(operation, 0.0)
+            allowed = value >= MINIMUM_CREDITS
+            if allowed:
+                self.credits[operation] = value - MINIMUM_CREDITS
+        if not allowed:
+            # not under the lock: metrics backends may start spans
+            self.metrics.throttled_debug_spans(1)
+        return allowed
 
     def set_client_id(self, client_id: int) -> None:
         with self.lock:
@@ -112,14 +109,19 @@ class RemoteThrottler(Throttler):
             delay = r.random() * self.refresh_interval
             self.channel.io_loop.call_later(
                 delay=delay, callback=self._delayed_polling)
-            self.logger.info(
-                'Delaying throttling credit polling by %d sec', delay)
+        # not under the lock: log handlers may start spans
+        self.logger.info(
+            'Delaying throttling credit polling by %d sec', delay)
 
     def _operations(self):
         with self.lock:
-            return self.credits.keys()
+            return list(self.credits.keys())
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
+
         def callback():
             self._fetch_credits(self._operations())
 
@@ -132,17 +134,24 @@ class RemoteThrottler(Throttler):
             if not self.running:
                 return
             self.periodic = periodic
-            self.periodic.start()
-            self.logger.info(
-                'Throttling client started with refresh interval %d sec',
-                self.refresh_interval)
+            periodic.start()
+        self.logger.info(
+            'Throttling client started with refresh interval %d sec',
+            self.refresh_interval)
 
     def _fetch_credits(self, operations):
         if not operations:
             return
         self.logger.debug('Requesting throttling credits')
-        fut = self.channel.request_throttling_credits(
-            self.service_name, self.client_id, operations)
+        try:
+            fut = self.channel.request_throttling_credits(
+                self.service_name, self.client_id, operations)
+        except Exception as e:
+            # must not prevent the next request
+            self.metrics.throttler_update_failure(1)
+            self.error_reporter.error(
+                'Failed to get throttling credits from jaeger-agent: %s', e)
+            return
         fut.add_done_callback(self._request_callback)
 
     def _request_callback(self, future):
@@ -155,14 +164,12 @@ class RemoteThrottler(Throttler):
             return
 
         response = future.result()
-        # In Python 3.5 response.body is of type bytes and json.loads() does only support str
-        # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            # In Python 3.5 response.body is of type bytes and json.loads() does only support str
+            # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             throttling_response = json.loads(response_body)
             self.logger.debug('Received throttling response: %s',
                               throttling_response)
-- 
2.43.0


From d66ab46808ff52a46dbcd100c42da475ecb0eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 20/50] fix: closing the tracer stops the throttler

---
 jaeger_client/tracer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 7e1d6ad..13db243 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -296,6 +296,8 @@ class Tracer(opentracing.Tracer):
             flush has been completed.
         """
         self.sampler.close()
+        if self.throttler:
+            self.throttler.close()
         return self.reporter.close()
 
     def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:
-- 
2.43.0


From 678ab0fde5340954cb6cc871e689bb008892f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 21/50] fix: B3 injects a continued 128-bit trace ID with 32
 digits

---
 jaeger_client/codecs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 3f11755..7fe64b6 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -31,6 +31,10 @@ from .constants import SAMPLED_FLAG, DEBUG_FLAG
 import urllib.parse
 
 
+_max_uint64 = (1 << 64) - 1
+_max_uint128 = (1 << 128) - 1
+
+
 class Codec(object):
     def inject(self, span_context, carrier):
         raise NotImplementedError()
@@ -339,7 +343,7 @@ class B3Codec(Codec):
     def inject(self, span_context, carrier):
         if not isinstance(carrier, dict):
             raise InvalidCarrierException('carrier not a dictionary')
-        if self.generate_128bit_trace_id:
+        if self.generate_128bit_trace_id or span_context.trace_id > _max_uint64:
             carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(32)
         else:
             carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(16)
-- 
2.43.0


From 1ab6a6e0d4003c2e0c40e3f0f6cbe9f46462d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 22/50] fix: a truncated or corrupted binary carrier raises
 SpanContextCorruptedException

---
 jaeger_client/codecs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 7fe64b6..e19c205 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -159,6 +159,12 @@ class BinaryCodec(Codec):
     def extract(self, carrier):
         if not isinstance(carrier, bytearray):
             raise InvalidCarrierException('carrier not a bytearray')
+        try:
+            return self._extract(carrier)
+        except (struct.error, UnicodeDecodeError) as e:
+            raise SpanContextCorruptedException('malformed binary trace context: %s' % e)
+
+    def _extract(self, carrier):
         baggage = {}
         high_trace_id, low_trace_id, span_id, parent_id, flags, baggage_count = \
             struct.unpack('>QQQQBI', carrier[:37])
@@ -201,10 +207,13 @@ class BinaryCodec(Codec):
         return key, value, bytes_read
 
     def _read_kv(self, data):
-        data_len = struct.unpack('>i', data[:4])[0]
-        data_value = struct.unpack('>' + 'c' * data_len, data[4:4 + data_len])
+        data_len = struct.unpack('>I', data[:4])[0]
+        data_value = data[4:4 + data_len]
+        if len(data_value) < data_len:
+            raise SpanContextCorruptedException(
+                'malformed binary trace context: %d of %d bytes' % (len(data_value), data_len))
         bytes_read = 4 + data_len
-        return b''.join(data_value).decode('utf-8'), bytes_read
+        return data_value.decode('utf-8'), bytes_read
 
 
 def span_context_to_string(trace_id, span_id, parent_id, flags):
-- 
2.43.0


From 0c7b67e816d0ab49d9e09fd5e9dd79c643fb520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 23/50] fix: trace contexts with IDs that are out of range are
 rejected

---
 jaeger_client/codecs.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index e19c205..dbe6c7a 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -261,6 +261,10 @@ def span_context_from_string(value):
         if trace_id < 1 or span_id < 1 or parent_id < 0 or flags < 0:
             raise SpanContextCorruptedException(
                 'malformed trace context "%s"' % value)
+        if trace_id > _max_uint128 or max(span_id, parent_id) > _max_uint64 or flags > 0xFF:
+            # would not fit when the spans are reported or the context is injected
+            raise SpanContextCorruptedException(
+                'malformed trace context "%s"' % value)
         if parent_id == 0:
             parent_id = None
         return trace_id, span_id, parent_id, flags
@@ -312,21 +316,29 @@ class ZipkinCodec(Codec):
                 raise InvalidCarrierException('carrier has no traceflags')
         if not trace_id:
             return None
+        for value, max_value in ((trace_id, _max_uint128), (span_id, _max_uint64),
+                                 (parent_id, _max_uint64), (flags, 0xFF)):
+            if value is not None and not (isinstance(value, int) and 0 <= value <= max_value):
+                raise SpanContextCorruptedException('malformed trace context: %r' % (value,))
         return SpanContext(trace_id=trace_id, span_id=span_id,
                            parent_id=parent_id, flags=flags,
                            baggage=None)
 
 
-def header_to_hex(header):
+def header_to_hex(header, max_value=_max_uint64):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
 
     try:
-        return int(header, 16)
+        value = int(header, 16)
     except ValueError:
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
+    if not 0 <= value <= max_value:
+        raise SpanContextCorruptedException(
+            'malformed trace context "%s", out of range' % header)
+    return value
 
 
 class B3Codec(Codec):
@@ -374,7 +386,7 @@ class B3Codec(Codec):
                 continue
             lower_key = header_key.lower()
             if lower_key == self._trace_header_lc:
-                trace_id = header_to_hex(header_value)
+                trace_id = header_to_hex(header_value, _max_uint128)
             elif lower_key == self._span_header_lc:
                 span_id = header_to_hex(header_value)
             elif lower_key == self._parent_span_header_lc:
-- 
2.43.0


From 33cb82ccd6e323bf255a452d8bbacbf13ec0522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 24/50] fix: HTTP header values presented as arrays are
 extracted, other types are rejected as corrupted

---
 jaeger_client/codecs.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index dbe6c7a..49b5e77 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -92,25 +92,21 @@ class TextCodec(Codec):
         for key, value in carrier.items():
             uc_key = key.lower()
             if uc_key == self.trace_id_header:
-                if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                value = self._decode(value)
                 trace_id, span_id, parent_id, flags = \
                     span_context_from_string(value)
             elif uc_key.startswith(self.baggage_prefix):
-                if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                value = self._decode(value)
                 attr_key = key[self.prefix_length:]
                 if baggage is None:
                     baggage = {attr_key.lower(): value}
                 else:
                     baggage[attr_key.lower()] = value
             elif uc_key == self.debug_id_header:
-                if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                value = self._decode(value)
                 debug_id = value
             elif uc_key == self.baggage_header:
-                if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                value = self._decode(value)
                 baggage = self._parse_baggage_header(value, baggage)
         if not trace_id or not span_id:
             # reset all IDs
@@ -121,6 +117,16 @@ class TextCodec(Codec):
                            parent_id=parent_id, flags=flags,
                            baggage=baggage, debug_id=debug_id)
 
+    def _decode(self, value):
+        if not self.url_encoding:
+            return value
+        if isinstance(value, list) and len(value) == 1:
+            # sometimes headers are presented as arrays of values
+            value = value[0]
+        if not isinstance(value, (str, bytes)):
+            raise SpanContextCorruptedException('malformed header value "%s"' % (value,))
+        return urllib.parse.unquote(value)
+
     def _parse_baggage_header(self, header, baggage):
         for part in header.split(','):
             kv = part.strip().split('=')
-- 
2.43.0


From 57238df18b7abeda08c62d0e9d7e63f5163a241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 25/50] fix: local IP detection survives resolver failures,
 probes the right interfaces and closes its sockets

---
 jaeger_client/utils.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index ff464b4..6f09a7f 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -66,8 +66,11 @@ def local_ip() -> Optional[str]:
 
     try:
         ip = socket.gethostbyname(socket.gethostname())
-    except IOError:
-        ip = socket.gethostbyname('localhost')
+    except (IOError, UnicodeError):
+        try:
+            ip = socket.gethostbyname('localhost')
+        except IOError:
+            ip = '127.0.0.1'
     if ip.startswith('127.'):
         ip = get_local_ip_by_interfaces()
         if ip is None:
@@ -93,7 +96,7 @@ def get_local_ip_by_interfaces() -> Optional[str]:
     ip = None
     # Check eth0, eth1, eth2, en0, ...
     interfaces = [
-        i + bytes(n) for i in (b'eth', b'en', b'wlan') for n in range(3)
+        i + str(n).encode('ascii') for i in (b'eth', b'en', b'wlan') for n in range(3)
     ]  # :(
     for interface in interfaces:
         try:
@@ -110,11 +113,14 @@ def interface_ip(interface: bytes) -> Optional[str]:
         import fcntl
         """Determine the IP assigned to us by the given network interface."""
         sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
-        return socket.inet_ntoa(
-            fcntl.ioctl(
-                sock.fileno(), 0x8915, struct.pack('256s', interface[:15])
-            )[20:24]
-        )
+        try:
+            return socket.inet_ntoa(
+                fcntl.ioctl(
+                    sock.fileno(), 0x8915, struct.pack('256s', interface[:15])
+                )[20:24]
+            )
+        finally:
+            sock.close()
     except ImportError:
         return None
     # Explanation:
-- 
2.43.0


From 1002665ed898d1d21ee2d3420a79ef64ed7509f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 26/50] fix: an operation or service name that is not valid
 UTF-8 does not fail the requests to the agent

---
 jaeger_client/local_agent_net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 402e9e0..5f4244d 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -35,6 +35,9 @@ class LocalAgentHTTP(object):
             defaults=dict(request_timeout=timeout))
         url = 'http://%s:%d/%s' % (self.agent_http_host, self.agent_http_port, path)
         if args:
+            # as UTF-8: an operation name with lone surrogates must not fail all requests
+            args = [(k, v.encode('utf-8', 'replace') if isinstance(v, str) else v)
+                    for k, v in (args.items() if isinstance(args, dict) else args)]
             url = url_concat(url, args)
         return http_client.fetch(url)
 
-- 
2.43.0


From 7ce3f8a68916b73ab4785971e9ee4c506ab80dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 27/50] fix: Prometheus metrics do not depend on the order of
 tags, collide or modify the given tags

---
 jaeger_client/metrics/prometheus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index a4f3339..d180b31 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -31,7 +31,7 @@ class PrometheusMetricsFactory(MetricsFactory):
         if tags is None:
             return []
         tag_name_list = []
-        for key in tags.keys():
+        for key in sorted(tags.keys()):
             tag_name_list.append(key)
         return tag_name_list
 
@@ -40,10 +40,10 @@ class PrometheusMetricsFactory(MetricsFactory):
             if tags is None:
                 tags = {'service': self._service_name_label}
             else:
-                tags['service'] = self._service_name_label
+                tags = dict(tags, service=self._service_name_label)
 
         label_name_list = self._get_tag_name_list(tags)
-        cache_key = name + '@@'.join(label_name_list)
+        cache_key = (name, tuple(label_name_list))
 
         metric = self._cache.get(cache_key)
         if metric is None:
-- 
2.43.0


From 31fdda86683813efd210b93ae3f1280f79fff45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 28/50] fix: JAEGER_TAGS values may contain '=', malformed
 items are ignored and the given config is not modified

---
 jaeger_client/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index c70f56a..ada33e4 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -313,12 +313,13 @@ class Config(object):
         :return: Returns tags from config and `JAEGER_TAGS` environment variable
         to use as process-wide tracer tags
         """
-        tags = self.config.get('tags', {})
+        tags = dict(self.config.get('tags') or {})
         env_tags = os.environ.get('JAEGER_TAGS', '')
         if env_tags:
             for kv in env_tags.split(','):
-                key, value = kv.split('=')
-                tags[key.strip()] = value.strip()
+                key, separator, value = kv.partition('=')
+                if separator:
+                    tags[key.strip()] = value.strip()
         return tags
 
     @property
-- 
2.43.0


From 8f0575cc15ee459d2c9d49723bb14675cc049d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 29/50] fix: a failed initialize_tracer() does not prevent
 another attempt

---
 jaeger_client/config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index ada33e4..b3e7938 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -375,7 +375,13 @@ class Config(object):
                 return None
             Config._initialized = True
 
-        tracer = self.new_tracer(io_loop)
+        try:
+            tracer = self.new_tracer(io_loop)
+        except BaseException:
+            # allow another attempt, e.g. with a corrected configuration
+            with Config._initialized_lock:
+                Config._initialized = False
+            raise
 
         self._initialize_global_tracer(tracer=tracer)
         return tracer
-- 
2.43.0


From cfbc4a59a5af5b466e99562cce5334305cfcd904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 30/50] fix: close() of tracers and reporters works in any
 thread and its future completes there

---
 jaeger_client/ioloop_util.py | 69 ++++++++++++++++++++++++++++++++----
 jaeger_client/reporter.py    | 28 ++++++++++++---
 2 files changed, 86 insertions(+), 11 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index bcd1d4d..45b2439 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -13,10 +13,67 @@
 # limitations under the License.
 
 
+import asyncio
 import sys
+import threading
 from tornado import gen
 from tornado.concurrent import Future
 
+_idle_loop = None
+_idle_loop_lock = threading.Lock()
+
+
+def new_future(io_loop=None):
+    """
+    Create a Future in any thread, also if that thread has no event loop.
+
+    :param io_loop: Tornado IOLoop to use if the current thread has no event loop
+    """
+    try:
+        return Future()
+    except RuntimeError:
+        loop = getattr(io_loop, 'asyncio_loop', None) or _get_idle_loop()
+        return Future(loop=loop)
+
+
+def _get_idle_loop():
+    global _idle_loop
+    with _idle_loop_lock:
+        if _idle_loop is None:
+            _idle_loop = asyncio.new_event_loop()
+        return _idle_loop
+
+
+def _running_loop():
+    try:
+        return asyncio.get_running_loop()
+    except RuntimeError:
+        return None
+
+
+def _complete(future, result=None, exception=None):
+    """
+    Complete a future that may belong to an event loop of another thread.
+    """
+    def complete():
+        if future.done():
+            return
+        if exception is not None:
+            future.set_exception(exception)
+        else:
+            future.set_result(result)
+
+    loop = future.get_loop() if hasattr(future, 'get_loop') else None
+    if loop is None or loop is _running_loop():
+        complete()
+    elif loop.is_running():
+        loop.call_soon_threadsafe(complete)
+    else:
+        complete()
+        if not loop.is_closed():
+            # it may have been started meanwhile
+            loop.call_soon_threadsafe(lambda: None)
+
 
 def submit(fn, io_loop, *args, **kwargs):
     """Submit Tornado Coroutine to IOLoop.current().
@@ -27,7 +84,7 @@ def submit(fn, io_loop, *args, **kwargs):
     :param kwargs: Kwargs to pass to coroutine
     :returns tornado.concurrent.Future: future result of coroutine
     """
-    future = Future()
+    future = new_future(io_loop)
 
     def execute():
         """Execute fn on the IOLoop."""
@@ -37,7 +94,7 @@ def submit(fn, io_loop, *args, **kwargs):
             # The function we ran didn't return a future and instead raised
             # an exception. Let's pretend that it returned this dummy
             # future with our stack trace.
-            future.set_exception(sys.exc_info()[1])
+            _complete(future, exception=sys.exc_info()[1])
         else:
             result.add_done_callback(on_done)
 
@@ -48,9 +105,9 @@ def submit(fn, io_loop, *args, **kwargs):
         """
         exception = tornado_future.exception()
         if not exception:
-            future.set_result(tornado_future.result())
+            _complete(future, result=tornado_future.result())
         else:
-            future.set_exception(exception)
+            _complete(future, exception=exception)
 
     io_loop.add_callback(execute)
 
@@ -58,12 +115,12 @@ def submit(fn, io_loop, *args, **kwargs):
 
 
 def future_result(result):
-    future = Future()
+    future = new_future()
     future.set_result(result)
     return future
 
 
 def future_exception(exception):
-    future = Future()
+    future = new_future()
     future.set_exception(exception)
     return future
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 29a6474..f9632fb 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -44,9 +44,7 @@ class BaseReporter(object):
         pass
 
     def close(self) -> Future:
-        fut: Future = Future()
-        fut.set_result(True)
-        return fut
+        return ioloop_util.future_result(True)
 
 
 class NullReporter(BaseReporter):
@@ -277,11 +275,26 @@ class CompositeReporter(BaseReporter):
         for reporter in self.reporters:
             reporter.report_span(span)
 
+    @property
+    def io_loop(self) -> Any:
+        """:return: Returns IOLoop of the first reporter that uses one"""
+        for reporter in self.reporters:
+            io_loop = getattr(reporter, 'io_loop', None)
+            if io_loop is not None:
+                return io_loop
+        return None
+
     def close(self) -> Future:
+        if self.io_loop is not None:
+            # callbacks of the futures run even if the loop of this thread does not
+            return ioloop_util.submit(self._close, io_loop=self.io_loop)
+        return self._close()
+
+    def _close(self) -> Future:
         from threading import Lock
         lock = Lock()
         count = [0]
-        future: Future = Future()
+        future: Future = ioloop_util.new_future()
 
         def on_close(_):
             with lock:
@@ -289,8 +302,13 @@ class CompositeReporter(BaseReporter):
                 if count[0] == len(self.reporters):
                     future.set_result(True)
 
+        if not self.reporters:
+            future.set_result(True)
         for reporter in self.reporters:
             f = reporter.close()
-            f.add_done_callback(on_close)
+            if f.done():
+                on_close(f)
+            else:
+                f.add_done_callback(on_close)
 
         return future
-- 
2.43.0


From 807c40dc177d27551de47a0266d0f4732449938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 31/50] fix: a tuple as header value is rejected as corrupted

---
 jaeger_client/codecs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 49b5e77..cbdd0ac 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -254,7 +254,7 @@ def span_context_from_string(value):
         value = value[0]
     if not isinstance(value, (str,)):
         raise SpanContextCorruptedException(
-            'trace context not a string "%s"' % value)
+            'trace context not a string "%s"' % (value,))
     parts = value.split(':')
     if len(parts) != 4:
         raise SpanContextCorruptedException(
@@ -334,7 +334,7 @@ class ZipkinCodec(Codec):
 def header_to_hex(header, max_value=_max_uint64):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
-            'malformed trace context "%s", expected hex string' % header)
+            'malformed trace context "%s", expected hex string' % (header,))
 
     try:
         value = int(header, 16)
-- 
2.43.0


From 86b6caf4bab31fafe31a4619d6c14bc638d969aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 32/50] fix: config validation accepts debug_id_header and
 max_operations

---
 jaeger_client/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index b3e7938..e8c038f 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -138,6 +138,8 @@ class Config(object):
                         'trace_id_header',
                         'generate_128bit_trace_id',
                         'baggage_header_prefix',
+                        'debug_id_header',
+                        'max_operations',
                         'service_name',
                         'throttler']
         config_keys = config.keys()
-- 
2.43.0


From 1f0a22674595bc1fc93b39c136bad4ccccb64bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 33/50] fix: initialize_tracer() does not log under its lock

---
 jaeger_client/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index e8c038f..f23ee06 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -372,11 +372,14 @@ class Config(object):
         """
 
         with Config._initialized_lock:
-            if Config._initialized:
-                logger.warning('Jaeger tracer already initialized, skipping')
-                return None
+            already_initialized = Config._initialized
             Config._initialized = True
 
+        if already_initialized:
+            # not under the lock: log handlers may use Config
+            logger.warning('Jaeger tracer already initialized, skipping')
+            return None
+
         try:
             tracer = self.new_tracer(io_loop)
         except BaseException:
-- 
2.43.0


From 845b163eeaf5b20f759b6fe892c3df471f0657ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 34/50] fix: str() of a tag value is not called under the lock
 of the span

---
 jaeger_client/span.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 9f25595..9275028 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -53,7 +53,7 @@ class Span(opentracing.Span):
         self.start_time = start_time or time.time()
         self.end_time: Optional[float] = None
         self.finished = False
-        # reentrant: str(value) of a tag or a throttler may use this span
+        # reentrant: a throttler may use this span
         self.update_lock = threading.RLock()
         self.references = references
         # we store tags and logs as Thrift objects to avoid extra allocations
@@ -108,13 +108,16 @@ class Span(opentracing.Span):
         with self.update_lock:
             if key == ext_tags.SAMPLING_PRIORITY and not self._set_sampling_priority(value):
                 return self
-            if self.is_sampled():
-                tag = thrift.make_tag(
-                    key=key,
-                    value=value,
-                    max_length=self.tracer.max_tag_value_length,
-                    max_traceback_length=self._tracer.max_traceback_length,
-                )
+            sampled = self.is_sampled()
+        if sampled:
+            # not under the lock: str(value) may wait for locks of the application
+            tag = thrift.make_tag(
+                key=key,
+                value=value,
+                max_length=self.tracer.max_tag_value_length,
+                max_traceback_length=self._tracer.max_traceback_length,
+            )
+            with self.update_lock:
                 self.tags.append(tag)
         return self
 
-- 
2.43.0


From c37cae5747a4c0412c5b37f04bb1aebe5c9dafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 35/50] fix: close() of nested composite reporters must
 complete in threads without an event loop

---
 jaeger_client/ioloop_util.py | 46 ++++++++++++++++++++++++++----------
 jaeger_client/reporter.py    |  6 +++--
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index 45b2439..38b54b4 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -14,13 +14,42 @@
 
 
 import asyncio
+import logging
 import sys
-import threading
 from tornado import gen
 from tornado.concurrent import Future
 
-_idle_loop = None
-_idle_loop_lock = threading.Lock()
+logger = logging.getLogger('jaeger_tracing')
+
+
+class _NoLoop(asyncio.AbstractEventLoop):
+    """
+    Stands in for the event loop of futures that are created in a thread without one:
+    there is nothing that could run their callbacks later, so they run at once.
+    """
+
+    def call_soon(self, callback, *args, context=None):
+        if context is None:
+            callback(*args)
+        else:
+            context.run(callback, *args)
+
+    call_soon_threadsafe = call_soon
+
+    def call_exception_handler(self, context):
+        logger.error(context.get('message'), exc_info=context.get('exception'))
+
+    def get_debug(self):
+        return False
+
+    def is_running(self):
+        return False
+
+    def is_closed(self):
+        return False
+
+
+_no_loop = _NoLoop()
 
 
 def new_future(io_loop=None):
@@ -32,16 +61,7 @@ def new_future(io_loop=None):
     try:
         return Future()
     except RuntimeError:
-        loop = getattr(io_loop, 'asyncio_loop', None) or _get_idle_loop()
-        return Future(loop=loop)
-
-
-def _get_idle_loop():
-    global _idle_loop
-    with _idle_loop_lock:
-        if _idle_loop is None:
-            _idle_loop = asyncio.new_event_loop()
-        return _idle_loop
+        return Future(loop=getattr(io_loop, 'asyncio_loop', None) or _no_loop)
 
 
 def _running_loop():
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index f9632fb..727e94a 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -299,8 +299,10 @@ class CompositeReporter(BaseReporter):
         def on_close(_):
             with lock:
                 count[0] += 1
-                if count[0] == len(self.reporters):
-                    future.set_result(True)
+                all_closed = count[0] == len(self.reporters)
+            if all_closed:
+                # not under the lock: may run callbacks
+                future.set_result(True)
 
         if not self.reporters:
             future.set_result(True)
-- 
2.43.0


From f9cc213a80b721f31d3684708c4d151fd425aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 36/50] fix: config validation accepts the documented metrics
 key

---
 jaeger_client/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index f23ee06..c06dba2 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -124,6 +124,7 @@ class Config(object):
 
     def _validate_config(self, config):
         allowed_keys = ['logging',
+                        'metrics',
                         'local_agent',
                         'sampler',
                         'tags',
-- 
2.43.0


From 1a642f7c1846ec88db86361d5430e120d08c83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 37/50] fix: a tracer can be built when the resolver fails with
 any kind of error

---
 jaeger_client/TUDPTransport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/TUDPTransport.py b/jaeger_client/TUDPTransport.py
index 655801d..87e7795 100644
--- a/jaeger_client/TUDPTransport.py
+++ b/jaeger_client/TUDPTransport.py
@@ -45,7 +45,7 @@ class TUDPTransport(TTransportBase, object):
             )
             if addrinfo:
                 family, type, proto, *_ = addrinfo[0]
-        except socket.gaierror:
+        except (socket.error, UnicodeError):
             pass
 
         return socket.socket(family, type, proto)
-- 
2.43.0


From 3bee6f6d645f2e58e7dabc50cd0addaf70c88385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:39 +0000
Subject: [PATCH 38/50] fix: several Prometheus metrics factories can be used
 in one process

---
 jaeger_client/metrics/prometheus.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index d180b31..99bea6b 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -13,17 +13,20 @@
 # limitations under the License.
 
 from jaeger_client.metrics import MetricsFactory
-from collections import defaultdict
 from prometheus_client import Counter, Gauge
-from typing import Any, Optional, Dict, Callable, DefaultDict
+from threading import Lock
+from typing import Any, Optional, Dict, Callable
 
 
 class PrometheusMetricsFactory(MetricsFactory):
     """
     Provides metrics backed by Prometheus
     """
+    # Prometheus accepts each metric only once per process
+    _cache: Dict = {}
+    _lock = Lock()
+
     def __init__(self, namespace: str = '', service_name_label: Optional[str] = None) -> None:
-        self._cache: DefaultDict = defaultdict(object)
         self._namespace = namespace
         self._service_name_label = service_name_label
 
@@ -43,13 +46,14 @@ class PrometheusMetricsFactory(MetricsFactory):
                 tags = dict(tags, service=self._service_name_label)
 
         label_name_list = self._get_tag_name_list(tags)
-        cache_key = (name, tuple(label_name_list))
+        cache_key = (metricType, self._namespace, name, tuple(label_name_list))
 
-        metric = self._cache.get(cache_key)
-        if metric is None:
-            metric = metricType(name=name, documentation=name,
-                                labelnames=label_name_list, namespace=self._namespace)
-            self._cache[cache_key] = metric
+        with self._lock:
+            metric = self._cache.get(cache_key)
+            if metric is None:
+                metric = metricType(name=name, documentation=name,
+                                    labelnames=label_name_list, namespace=self._namespace)
+                self._cache[cache_key] = metric
 
         if tags is not None and len(tags) > 0:
             metric = metric.labels(**tags)
-- 
2.43.0


From 4bb9861a9ff88017fc8359ba9c63da98da88c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 39/50] fix: calls of a Thrift client fail when the connection
 closes, also on Python 3

---
 jaeger_client/thrift_gen/agent/Agent.py                | 2 +-
 jaeger_client/thrift_gen/jaeger/Collector.py           | 2 +-
 jaeger_client/thrift_gen/sampling/SamplingManager.py   | 2 +-
 jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py | 2 +-
 thrift-gen-fix.awk                                     | 1 +
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/jaeger_client/thrift_gen/agent/Agent.py b/jaeger_client/thrift_gen/agent/Agent.py
index a495c77..e41dc2d 100644
--- a/jaeger_client/thrift_gen/agent/Agent.py
+++ b/jaeger_client/thrift_gen/agent/Agent.py
@@ -55,7 +55,7 @@ class Client(Iface):
       try:
         frame = yield self._transport.readFrame()
       except TTransport.TTransportException as e:
-        for future in self._reqs.itervalues():
+        for future in six.itervalues(self._reqs):
           future.set_exception(e)
         self._reqs = {}
         return
diff --git a/jaeger_client/thrift_gen/jaeger/Collector.py b/jaeger_client/thrift_gen/jaeger/Collector.py
index cc52100..ceeb125 100644
--- a/jaeger_client/thrift_gen/jaeger/Collector.py
+++ b/jaeger_client/thrift_gen/jaeger/Collector.py
@@ -48,7 +48,7 @@ class Client(Iface):
       try:
         frame = yield self._transport.readFrame()
       except TTransport.TTransportException as e:
-        for future in self._reqs.itervalues():
+        for future in six.itervalues(self._reqs):
           future.set_exception(e)
         self._reqs = {}
         return
diff --git a/jaeger_client/thrift_gen/sampling/SamplingManager.py b/jaeger_client/thrift_gen/sampling/SamplingManager.py
index b3bff78..26d6e53 100644
--- a/jaeger_client/thrift_gen/sampling/SamplingManager.py
+++ b/jaeger_client/thrift_gen/sampling/SamplingManager.py
@@ -48,7 +48,7 @@ class Client(Iface):
       try:
         frame = yield self._transport.readFrame()
       except TTransport.TTransportException as e:
-        for future in self._reqs.itervalues():
+        for future in six.itervalues(self._reqs):
           future.set_exception(e)
         self._reqs = {}
         return
diff --git a/jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py b/jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py
index f6ced14..35cf3a7 100644
--- a/jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py
+++ b/jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py
@@ -48,7 +48,7 @@ class Client(Iface):
       try:
         frame = yield self._transport.readFrame()
       except TTransport.TTransportException as e:
-        for future in self._reqs.itervalues():
+        for future in six.itervalues(self._reqs):
           future.set_exception(e)
         self._reqs = {}
         return
diff --git a/thrift-gen-fix.awk b/thrift-gen-fix.awk
index b995285..414d8c4 100644
--- a/thrift-gen-fix.awk
+++ b/thrift-gen-fix.awk
@@ -11,6 +11,7 @@ BEGIN {six=0}
 {
     gsub(/from ttype/, "from .ttype", $0);
     gsub(/self.__dict__.iteritems\(\)/, "six.iteritems(self.__dict__)", $0);
+    gsub(/self._reqs.itervalues\(\)/, "six.itervalues(self._reqs)", $0);
     if (package_prefix) {
         $0 = gensub(/[[:alnum:]_]+\.ttypes/, package_prefix ".\\0", "g", $0);
     }
-- 
2.43.0


From 28a056a15526aadf41a0639ed6f51b3bcb29dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 40/50] fix: crossdock's Thrift structures can be printed on
 Python 3

---
 crossdock/thrift_gen/tracetest/TracedService.py | 10 +++++-----
 crossdock/thrift_gen/tracetest/ttypes.py        | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crossdock/thrift_gen/tracetest/TracedService.py b/crossdock/thrift_gen/tracetest/TracedService.py
index 45bdb89..7ef3866 100644
--- a/crossdock/thrift_gen/tracetest/TracedService.py
+++ b/crossdock/thrift_gen/tracetest/TracedService.py
@@ -53,7 +53,7 @@ class Client(Iface):
       try:
         frame = yield self._transport.readFrame()
       except TTransport.TTransportException as e:
-        for future in self._reqs.itervalues():
+        for future in self._reqs.values():
           future.set_exception(e)
         self._reqs = {}
         return
@@ -242,7 +242,7 @@ class startTrace_args(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
@@ -307,7 +307,7 @@ class startTrace_result(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
@@ -373,7 +373,7 @@ class joinTrace_args(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
@@ -438,7 +438,7 @@ class joinTrace_result(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
diff --git a/crossdock/thrift_gen/tracetest/ttypes.py b/crossdock/thrift_gen/tracetest/ttypes.py
index a392952..943acc3 100644
--- a/crossdock/thrift_gen/tracetest/ttypes.py
+++ b/crossdock/thrift_gen/tracetest/ttypes.py
@@ -163,7 +163,7 @@ class Downstream(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
@@ -276,7 +276,7 @@ class StartTraceRequest(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
@@ -357,7 +357,7 @@ class JoinTraceRequest(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
@@ -454,7 +454,7 @@ class ObservedSpan(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
@@ -554,7 +554,7 @@ class TraceResponse(object):
 
   def __repr__(self):
     L = ['%s=%r' % (key, value)
-      for key, value in self.__dict__.iteritems()]
+      for key, value in self.__dict__.items()]
     return '%s(%s)' % (self.__class__.__name__, ', '.join(L))
 
   def __eq__(self, other):
-- 
2.43.0


From cceca69c6ed36eedfd9383bd8be1126e71bd4184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 41/50] fix: crossdock converts the whole chain of downstream
 calls for TChannel

---
 crossdock/server/thriftrw_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crossdock/server/thriftrw_serializer.py b/crossdock/server/thriftrw_serializer.py
index 650e991..1cbb4d3 100644
--- a/crossdock/server/thriftrw_serializer.py
+++ b/crossdock/server/thriftrw_serializer.py
@@ -29,7 +29,7 @@ def downstream_to_thriftrw(service, downstream):
                               downstream.host,
                               downstream.port,
                               downstream.transport,
-                              downstream.downstream)
+                              downstream_to_thriftrw(service, downstream.downstream))
 
 
 def join_trace_request_to_thriftrw(service, jtr):
-- 
2.43.0


From 0bc87e4e1107d047d54a29208cf081d2cdb69346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 42/50] fix: exact header names take precedence over the
 baggage prefix

---
 jaeger_client/codecs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index cbdd0ac..c7887b8 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -95,6 +95,12 @@ class TextCodec(Codec):
                 value = self._decode(value)
                 trace_id, span_id, parent_id, flags = \
                     span_context_from_string(value)
+            elif uc_key == self.debug_id_header:
+                value = self._decode(value)
+                debug_id = value
+            elif uc_key == self.baggage_header:
+                value = self._decode(value)
+                baggage = self._parse_baggage_header(value, baggage)
             elif uc_key.startswith(self.baggage_prefix):
                 value = self._decode(value)
                 attr_key = key[self.prefix_length:]
@@ -102,12 +108,6 @@ class TextCodec(Codec):
                     baggage = {attr_key.lower(): value}
                 else:
                     baggage[attr_key.lower()] = value
-            elif uc_key == self.debug_id_header:
-                value = self._decode(value)
-                debug_id = value
-            elif uc_key == self.baggage_header:
-                value = self._decode(value)
-                baggage = self._parse_baggage_header(value, baggage)
         if not trace_id or not span_id:
             # reset all IDs
             trace_id, span_id, parent_id, flags = None, None, None, None
-- 
2.43.0


From 01b7a40b753b07d35efdd0505de52a71f82c4a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 43/50] fix: ask the throttler about the empty operation name,
 not None, for debug spans without a name

---
 jaeger_client/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 13db243..4e2cb68 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -197,7 +197,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name or ''):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From 95e66e5b08df6948e33f8867ad7c87bca34c1509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 44/50] fix: values whose str() fails with an unprintable
 exception do not make tracing calls raise

---
 jaeger_client/thrift.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 0c65640..74daa51 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -57,7 +57,10 @@ def _to_string(s):
     try:
         s = str(s)
     except Exception as e:
-        s = str(e)
+        try:
+            s = str(e)
+        except Exception:
+            s = type(e).__name__
     try:
         s.encode('utf-8')
     except UnicodeEncodeError:
-- 
2.43.0


From e8ae3ea5a2cf44116e9f9aa7d6dc9bf587e4cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 45/50] fix: tag values of an unrelated class called traceback
 do not make tracing calls raise

---
 jaeger_client/thrift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 74daa51..00125c1 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import traceback
+from types import TracebackType
 from opentracing.tracer import ReferenceType
 from .constants import MAX_TRACEBACK_LENGTH
 
@@ -86,7 +87,7 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif type(value).__name__ == 'traceback':
+    elif isinstance(value, TracebackType):
         return _make_traceback_tag(
             key=key,
             value=value,
-- 
2.43.0


From e86da874b5d731d386a820c284bc9ba7770bc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:14 +0000
Subject: [PATCH 46/50] fix: a jaeger-baggage entry that is not a string is
 rejected as corrupted

---
 jaeger_client/codecs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index c7887b8..5942167 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -128,6 +128,8 @@ class TextCodec(Codec):
         return urllib.parse.unquote(value)
 
     def _parse_baggage_header(self, header, baggage):
+        if not isinstance(header, str):
+            raise SpanContextCorruptedException('malformed header value "%s"' % (header,))
         for part in header.split(','):
             kv = part.strip().split('=')
             if len(kv) == 2:
-- 
2.43.0


From f489ab67a30e070c61987714a329b87c8a2b04fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 47/50] fix: extract ignores carrier entries whose names are
 not strings

---
 jaeger_client/codecs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 5942167..7b0042b 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -90,6 +90,9 @@ class TextCodec(Codec):
         baggage = None
         debug_id = None
         for key, value in carrier.items():
+            if not isinstance(key, str):
+                # not one of ours
+                continue
             uc_key = key.lower()
             if uc_key == self.trace_id_header:
                 value = self._decode(value)
@@ -390,7 +393,7 @@ class B3Codec(Codec):
         trace_id = span_id = parent_id = None
         flags = 0x00
         for header_key, header_value in carrier.items():
-            if header_value is None:
+            if header_value is None or not isinstance(header_key, str):
                 continue
             lower_key = header_key.lower()
             if lower_key == self._trace_header_lc:
-- 
2.43.0


From f35fd8dc92fdb5cf292e257910fca61d7c2eb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 48/50] fix: a cancelled remote call does not keep the answers
 from the other calls

---
 jaeger_client/thrift_gen/jaeger/Collector.py           | 8 +++++---
 jaeger_client/thrift_gen/sampling/SamplingManager.py   | 8 +++++---
 jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/jaeger_client/thrift_gen/jaeger/Collector.py b/jaeger_client/thrift_gen/jaeger/Collector.py
index ceeb125..c0b2565 100644
--- a/jaeger_client/thrift_gen/jaeger/Collector.py
+++ b/jaeger_client/thrift_gen/jaeger/Collector.py
@@ -49,15 +49,17 @@ class Client(Iface):
         frame = yield self._transport.readFrame()
       except TTransport.TTransportException as e:
         for future in six.itervalues(self._reqs):
-          future.set_exception(e)
+          if not future.done():
+            # not cancelled by the caller
+            future.set_exception(e)
         self._reqs = {}
         return
       tr = TTransport.TMemoryBuffer(frame)
       iprot = self._iprot_factory.getProtocol(tr)
       (fname, mtype, rseqid) = iprot.readMessageBegin()
       future = self._reqs.pop(rseqid, None)
-      if not future:
-        # future has already been discarded
+      if not future or future.done():
+        # future has already been discarded or cancelled
         continue
       method = getattr(self, 'recv_' + fname)
       try:
diff --git a/jaeger_client/thrift_gen/sampling/SamplingManager.py b/jaeger_client/thrift_gen/sampling/SamplingManager.py
index 26d6e53..0c9c64d 100644
--- a/jaeger_client/thrift_gen/sampling/SamplingManager.py
+++ b/jaeger_client/thrift_gen/sampling/SamplingManager.py
@@ -49,15 +49,17 @@ class Client(Iface):
         frame = yield self._transport.readFrame()
       except TTransport.TTransportException as e:
         for future in six.itervalues(self._reqs):
-          future.set_exception(e)
+          if not future.done():
+            # not cancelled by the caller
+            future.set_exception(e)
         self._reqs = {}
         return
       tr = TTransport.TMemoryBuffer(frame)
       iprot = self._iprot_factory.getProtocol(tr)
       (fname, mtype, rseqid) = iprot.readMessageBegin()
       future = self._reqs.pop(rseqid, None)
-      if not future:
-        # future has already been discarded
+      if not future or future.done():
+        # future has already been discarded or cancelled
         continue
       method = getattr(self, 'recv_' + fname)
       try:
diff --git a/jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py b/jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py
index 35cf3a7..be61614 100644
--- a/jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py
+++ b/jaeger_client/thrift_gen/zipkincore/ZipkinCollector.py
@@ -49,15 +49,17 @@ class Client(Iface):
         frame = yield self._transport.readFrame()
       except TTransport.TTransportException as e:
         for future in six.itervalues(self._reqs):
-          future.set_exception(e)
+          if not future.done():
+            # not cancelled by the caller
+            future.set_exception(e)
         self._reqs = {}
         return
       tr = TTransport.TMemoryBuffer(frame)
       iprot = self._iprot_factory.getProtocol(tr)
       (fname, mtype, rseqid) = iprot.readMessageBegin()
       future = self._reqs.pop(rseqid, None)
-      if not future:
-        # future has already been discarded
+      if not future or future.done():
+        # future has already been discarded or cancelled
         continue
       method = getattr(self, 'recv_' + fname)
       try:
-- 
2.43.0


From 0a5e541444a99317c25a51f70a865f4f17ba3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 49/50] fix: tag values of the process may use the reporter
 that is given them

---
 jaeger_client/reporter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 727e94a..5d04337 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -137,10 +137,12 @@ class Reporter(BaseReporter):
         self._process = None
 
     def set_process(self, service_name: str, tags: Dict, max_length: int) -> None:
+        # not under the lock: str() of tag values may use this reporter
+        process = thrift.make_process(
+            service_name=service_name, tags=tags, max_length=max_length,
+        )
         with self._process_lock:
-            self._process = thrift.make_process(
-                service_name=service_name, tags=tags, max_length=max_length,
-            )
+            self._process = process
 
     def report_span(self, span: Span) -> None:
         self.io_loop.add_callback(self._report_span_from_ioloop, span)
-- 
2.43.0


From 20f892bdbb28ea0a1a0946682e651bda98b4952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 50/50] fix: the initial sampler of a remote sampler may start
 spans itself

---
 jaeger_client/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 854ffa2..aa7cad4 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -17,7 +17,7 @@ import json
 import logging
 import random
 
-from threading import Lock
+from threading import RLock
 from tornado.ioloop import PeriodicCallback
 from .constants import (
     _max_id_bits,
@@ -373,7 +373,8 @@ class RemoteControlledSampler(Sampler):
         else:
             self.sampler.is_sampled(0)  # assert we got valid sampler API
 
-        self.lock = Lock()
+        # reentrant: the initial sampler may use the tracer
+        self.lock = RLock()
         self.running = True
         self.periodic = None
 
-- 
2.43.0

