"""A controlled scheduler: one real OS thread runs at a time, every switch is a choice.

Scheduling points are lock operations and, inside jaeger_client, every byte-code instruction that
can read or write shared state (attribute / item / closure / module-global access, calls,
iteration, containment).  jaeger_client supports CPython 3.7 - 3.9, where the interpreter may
switch threads between any two instructions, so this is the granularity its users run at.
The instruction events come from sys.monitoring, switched on only while a Sched runs.
"""
import _thread
import dis
import sys
import threading
import types
import traceback

from . import locks
from .explore import Violation, HarnessError

_alloc = _thread.allocate_lock
_ident = _thread.get_ident
_registry = locks.registry

TOOL = 4
_mon = sys.monitoring
_visible = {}        # code -> frozenset(offset)
_codes = []
_ready = False

_ATTR = {'STORE_ATTR', 'DELETE_ATTR', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR',
         'BINARY_SLICE', 'STORE_SLICE', 'CALL', 'CALL_FUNCTION_EX', 'FOR_ITER', 'CONTAINS_OP',
         'STORE_GLOBAL', 'DELETE_GLOBAL', 'STORE_DEREF', 'LIST_EXTEND', 'DICT_UPDATE', 'DICT_MERGE',
         'SET_UPDATE', 'GET_ITER', 'COMPARE_OP', 'UNPACK_SEQUENCE', 'LOAD_DEREF'}


class Abort(BaseException):
    """Unwinds a scheduled thread when the execution is over."""


def _scan(code, stored_globals):
    vis = set()
    for ins in dis.get_instructions(code):
        op = ins.opname
        if op in _ATTR:
            vis.add(ins.offset)
        elif op == 'LOAD_ATTR' and not (ins.arg & 1):
            vis.add(ins.offset)
        elif op == 'LOAD_GLOBAL' and ins.argval in stored_globals:
            vis.add(ins.offset)
        elif op == 'BINARY_OP' and ins.arg >= 13:       # in-place operators
            vis.add(ins.offset)
        elif op in ('LOAD_SUPER_ATTR',):
            pass
    _visible[code] = frozenset(vis)
    _codes.append(code)


def _walk(code, seen):
    if code in seen:
        return
    seen.add(code)
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _walk(c, seen)


def setup(prefix):
    """Find every code object of the package (functions, methods, nested functions)."""
    global _ready
    if _ready:
        return
    _ready = True
    import gc
    seen, codes = set(), []
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(prefix) \
                and 'thrift_gen' not in f.__code__.co_filename:
            codes.extend(_walk(f.__code__, seen))
    stored = set()
    for c in codes:
        for ins in dis.get_instructions(c):
            if ins.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                stored.add(ins.argval)
    for c in codes:
        _scan(c, stored)
    _mon.use_tool_id(TOOL, 'mc')
    _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instruction)


_enabled_codes = False


def enable_monitoring(on):
    """Local INSTRUCTION events on every code object of the package."""
    global _enabled_codes
    if on == _enabled_codes:
        return
    _enabled_codes = on
    ev = _mon.events.INSTRUCTION if on else 0
    for c in _codes:
        _mon.set_local_events(TOOL, c, ev)


_DISABLE = _mon.DISABLE


def _on_instruction(code, offset):
    t = _registry.get(_ident())
    if offset not in _visible[code]:
        return _DISABLE
    if t is not None:
        s = t.sched
        if s.aborting:
            s.abort_here(t)
        if not t.nopreempt:
            t.pos = (code, offset)
            s.point(t)


class ThreadRec(object):
    __slots__ = ('sched', 'tid', 'body', 'sem', 'wait', 'done', 'exc', 'name', 'timed', 'timed_out',
                 'nopreempt', 'tb', 'aborted', 'thr', 'pos')

    def __init__(self, sched, tid, body, name):
        self.sched, self.tid, self.body, self.name = sched, tid, body, name
        self.sem = _alloc()
        self.sem.acquire()
        self.wait = None
        self.pos = None
        self.timed = False
        self.timed_out = False
        self.done = False
        self.exc = None
        self.tb = None
        self.nopreempt = 0
        self.thr = threading.Thread(name=name)
        self.aborted = False


class Deadlock(Violation):
    pass


class Sched(object):
    """One controlled execution of a set of thread bodies."""

    def __init__(self, x, max_steps=20000, opcodes=True):
        self.x = x
        self.threads = []
        self.main = _alloc()
        self.main.acquire()
        self.aborting = False
        self.problem = None
        self.steps = 0
        self.max_steps = max_steps
        self.switches = 0
        self.opcodes = opcodes
        self.trace = []

    def spawn(self, body, name=None):
        t = ThreadRec(self, len(self.threads), body, name or 't%d' % len(self.threads))
        self.threads.append(t)
        return t

    # -- called on scheduled threads -----------------------------------------------------------
    def abort_here(self, t):
        if not t.aborted:
            t.aborted = True
            raise Abort()
        # unwinding already: let finally blocks run

    def point(self, t):
        self.steps += 1
        if self.steps > self.max_steps:
            self._fail(t, Violation('livelock: no progress within %d steps' % self.max_steps))
        others = None
        for o in self.threads:
            if o is not t and not o.done and (o.wait is None or o.wait()):
                if others is None:
                    others = [o]
                else:
                    others.append(o)
        if others is None:
            return
        c = self.x.choose(len(others) + 1, cost=1)
        if c:
            self._switch(t, others[c - 1])

    def block(self, t, pred, what, timed=False):
        """Wait until pred(); False if a timed wait gave up."""
        t.wait, t.timed, t.timed_out = pred, timed, False
        self._reschedule(t, what)
        t.wait = None
        return not t.timed_out

    def _reschedule(self, t, what):
        self.steps += 1
        if self.steps > self.max_steps:
            self._fail(t, Violation('livelock: no progress within %d steps' % self.max_steps))
        en = [o for o in self.threads if not o.done and (o.wait is None or o.wait())]
        if not en:
            en = [o for o in self.threads if not o.done and o.timed]
            if not en:
                self._fail(t, Deadlock('deadlock: %s' % ', '.join(
                    '%s waits' % o.name for o in self.threads if not o.done)))
            for o in en[:1]:
                o.timed_out = True
                o.wait = None
            en = en[:1]
        c = self.x.choose(len(en), cost=0) if len(en) > 1 else 0
        n = en[c]
        if n is not t:
            self._switch(t, n)

    def _switch(self, t, n):
        self.switches += 1
        self.trace.append(n.name)
        # the control state of the switch (evidence only): where every thread stands, who runs next
        self.x.states.append(hash((n.name,) + tuple(
            None if o.done else (o.pos[0].co_qualname, o.pos[1]) if o.pos else o.name for o in self.threads)))
        n.sem.release()
        t.sem.acquire()
        if self.aborting:
            self.abort_here(t)

    def _fail(self, t, problem):
        if self.problem is None:
            self.problem = problem
        self.aborting = True
        self.abort_here(t)

    def _thread_main(self, t):
        t.sem.acquire()
        # a Thread object for current_thread(): creating one lazily would depend on ident reuse
        threading._active[_ident()] = t.thr
        _registry[_ident()] = t
        try:
            if not self.aborting:
                t.body()
        except Abort:
            pass
        except Violation as e:
            if self.problem is None:
                self.problem = e
            self.aborting = True
        except BaseException as e:   # noqa
            t.exc = e
            t.tb = traceback.format_exc()
            if not isinstance(e, Exception):
                self.problem = self.problem or e
                self.aborting = True
        finally:
            t.done = True
            _registry.pop(_ident(), None)
            threading._active.pop(_ident(), None)
            self._exit(t)

    def _exit(self, t):
        try:
            if self.aborting:
                rest = [o for o in self.threads if not o.done]
                (rest[0].sem if rest else self.main).release()
                return
            alive = [o for o in self.threads if not o.done]
            if not alive:
                self.main.release()
                return
            en = [o for o in alive if o.wait is None or o.wait()]
            if not en:
                en = [o for o in alive if o.timed][:1]
                if not en:
                    self.problem = self.problem or Deadlock('deadlock: %s' % ', '.join(
                        '%s waits' % o.name for o in alive))
                    self.aborting = True
                    alive[0].sem.release()
                    return
                en[0].timed_out = True
                en[0].wait = None
            c = self.x.choose(len(en), cost=0) if len(en) > 1 else 0
            en[c].sem.release()
        except BaseException as e:   # noqa
            self.problem = self.problem or e
            self.aborting = True
            rest = [o for o in self.threads if not o.done]
            (rest[0].sem if rest else self.main).release()

    # -- called by the harness ------------------------------------------------------------------
    def run(self):
        if self.opcodes:
            enable_monitoring(True)
        try:
            for t in self.threads:
                _thread.start_new_thread(self._thread_main, (t,))
            c = self.x.choose(len(self.threads), cost=0) if len(self.threads) > 1 else 0
            self.threads[c].sem.release()
            self.main.acquire()
        finally:
            pass
        self.x.steps += self.steps
        if self.problem is not None:
            raise self.problem
        return self

    def errors(self):
        return [(t.name, t.exc) for t in self.threads if t.exc is not None]


def in_scheduled_thread():
    return _registry.get(_ident()) is not None


def wait_until(pred):
    """Block the calling scheduled thread until pred() holds."""
    t = _registry[_ident()]
    if not pred():
        t.sched.block(t, pred, 'cond')


def yield_point():
    t = _registry.get(_ident())
    if t is not None:
        t.sched.point(t)
