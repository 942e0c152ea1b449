"""Owns every source of nondeterminism of jaeger_client before it is imported.

`bootstrap()` must run before anything imports jaeger_client.  It replaces
  * threading.Lock / RLock / _allocate_lock  -> scheduler-aware locks (mc.locks)
  * time.time / monotonic / perf_counter     -> a virtual wall and monotonic clock
  * random.Random and the module functions   -> a source the harness scripts
  * socket.socket / name resolution          -> an in-memory network (mc.net)
and imports jaeger_client from $MC_REPO (default /repo) without byte-code caches.
"""
import os
import sys
import _thread

REPO = os.path.realpath(os.environ.get('MC_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = os.path.join(REPO, 'jaeger_client') + os.sep

sys.dont_write_bytecode = True

import time as _time            # noqa: E402
import random as _random        # noqa: E402
import socket as _socket        # noqa: E402
import threading                # noqa: E402
import gc                       # noqa: E402

real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep
real_socket = _socket.socket


class Clock(object):
    """Virtual clocks.  `mono` only moves forward; `step` shifts the wall clock."""
    BASE = 1600000000.0

    def __init__(self):
        self.reset()

    def reset(self):
        self.mono = 1000.0
        self.offset = self.BASE - 1000.0
        self.frozen = 0

    def advance(self, dt):
        assert dt >= 0
        self.mono += dt

    def step(self, dt):
        self.offset += dt

    def wall(self):
        return self.mono + self.offset


clock = Clock()


class Rand(object):
    """The one random source.  Scripted draws first, then a seeded generator."""

    def __init__(self):
        self.base = _random.Random(7)
        self.reset()

    def reset(self, seed=7):
        self.base = _RealRandom(seed)
        self.float_script = []
        self.float_hook = None
        self.bits_hook = None
        self.own = False        # let instances of random.Random follow their own seed

    def random(self):
        if self.float_hook is not None:
            return self.float_hook()
        if self.float_script:
            return self.float_script.pop(0)
        return self.base.random()

    def getrandbits(self, k):
        if self.bits_hook is not None:
            return self.bits_hook(k)
        return self.base.getrandbits(k)


_RealRandom = _random.Random
rand = Rand()


class CtlRandom(_RealRandom):
    """random.Random whose every draw comes from the harness."""

    def __init__(self, x=None):
        _RealRandom.__init__(self, 0)
        self._given = x if x is None or isinstance(x, (int, float, str, bytes)) else 0
        self._own = None

    def _gen(self):
        if self._given is None:
            return rand.base
        if self._own is None:
            self._own = _RealRandom(self._given)
        return self._own

    def random(self):
        return self._gen().random() if rand.own else rand.random()

    def getrandbits(self, k):
        return self._gen().getrandbits(k) if rand.own else rand.getrandbits(k)

    def seed(self, *a, **k):
        pass


def _patch_random():
    inst = CtlRandom()
    _random.Random = CtlRandom
    _random._inst = inst
    for name in ('random', 'uniform', 'randint', 'choice', 'randrange', 'sample', 'shuffle',
                 'choices', 'normalvariate', 'expovariate', 'getrandbits', 'betavariate', 'gauss',
                 'triangular'):
        setattr(_random, name, getattr(inst, name))


def _patch_time():
    _time.time = lambda: clock.wall()
    _time.monotonic = lambda: clock.mono
    _time.perf_counter = lambda: clock.mono
    _time.time_ns = lambda: int(clock.wall() * 1e9)
    _time.monotonic_ns = lambda: int(clock.mono * 1e9)
    _time.perf_counter_ns = lambda: int(clock.mono * 1e9)

    def sleep(dt):
        clock.advance(max(0, dt))
    _time.sleep = sleep


_done = False


def bootstrap():
    global _done
    if _done:
        return
    _done = True
    # third-party modules may come from their own byte-code; jaeger_client may not
    import asyncio, logging, json, urllib.parse, multiprocessing.connection  # noqa: F401,E401
    import concurrent.futures  # noqa: F401
    from . import locks, net
    locks.install()
    _patch_time()
    _patch_random()
    net.install()
    import tornado, tornado.gen, tornado.ioloop, tornado.queues, tornado.concurrent  # noqa: E401,F401
    import tornado.httpclient, tornado.httputil, tornado.platform.asyncio  # noqa: E401,F401
    import thrift, thrift.protocol.TCompactProtocol, thrift.transport.TTransport  # noqa: E401,F401
    import thrift.Thrift, thrift.TRecursive  # noqa: E401,F401
    import opentracing, opentracing.ext.tags  # noqa: E401,F401
    import opentracing.scope_managers  # noqa: F401
    import threadloop  # noqa: F401
    net.install_http()
    logging.raiseExceptions = False
    sys.pycache_prefix = os.path.join('/nonexistent', 'mc-no-bytecode')
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    import jaeger_client
    assert os.path.realpath(jaeger_client.__file__).startswith(PKG), jaeger_client.__file__
    import pkgutil
    import importlib
    for m in pkgutil.walk_packages(jaeger_client.__path__, 'jaeger_client.'):
        if '.zipkincore' in m.name:
            continue
        importlib.import_module(m.name)
    _snapshot()


# --- module / class level state: restored before every execution -------------------------------
_saved = []          # (container, copy)
_saved_attrs = []    # (namespace owner, name, value)
_caches = []


def _jaeger_modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == 'jaeger_client' or n.startswith('jaeger_client.') or n.startswith('crossdock'))
            and m is not None and '.thrift_gen' not in n]


def _snapshot():
    seen = set()
    _saved[:] = []
    _saved_attrs[:] = []
    _caches[:] = []

    def container(v):
        if isinstance(v, (dict, list, set, bytearray)) and id(v) not in seen:
            seen.add(id(v))
            _saved.append((v, type(v)(v) if type(v) in (dict, list, set, bytearray) else v.copy()))
            vals = list(v.values()) if isinstance(v, dict) else list(v)
            for x in vals[:200]:
                container(x)

    def func(f):
        f = getattr(f, '__func__', f)
        if hasattr(f, 'cache_clear'):
            _caches.append(f)
        for d in (getattr(f, '__defaults__', None) or ()):
            container(d)
        for d in (getattr(f, '__kwdefaults__', None) or {}).values():
            container(d)
        if isinstance(getattr(f, '__dict__', None), dict):
            container(f.__dict__)

    for m in _jaeger_modules():
        for n, v in list(vars(m).items()):
            if n.startswith('__'):
                continue
            _saved_attrs.append((m, n, v))
            if isinstance(v, type):
                if not str(getattr(v, '__module__', '')).startswith(('jaeger_client', 'crossdock')):
                    continue
                if id(v) in seen:
                    continue
                seen.add(id(v))
                for cn, cv in list(vars(v).items()):
                    if cn.startswith('__') and cn not in ('__init__', '__new__'):
                        continue
                    if not isinstance(cv, (property, staticmethod, classmethod)) and not callable(cv) \
                            and type(cv).__name__ not in ('member_descriptor', 'getset_descriptor'):
                        _saved_attrs.append((v, cn, cv))
                    container(cv)
                    func(cv)
            else:
                container(v)
                if callable(v) and str(getattr(v, '__module__', '')).startswith(('jaeger_client', 'crossdock')):
                    func(v)


def reset_state():
    clock.reset()
    rand.reset()
    for owner, name, value in _saved_attrs:
        if owner.__dict__.get(name) is not value:
            setattr(owner, name, value)
    for c, copy in _saved:
        if c == copy and len(c) == len(copy):
            continue
        if isinstance(c, (dict, set)):
            c.clear()
            c.update(copy)
        else:
            c[:] = copy
    for f in _caches:
        f.cache_clear()
    import opentracing
    opentracing.set_global_tracer(opentracing.Tracer())
    opentracing.is_tracer_registered = False
