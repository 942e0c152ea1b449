"""Stateless exhaustive exploration of everything a scenario can choose.

A scenario is a function body(x, **params).  Every nondeterministic decision - which thread runs,
which fault the network answers with, which operation comes next - is x.choose(n, cost=c): it takes
alternative 0 by default, alternatives 1..n-1 cost c "deviations" each.  The explorer enumerates
every sequence of choices whose total cost is within the scenario's bound, by depth-first replay of
prefixes, spread over all cores.  A prefix is stored as its deviations only: ((index, alt, n), ...);
finding another number of alternatives at a recorded index is a hard error.
"""
import collections
import heapq
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
import _thread

real_monotonic = time.monotonic
real_sleep = time.sleep
EXEC_LIMIT = float(os.environ.get('MC_EXEC_LIMIT', '60'))     # CPU seconds of one execution ...
BLOCKED_LIMIT = 5 * EXEC_LIMIT      # ... and wall-clock seconds: the machine may be busy
real_process_time = time.process_time


def _text(e):
    try:
        return str(e)
    except Exception:
        return 'unprintable'


class Violation(BaseException):
    """The property does not hold on this execution."""

    def __init__(self, msg, **detail):
        BaseException.__init__(self, msg)
        self.msg = msg
        self.detail = detail


class HarnessError(BaseException):
    """The check itself is broken."""


class Diverged(HarnessError):
    pass


class X(object):
    """The choices of one execution."""

    def __init__(self, devs=()):
        self.devs = {i: (a, n) for i, a, n in devs}
        self.last = devs[-1][0] if devs else -1
        self.trace = []          # (n, cost)
        self.steps = 0
        self.states = []
        self.notes = []
        self.outcome_key = None
        self.cases = 0
        self.known_hits = []

    def known(self, key, msg, **detail):
        """A failure that may be listed in known_findings.json; otherwise a violation."""
        if key in known_keys():
            self.known_hits.append((key, msg))
        else:
            raise Violation(msg, **detail)

    def choose(self, n, cost=0):
        i = len(self.trace)
        if n < 1:
            raise HarnessError('choose(0)')
        d = self.devs.get(i)
        alt = 0
        if d is not None:
            alt = d[0]
            if d[1] != n:
                raise Diverged('replay diverged at choice %d: %d alternatives, recorded %d'
                               % (i, n, d[1]))
        self.trace.append((n, cost))
        return alt

    def pick(self, seq, cost=0):
        return seq[self.choose(len(seq), cost)]

    def state(self, key):
        """Record a canonical observed state (evidence only)."""
        self.states.append(hash(key))
        self.steps += 1

    def outcome(self, key):
        self.outcome_key = key

    def case(self, n=1):
        """n inputs judged inside one execution."""
        self.cases += n

    def note(self, s):
        self.notes.append(str(s))

    def fail(self, msg, **detail):
        raise Violation(msg, **detail)

    def check(self, cond, msg, **detail):
        if not cond:
            raise Violation(msg, **detail)

    def eq(self, got, want, what, **detail):
        if got != want:
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)), **detail)


def short(v, n=400):
    r = repr(v)
    return r if len(r) <= n else r[:n] + '...'


_known = None


def known_keys():
    global _known
    if _known is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                         'known_findings.json')
        _known = set()
        if os.path.exists(p):
            _known = {f['key'] for f in json.load(open(p)).get('findings', [])}
    return _known


class Scenario(object):
    def __init__(self, name, body, bound=0, params=None, sched=False):
        self.name, self.body, self.bound, self.params = name, body, bound, params or {}
        self.sched = sched


def _in_repo(tb_text):
    from . import env
    return env.PKG in tb_text or (env.REPO + os.sep + 'crossdock') in tb_text


def run_once(sc, devs):
    """One execution.  -> (X, violation dict or None, error text or None)"""
    from . import env, world
    x = X(devs)
    env.reset_state()
    world.begin(x)
    viol = err = None
    try:
        sc.body(x, **sc.params)
        world.end_checks(x)
    except Violation as e:
        viol = {'msg': e.msg, 'detail': e.detail, 'tb': traceback.format_exc()[-3000:]}
    except HarnessError:
        err = traceback.format_exc()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:   # noqa
        tb = traceback.format_exc()
        if _in_repo(tb):
            viol = {'msg': 'unexpected %s: %s' % (type(e).__name__, _text(e)), 'detail': {}, 'tb': tb[-3000:]}
        elif isinstance(e, (AttributeError, TypeError, LookupError, ValueError)) and (os.sep + 'checks' + os.sep) in tb:
            # the check runs to its end on the unchanged tree: what it was given here is of a kind no oracle allows
            viol = {'msg': 'the result cannot be judged, %s: %s' % (type(e).__name__, _text(e)), 'detail': {}, 'tb': tb[-3000:]}
        else:
            err = tb
    finally:
        world.finish()
    if err is None and x.last >= len(x.trace):
        err = 'replay diverged: execution ended before choice %d' % x.last
    if viol is not None:
        viol['notes'] = x.notes[-60:]
    return x, viol, err


# --- workers ------------------------------------------------------------------------------------
class Worker(object):
    def __init__(self, scenarios, wfd, rfd):
        self.scenarios, self.wfd, self.rfd = scenarios, wfd, rfd
        self.seen = [set() for _ in scenarios]
        self.started = None
        self.current = None
        self.main_ident = _thread.get_ident()

    def send(self, obj):
        b = pickle.dumps(obj, protocol=4)
        _write_all(self.wfd, struct.pack('>Q', len(b)) + b)

    def watchdog(self):
        while True:
            real_sleep(1.0)
            st = self.started
            if st is not None and (real_process_time() - st[1] > EXEC_LIMIT or real_monotonic() - st[0] > BLOCKED_LIMIT):
                frames = sys._current_frames()
                text = []
                for ident, f in frames.items():
                    text.append(''.join(traceback.format_stack(f)[-12:]))
                self.send(('hang', self.current, text))
                os._exit(0)

    def loop(self):
        import gc
        from . import env
        env.bootstrap()
        _thread.start_new_thread(self.watchdog, ())
        gc.disable()
        n = 0
        while True:
            msg = _read_msg(self.rfd)
            if msg is None:
                os._exit(0)
            si, tasks, level_bound, slice_s, max_keep = msg
            sc = self.scenarios[si]
            if sc.sched:
                from . import sched
                sched.setup(env.PKG)
            out = {'si': si, 'execs': 0, 'steps': 0, 'choices': 0, 'violations': [], 'errors': [],
                   'left': [], 'deeper': [], 'states': [], 'outcomes': collections.Counter(),
                   'cases': 0, 'sample': None, 'maxlen': 0, 'known': {}}
            stack = list(tasks)
            t_end = real_monotonic() + slice_s
            while stack:
                if real_monotonic() > t_end:
                    break
                devs, cost = stack.pop()
                self.current = (si, devs)
                self.started = (real_monotonic(), real_process_time())
                x, viol, err = run_once(sc, devs)
                if real_process_time() - self.started[1] > 5 and os.environ.get('MC_SLOW'):
                    sys.__stderr__.write('SLOW %.1f s: %s %r\n' % (real_process_time() - self.started[1], sc.name, devs))
                self.started = None
                n += 1
                if n % 500 == 0:
                    gc.collect()
                out['execs'] += 1
                out['steps'] += x.steps
                out['choices'] += len(x.trace)
                out['cases'] += x.cases
                for key, m in x.known_hits:
                    out['known'].setdefault(key, m)
                out['maxlen'] = max(out['maxlen'], len(x.trace))
                if x.outcome_key is not None:
                    out['outcomes'][repr(x.outcome_key)[:200]] += 1
                seen = self.seen[si]
                for h in x.states:
                    if h not in seen:
                        seen.add(h)
                        out['states'].append(h)
                if err is not None:
                    out['errors'].append((devs, err))
                    if len(out['errors']) > 3:
                        break
                    continue
                if viol is not None:
                    # replay twice before believing it
                    again = [run_once(sc, devs)[1] for _ in range(2)]
                    same = [a for a in again if a is not None]
                    out['violations'].append((devs, viol, len(same)))
                    if len(out['violations']) >= 3:
                        break
                    continue
                if out['sample'] is None and x.notes:
                    out['sample'] = {'scenario': sc.name, 'deviations': [list(d) for d in devs],
                                     'notes': x.notes[:30]}
                start = x.last + 1
                tr = x.trace
                for i in range(len(tr) - 1, start - 1, -1):
                    k, c = tr[i]
                    if k > 1 and cost + c <= sc.bound:
                        nc = cost + c
                        for alt in range(k - 1, 0, -1):
                            child = (devs + ((i, alt, k),), nc)
                            if nc > cost and nc < sc.bound:
                                out['deeper'].append(child)
                            else:
                                stack.append(child)
                if len(stack) > max_keep:
                    break
            out['left'] = stack
            self.send(('done', out))


def _write_all(fd, b):
    mv = memoryview(b)
    while mv:
        k = os.write(fd, mv)
        mv = mv[k:]


def _read_n(fd, n):
    parts = []
    while n:
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            return None
        parts.append(b)
        n -= len(b)
    return b''.join(parts)


def _read_msg(fd):
    h = _read_n(fd, 8)
    if h is None:
        return None
    b = _read_n(fd, struct.unpack('>Q', h)[0])
    return None if b is None else pickle.loads(b)


class Proc(object):
    def __init__(self, scenarios):
        r1, w1 = os.pipe()      # parent -> child
        r2, w2 = os.pipe()      # child -> parent
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for p in Explorer.procs:
                    os.close(p.w)
                    os.close(p.r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                Worker(scenarios, w2, r1).loop()
            except BaseException:   # noqa
                try:
                    _write_msg(w2, ('crash', traceback.format_exc()))
                finally:
                    os._exit(3)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.busy = None

    def give(self, msg):
        self.busy = msg
        b = pickle.dumps(msg, protocol=4)
        _write_all(self.w, struct.pack('>Q', len(b)) + b)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.w)
        os.close(self.r)


def _write_msg(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    _write_all(fd, struct.pack('>Q', len(b)) + b)


class Result(object):
    def __init__(self):
        self.execs = self.steps = self.choices = self.cases = 0
        self.states = 0
        self.outcomes = {}
        self.violations = []
        self.errors = []
        self.samples = []
        self.capped = False
        self.per_scenario = {}
        self.known = {}


class Explorer(object):
    procs = []

    def __init__(self, scenarios, time_cap, nproc=None, max_violations=3, log=None):
        self.scenarios = scenarios
        self.time_cap = time_cap
        self.nproc = nproc or int(os.environ.get('MC_PROCS', 0)) or os.cpu_count() or 4
        self.max_violations = max_violations
        self.log = log or (lambda s: None)

    def run(self):
        scs = self.scenarios
        res = Result()
        for sc in scs:
            res.per_scenario[sc.name] = {'executions': 0, 'bound': sc.bound, 'completed_bound': -1,
                                         'pending': 0, 'choice_points': 0, 'states': 0, 'cases': 0,
                                         'max_choices': 0}
        # queues[level][scenario] -> deque of (devs, cost)
        maxb = max([sc.bound for sc in scs] or [0])
        levels = [[collections.deque() for _ in scs] for _ in range(maxb + 1)]
        for i in range(len(scs)):
            levels[0][i].append(((), 0))
        states = [set() for _ in scs]
        outcomes = [collections.Counter() for _ in scs]
        n = min(self.nproc, max(1, self.nproc))
        Explorer.procs = []
        for _ in range(n):
            Explorer.procs.append(Proc(scs))
        procs = Explorer.procs
        t0 = real_monotonic()
        bad_scen = collections.Counter()
        level = 0
        rr = 0
        try:
            while True:
                # dispatch
                stop = real_monotonic() - t0 > self.time_cap
                if stop:
                    res.capped = True
                busy = [p for p in procs if p.busy is not None]
                if stop and not busy:
                    break
                idle = [p for p in procs if p.busy is None]
                if not stop:
                    while idle:
                        # lowest cost first; scenarios in turn
                        q = None
                        for lv in range(len(levels)):
                            cand = [i for i in range(len(scs))
                                    if levels[lv][i] and bad_scen[i] < self.max_violations]
                            if cand:
                                rr += 1
                                i = cand[rr % len(cand)]
                                q = levels[lv][i]
                                break
                        if q is None:
                            break
                        k = max(1, min(64, len(q) // (2 * n)))
                        chunk = [q.popleft() for _ in range(min(k, len(q)))]
                        p = idle.pop()
                        small = len(q) < 4 * n
                        p.give((i, chunk, lv, 0.15 if small else 0.6, 400 if small else 20000))
                busy = [p for p in procs if p.busy is not None]
                if not busy:
                    if not any(q for lv in levels for i, q in enumerate(lv)
                               if bad_scen[i] < self.max_violations):
                        break
                    continue
                ready, _, _ = select.select([p.r for p in busy], [], [], 1.0)
                for p in busy:
                    if p.r not in ready:
                        continue
                    msg = _read_msg(p.r)
                    if msg is None or msg[0] in ('crash', 'hang'):
                        self._lost(p, msg, res, bad_scen)
                        continue
                    given = p.busy
                    p.busy = None
                    out = msg[1]
                    si = out['si']
                    ps = res.per_scenario[scs[si].name]
                    ps['executions'] += out['execs']
                    ps['choice_points'] += out['choices']
                    ps['cases'] += out['cases']
                    ps['max_choices'] = max(ps['max_choices'], out['maxlen'])
                    res.execs += out['execs']
                    res.steps += out['steps']
                    res.choices += out['choices']
                    res.cases += out['cases']
                    states[si].update(out['states'])
                    outcomes[si].update(out['outcomes'])
                    for key, m in out['known'].items():
                        res.known.setdefault(key, m)
                    if out['sample'] and len(res.samples) < 12 and \
                            sum(1 for s in res.samples if s['scenario'] == scs[si].name) < 2:
                        res.samples.append(out['sample'])
                    for devs, err in out['errors']:
                        res.errors.append((scs[si].name, devs, err))
                    for devs, viol, same in out['violations']:
                        bad_scen[si] += 1
                        res.violations.append((scs[si].name, devs, viol, same))
                    for d in out['left']:
                        levels[d[1]][si].append(d)
                    for d in out['deeper']:
                        levels[d[1]][si].append(d)
                if len(res.errors) > 20 or len(res.violations) >= 12:
                    break
        finally:
            for p in procs:
                p.kill()
            Explorer.procs = []
        for i, sc in enumerate(scs):
            ps = res.per_scenario[sc.name]
            ps['states'] = len(states[i])
            ps['outcomes'] = len(outcomes[i])
            pend = [lv for lv in range(len(levels)) if levels[lv][i]]
            if bad_scen[i]:
                ps['completed_bound'] = None
            elif pend:
                ps['completed_bound'] = pend[0] - 1
            else:
                ps['completed_bound'] = sc.bound
            ps['pending'] = sum(len(lv[i]) for lv in levels)
            res.states += len(states[i])
        res.outcomes = {sc.name: dict(outcomes[i].most_common(8)) for i, sc in enumerate(scs)
                        if outcomes[i]}
        res.wall = real_monotonic() - t0
        return res

    def _lost(self, p, msg, res, bad_scen):
        given = p.busy
        p.busy = None
        i = Explorer.procs.index(p)
        if msg is not None and msg[0] == 'hang':
            si, devs = msg[1]
            text = '\n----\n'.join(msg[2])
            if _in_repo(text):
                res.violations.append((self.scenarios[si].name, devs, {
                    'msg': 'the call does not return within %d s' % EXEC_LIMIT, 'detail': {},
                    'tb': text[-6000:], 'notes': []}, 2))
                bad_scen[si] += 1
            else:
                res.errors.append((self.scenarios[si].name, devs, 'harness hang:\n' + text))
            bad_scen[si] += self.max_violations
        else:
            res.errors.append(('worker', given[1][:1] if given else (),
                               msg[1] if msg else 'worker died'))
        p.kill()
        del Explorer.procs[i]
        if sum(1 for e in res.errors if e[0] == 'worker') < 4:
            Explorer.procs.append(Proc(self.scenarios))
