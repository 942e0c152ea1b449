"""G03: a tracer can be built whatever the resolver, the interfaces and the host name lookup do."""
import errno
import socket
import sys
from mc import env, net
from mc.lib import *

RULE = ('every combination of answers of gethostname, gethostbyname, getaddrinfo, the interface ioctl and connect (results, odd results '
        'and every error they may raise) x tags given by the application; the tracer, its tags and a span it reports are checked; '
        'distinct by the combination')
ASSUMPTIONS = ['sockets can be created', 'what the ip tag says when no address can be determined is unspecified']
HOSTNAME = {'ok': 'box', 'empty': '', 'long': 'h' * 80, 'unicode': u'b\u00f6x', 'dots': 'a..b', 'oserror': OSError(1, 'no'), 'localhost': 'localhost'}
LOOKUP = {'ok': '192.0.2.7', 'loop': '127.0.0.1', 'loop2': '127.0.1.1', 'gai': socket.gaierror(-2, 'unknown'), 'herror': socket.herror(1, 'x'),
          'unicode': UnicodeError('label too long'), 'timeout': socket.timeout('timed out'), 'oserror': OSError(errno.EIO, 'io'), 'zero': '0.0.0.0',
          'odd': 'weird', 'v6': '::1', 'empty': ''}
LOCAL = {'ok': '127.0.0.1', 'gai': socket.gaierror(-2, 'unknown'), 'oserror': OSError(errno.EIO, 'io'), 'odd': '192.0.2.9',
         'timeout': socket.timeout('t')}
IOCTL = {'none': {}, 'eth0': {b'eth0': '192.0.2.11'}, 'en1': {b'en1': '192.0.2.12'}, 'wlan2': {b'wlan2': '192.0.2.13'},
         'two': {b'eth1': '192.0.2.14', b'wlan0': '192.0.2.15'}, 'short': {b'eth0': None, b'eth2': '192.0.2.16'}, 'no-fcntl': None,
         'perm': 'perm'}
CONNECT = {'ok': None, 'unreach': OSError(errno.ENETUNREACH, 'unreachable'), 'timeout': socket.timeout('t'), 'perm': PermissionError(1, 'no')}
V4 = (socket.AF_INET, socket.SOCK_DGRAM, 17, '', ('192.0.2.99', 6831))
V6 = (socket.AF_INET6, socket.SOCK_DGRAM, 17, '', ('2001:db8::1', 6831, 0, 0))
RESOLVE = {'v4': [V4], 'v6': [V6], 'both': [V6, V4], 'none': [], 'gai': socket.gaierror(-2, 'unknown'), 'again': socket.gaierror(-3, 'again'),
           'herror': socket.herror(1, 'x'), 'oserror': OSError(errno.EIO, 'io'), 'timeout': socket.timeout('t'), 'unicode': UnicodeError('label too long')}
TAGS = {'none': None, 'ip': {'ip': '198.51.100.1'}, 'hostname': {'hostname': 'mine'}, 'both': {'ip': '198.51.100.1', 'hostname': 'mine'},
        'null': {'ip': None, 'hostname': None}, 'blank': {'ip': '', 'hostname': ''}}
BOUNDS = '%d x %d x %d x %d x %d x %d x %d combinations, one at a time beyond three groups in quick' % tuple(
    len(d) for d in (HOSTNAME, LOOKUP, LOCAL, IOCTL, CONNECT, RESOLVE, TAGS))


def give(v):
    if isinstance(v, BaseException):
        raise v
    return v


class Env(object):
    def __init__(self, x, host='ok', lookup='ok', local='ok', ioctl='none', connect='ok', resolve='v4'):
        self.x = x
        n = x.world.net
        self.hn, self.lk, self.lc, self.io, self.cn, self.rs = HOSTNAME[host], LOOKUP[lookup], LOCAL[local], IOCTL[ioctl], CONNECT[connect], RESOLVE[resolve]
        self.probed = set()
        n.on_hostname = lambda: give(self.hn)
        n.on_gethostbyname = lambda name: give(self.lc if name == 'localhost' else self.lk)
        n.on_resolve = lambda h, p: give(self.rs)
        n.on_ioctl = self.ioctl
        n.on_connect = lambda a: give(self.cn)
        self.fcntl = sys.modules.get('fcntl')
        if self.io is None:
            sys.modules['fcntl'] = None

    def ioctl(self, fd, req, arg):
        name = arg.rstrip(b'\0')
        self.probed.add(name)
        if self.io == 'perm':
            raise PermissionError(1, 'no')
        if name not in self.io:
            raise OSError(errno.ENODEV, 'no such device')
        a = self.io[name]
        if a is None:
            return b'\1' * 8
        return b'\0' * 20 + socket.inet_aton(a) + b'\0' * 232

    def done(self):
        sys.modules['fcntl'] = self.fcntl

    def ips(self):
        """The addresses the ip tag may have; None if none can be determined."""
        bad = isinstance(self.hn, BaseException)
        first = self.lc if self.hn == 'localhost' else self.lk
        if first in ('weird', '::1', ''):
            return None     # not an address
        if not bad and not isinstance(first, BaseException) and not first.startswith('127.'):
            return {first}
        out = set()
        if not isinstance(self.lc, BaseException) and not self.lc.startswith('127.'):
            out.add(self.lc)
        ifs = {v for v in self.io.values() if v} if isinstance(self.io, dict) else set()
        if ifs:
            return out | ifs
        if out:     # localhost as an address of this machine is good for nothing else
            return out | ({'10.1.2.3'} if self.cn is None else {None, 'None'})
        if self.cn is None:
            return {'10.1.2.3'}
        return None


def run(x, tags, how, **kw):
    e = Env(x, **kw)
    what = ', '.join('%s: %s' % i for i in sorted(kw.items())) + ', tags %s' % tags
    w = x.world
    given = None if TAGS[tags] is None else dict(TAGS[tags])
    try:
        try:
            if how == 'config':
                from jaeger_client import Config
                c = {'sampler': {'type': 'const', 'param': 1}}
                if given is not None:
                    c['tags'] = given
                tr = Config(c, service_name='svc', metrics_factory=w.metrics.factory()).new_tracer(w.io_loop)
            else:
                tr = tracer(x, reporter(x), tags=given)
        except Exception as ex:
            x.fail('%s: no tracer: %s: %s' % (what, type(ex).__name__, ex))
    finally:
        e.done()
    w.run_ready()
    with tr.start_active_span('op') as sc:
        tr.start_span('child').finish()
    f = tr.close()
    for _ in range(4):
        w.advance(1)
    x.check(f.done() and f.exception() is None, '%s: close() does not complete' % what)
    bs = batches(x)
    x.eq(sorted(ops(bs)), ['child', 'op'], '%s: spans received' % what)
    got = dict((t[0], t[2]) for t in bs[0]['tags'])
    given = TAGS[tags] or {}
    if given.get('hostname') is not None:
        x.eq(got.get('hostname'), given['hostname'], '%s: hostname' % what)
    elif not isinstance(e.hn, BaseException):
        x.eq(got.get('hostname'), e.hn, '%s: hostname' % what)
    else:
        x.check(got.get('hostname') in (None, 'None', ''), '%s: hostname %r' % (what, got.get('hostname')))
    ips = e.ips()
    if given.get('ip') is not None:
        x.eq(got.get('ip'), given['ip'], '%s: ip' % what)
    elif ips is not None:
        x.check(got.get('ip') in ips, '%s: ip %r, could be %r' % (what, got.get('ip'), sorted(map(str, ips))))
    x.check('jaeger.version' in got, '%s: no version' % what)
    x.state((tuple(sorted(kw.items())), tags, how))
    x.outcome((got.get('ip'), got.get('hostname')))


def ip(x):
    """Everything that decides the ip tag."""
    run(x, 'none', x.pick(['config', 'tracer']), host=x.pick(sorted(HOSTNAME)), lookup=x.pick(sorted(LOOKUP)), local=x.pick(sorted(LOCAL)),
        ioctl=x.pick(sorted(IOCTL)), connect=x.pick(sorted(CONNECT)))


def tags(x):
    run(x, x.pick(sorted(TAGS)), x.pick(['config', 'tracer']), host=x.pick(sorted(HOSTNAME)), lookup=x.pick(sorted(LOOKUP)),
        ioctl=x.pick(['none', 'eth0', 'no-fcntl']), connect=x.pick(['ok', 'unreach']), local=x.pick(['ok', 'gai']))


def resolver(x):
    run(x, x.pick(['none', 'both']), x.pick(['config', 'tracer']), host=x.pick(['ok', 'oserror']), lookup=x.pick(['ok', 'gai', 'loop']),
        local=x.pick(['ok', 'timeout']), connect=x.pick(sorted(CONNECT)), resolve=x.pick(sorted(RESOLVE)), ioctl=x.pick(['none', 'wlan2']))


def everything(x):
    run(x, x.pick(sorted(TAGS)), x.pick(['config', 'tracer']), host=x.pick(sorted(HOSTNAME)), lookup=x.pick(sorted(LOOKUP)), local=x.pick(sorted(LOCAL)),
        ioctl=x.pick(sorted(IOCTL)), connect=x.pick(sorted(CONNECT)), resolve=x.pick(sorted(RESOLVE)))


def agent(x):
    """The agent refuses everything while the tracer is built and used."""
    from jaeger_client import Config
    w = x.world
    c = {}
    if x.choose(2):
        c['throttler'] = {}
    send = x.pick([None, OSError(errno.ECONNREFUSED, 'refused'), OSError(errno.EMSGSIZE, 'too long'), UnicodeError('x'), socket.gaierror(-2, 'x')])
    http = x.pick(['refused', 'raise', 'never', 'garbage'])
    resolve = x.pick(sorted(RESOLVE))
    w.net.on_resolve = lambda h, p: give(RESOLVE[resolve])

    def on_http(url, kw):
        if http == 'raise':
            raise OSError(113, 'no route')
        if http == 'never':
            return w.http_future()
        if http == 'garbage':
            return w.http_future(net.FakeResponse(b'\x00'))
        return w.http_future(exc=OSError(111, 'refused'))
    w.net.on_http = on_http
    if send is not None:
        def on_send(data, addr):
            raise send
        w.net.on_send = on_send
    tr = Config(c, service_name='svc', metrics_factory=w.metrics.factory()).new_tracer(w.io_loop)
    n = 0
    for i in range(3):
        w.run_ready()
        s = tr.start_span('a')
        s.set_tag('sampling.priority', 1)
        n += s.is_sampled()
        s.finish()
        w.advance(65)
    f = tr.close()
    w.advance(5)
    x.check(f.done() and f.exception() is None, 'close() does not complete')
    x.eq(w.metrics.get(OK), n if send is None else 0, 'sent')
    x.eq(w.metrics.get(ERR), 0 if send is None else n, 'failed')
    x.eq(n, 0 if c else 3, 'debug spans')
    x.state((bool(c), repr(send), http, resolve))


def flaky(x):
    """The host name can be determined at the first or the second attempt only."""
    w = x.world
    bad = x.pick([0, 1])
    calls = []

    def hostname():
        calls.append(1)
        if len(calls) - 1 == bad:
            raise OSError(1, 'x')
        return 'box'
    w.net.on_hostname = hostname
    tr = tracer(x, reporter(x))
    w.run_ready()
    tr.start_span('a').finish()
    w.advance(2)
    got = dict((t[0], t[2]) for t in batches(x)[0]['tags'])
    x.check(got.get('hostname') in (None, 'None', 'box'), 'hostname %r' % got.get('hostname'))


def scenarios(tier):
    out = [Scenario('ip', ip), Scenario('tags', tags), Scenario('resolver', resolver), Scenario('agent', agent), Scenario('flaky', flaky)]
    if tier == 'thorough':
        out.append(Scenario('everything', everything))
    return out
