"""In-memory network: UDP datagrams, name resolution and the agent's HTTP endpoints."""
import socket as _socket

real_socket_class = _socket.socket
real_getaddrinfo = _socket.getaddrinfo


class Net(object):
    """What the outside world answers.  One per execution; scenarios override the hooks."""

    def __init__(self):
        self.packets = []          # (bytes, addr) that left the machine
        self.attempts = []         # every sendto, delivered or not
        self.open_sockets = 0
        self.sockets = []
        self.http_log = []         # urls
        self.on_send = None        # f(data, addr) -> None to deliver, or raises
        self.on_http = None        # f(url, kwargs) -> Future
        self.on_resolve = None     # f(host, port) -> addrinfo list, or raises
        self.on_hostname = None
        self.on_gethostbyname = None
        self.on_connect = None
        self.on_socket = None
        self.on_ioctl = None
        self.max_datagram = 65507

    def send(self, data, addr):
        data = bytes(data)
        self.attempts.append((data, addr))
        if self.on_send is not None:
            self.on_send(data, addr)
        if len(data) > self.max_datagram:
            raise OSError(90, 'Message too long')
        self.packets.append((data, addr))
        return len(data)


current = Net()


class FakeSocket(object):
    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        if current.on_socket is not None:
            current.on_socket(family, type, proto)
        self.family, self.type, self.proto = family, type, proto
        self.blocking = True
        self.closed = False
        self.peer = None
        current.open_sockets += 1
        current.sockets.append(self)

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, t):
        self.blocking = t != 0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 65536

    def bind(self, addr):
        pass

    def connect(self, addr):
        if current.on_connect is not None:
            current.on_connect(addr)
        self.peer = addr

    def getsockname(self):
        return ('10.1.2.3', 5555)

    def sendto(self, data, *a):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        return current.send(data, a[-1])

    def send(self, data, *a):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        return current.send(data, self.peer)

    def sendall(self, data, *a):
        self.send(data)

    def fileno(self):
        return -1 if self.closed else 999

    def close(self):
        if not self.closed:
            self.closed = True
            current.open_sockets -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    if current.on_resolve is not None:
        return current.on_resolve(host, port)
    if isinstance(host, str) and ':' in host:
        return [(_socket.AF_INET6, _socket.SOCK_DGRAM, 17, '', (host, int(port), 0, 0))]
    return [(_socket.AF_INET, _socket.SOCK_DGRAM, 17, '', ('127.0.0.1', int(port)))]


def _gethostname():
    if current.on_hostname is not None:
        return current.on_hostname()
    return 'mc-host'


def _gethostbyname(name):
    if current.on_gethostbyname is not None:
        return current.on_gethostbyname(name)
    return '10.9.8.7'


class FakeHTTPClient(object):
    """Stands in for tornado.httpclient.AsyncHTTPClient."""

    def __init__(self, *a, **kw):
        self.defaults = dict(kw.get('defaults') or {})

    def fetch(self, request, *a, **kw):
        url = getattr(request, 'url', request)
        current.http_log.append(url)
        if current.on_http is None:
            raise AssertionError('unexpected HTTP request %s' % url)
        return current.on_http(url, dict(self.defaults, **kw))

    def close(self):
        pass


class FakeResponse(object):
    def __init__(self, body, code=200):
        self.body = body
        self.code = code


class FakeThreadLoop(object):
    """Stands in for threadloop.ThreadLoop: 'another thread' that runs the world's loop."""

    def __init__(self, io_loop=None):
        from . import world
        self._io_loop = io_loop
        self._started = False
        self._world = world.current()

    def is_ready(self):
        return self._started

    def start(self):
        self._started = True
        self._world.thread_loops += 1
        if self._io_loop is None:
            self._io_loop = self._world.io_loop

    def stop(self):
        self._started = False


def install():
    _socket.socket = FakeSocket
    _socket.getaddrinfo = _getaddrinfo
    _socket.gethostname = _gethostname
    _socket.gethostbyname = _gethostbyname
    _socket.getfqdn = lambda name='': _gethostname()
    import fcntl

    def ioctl(fd, req, arg=0, mutate=True):
        if current.on_ioctl is not None:
            return current.on_ioctl(fd, req, arg)
        raise OSError(19, 'No such device')
    fcntl.ioctl = ioctl


def install_http():
    import tornado.httpclient
    import threadloop
    import threadloop.threadloop
    tornado.httpclient.AsyncHTTPClient = FakeHTTPClient
    threadloop.ThreadLoop = FakeThreadLoop
    threadloop.threadloop.ThreadLoop = FakeThreadLoop
