"""
A network stand-in: sockets whose connecting, accepting, reading and writing is decided by the harness.

Has to be imported before the code under test, since that imports the socket type by name. While no `Net` is active, the sockets are the real ones.
"""
import errno, socket as module_socket
from selectors import EVENT_READ, EVENT_WRITE

RealSocket = module_socket.socket
NET = None


class FakeSocket(RealSocket):
    """
    States: new, bound, listening, connecting, connected, failed, closed
    """
    net = None

    def __init__(self, family = -1, type = -1, proto = -1, fileno = None):
        net = NET
        if net is None or fileno is not None or family == -1:
            RealSocket.__init__(self, family, type, proto, fileno)
            return
        if family in net.unsupported:
            raise OSError(errno.EAFNOSUPPORT, 'Address family not supported by protocol')
        if net.socket_error is not None:
            raise net.socket_error
        # only to have a unique file descriptor
        RealSocket.__init__(self, module_socket.AF_UNIX, module_socket.SOCK_STREAM)
        self._setup(net, family, type, proto)

    def _setup(self, net, family, type, proto):
        self.net = net
        self.fake_family = family
        self.fake_type = type
        self.fake_proto = proto
        self.state = 'new'
        self.error = 0
        self.local = None
        self.remote = None
        self.incoming = []
        self.accepting = []
        self.sent = bytearray()
        self.datagrams = []
        self.room = 1 << 30
        self.shut = False
        self.options = []
        self.was_blocking = True
        self.number = self.fileno()
        net.sockets.append(self)
        net.by_fd[self.number] = self

    @property
    def family(self):
        if self.net is None:
            return RealSocket.family.fget(self)
        return self.fake_family

    @property
    def type(self):
        if self.net is None:
            return RealSocket.type.fget(self)
        return self.fake_type

    @property
    def proto(self):
        if self.net is None:
            return RealSocket.proto.__get__(self)
        return self.fake_proto

    def setblocking(self, value):
        if self.net is None:
            return RealSocket.setblocking(self, value)
        self._check('setblocking')
        self.was_blocking = value

    def gettimeout(self):
        if self.net is None:
            return RealSocket.gettimeout(self)
        return None if self.was_blocking else 0.0

    def _check(self, what):
        if self.state == 'closed':
            self.net.problems.append(f'{what} on a closed socket')
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def _check_blocking(self, what):
        self._check(what)
        if self.was_blocking:
            self.net.problems.append(f'{what} would block the loop')

    def setsockopt(self, *parameters):
        if self.net is None:
            return RealSocket.setsockopt(self, *parameters)
        self._check('setsockopt')
        self.options.append(parameters)

    def getsockopt(self, level, option, *rest):
        if self.net is None:
            return RealSocket.getsockopt(self, level, option, *rest)
        self._check('getsockopt')
        if option == module_socket.SO_ERROR:
            error = self.error
            self.error = 0
            return error
        return 0

    def bind(self, address):
        if self.net is None:
            return RealSocket.bind(self, address)
        self._check('bind')
        self.net.calls.append(('bind', self, address))
        exception = self.net.on_bind(self, address)
        if exception is not None:
            raise exception
        self.local = address
        self.state = 'bound'

    def listen(self, backlog = 0):
        if self.net is None:
            return RealSocket.listen(self, backlog)
        self._check('listen')
        self.state = 'listening'

    def accept(self):
        if self.net is None:
            return RealSocket.accept(self)
        self._check_blocking('accept')
        if not self.accepting:
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        item = self.accepting[0]
        if isinstance(item, BaseException):
            if not self.net.sticky_accept_errors:
                del self.accepting[0]
            raise item
        del self.accepting[0]
        return item, item.remote

    def connect(self, address):
        if self.net is None:
            return RealSocket.connect(self, address)
        self._check_blocking('connect')
        self.net.calls.append(('connect', self, address))
        self.remote = address
        outcome = self.net.on_connect(self, address)
        if isinstance(outcome, BaseException):
            raise outcome
        if outcome == 'now':
            self.state = 'connected'
            return
        self.state = 'connecting'
        raise BlockingIOError(errno.EINPROGRESS, 'Operation now in progress')

    def getpeername(self):
        if self.net is None:
            return RealSocket.getpeername(self)
        if self.state != 'connected':
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        return self.remote

    def getsockname(self):
        if self.net is None:
            return RealSocket.getsockname(self)
        self._check('getsockname')
        return self.local or ('0.0.0.0', 0)

    def _take(self, what):
        self._check_blocking(what)
        if not self.incoming:
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        item = self.incoming[0]
        if isinstance(item, BaseException):
            del self.incoming[0]
            raise item
        return item

    def recv(self, amount, *flags):
        if self.net is None:
            return RealSocket.recv(self, amount, *flags)
        item = self._take('recv')
        if not item:
            return b''
        if len(item) > amount:
            self.incoming[0] = item[amount:]
            return item[:amount]
        del self.incoming[0]
        return item

    def recv_into(self, buffer, *rest):
        if self.net is None:
            return RealSocket.recv_into(self, buffer, *rest)
        view = memoryview(buffer).cast('B')
        data = self.recv(len(view))
        view[:len(data)] = data
        return len(data)

    def recvfrom(self, amount, *flags):
        if self.net is None:
            return RealSocket.recvfrom(self, amount, *flags)
        item = self._take('recvfrom')
        del self.incoming[0]
        data, address = item
        return data[:amount], address

    def recvfrom_into(self, buffer, amount = 0, *flags):
        if self.net is None:
            return RealSocket.recvfrom_into(self, buffer, amount, *flags)
        view = memoryview(buffer).cast('B')
        data, address = self.recvfrom(min(amount, len(view)) if amount else len(view))
        view[:len(data)] = data
        return len(data), address

    def send(self, data, *flags):
        if self.net is None:
            return RealSocket.send(self, data, *flags)
        return self._send((data,))

    def sendmsg(self, parts, *rest):
        if self.net is None:
            return RealSocket.sendmsg(self, parts, *rest)
        return self._send(parts)

    def _send(self, parts):
        self._check_blocking('send')
        if self.error:
            error = self.error
            self.error = 0
            raise OSError(error, 'failed')
        if self.fake_type == module_socket.SOCK_DGRAM:
            return self._send_datagram(b''.join(bytes(part) for part in parts), self.remote, 'send')
        if self.state != 'connected':
            self.net.problems.append(f'send while {self.state}')
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        if self.shut:
            self.net.problems.append('send after shut down')
        if self.room <= 0:
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        total = 0
        for part in parts:
            part = bytes(part)[:self.room]
            self.room -= len(part)
            self.sent += part
            total += len(part)
        return total

    def sendto(self, data, *parameters):
        if self.net is None:
            return RealSocket.sendto(self, data, *parameters)
        self._check_blocking('sendto')
        return self._send_datagram(bytes(data), parameters[-1], 'sendto')

    def _send_datagram(self, data, address, how):
        exception = self.net.on_datagram(self, data, address, how)
        if exception is not None:
            raise exception
        self.datagrams.append((data, address, how))
        return len(data)

    def shutdown(self, how):
        if self.net is None:
            return RealSocket.shutdown(self, how)
        self._check('shutdown')
        self.shut = True

    def close(self):
        if self.net is not None and self.state != 'closed':
            self.state = 'closed'
            self.net.by_fd.pop(self.number, None)
        RealSocket.close(self)

    def __repr__(self):
        if self.net is None:
            return RealSocket.__repr__(self)
        return f'<FakeSocket {self.state} local = {self.local} remote = {self.remote}>'

    def readiness(self):
        mask = 0
        state = self.state
        if state == 'listening':
            if self.accepting:
                mask |= EVENT_READ
        elif state == 'failed':
            mask |= EVENT_READ | EVENT_WRITE
        else:
            if self.incoming:
                mask |= EVENT_READ
            if self.fake_type == module_socket.SOCK_DGRAM:
                if self.net.datagram_writable:
                    mask |= EVENT_WRITE
            elif state == 'connected' and self.room > 0:
                mask |= EVENT_WRITE
        return mask


module_socket.socket = FakeSocket


class Net:
    """One world; `enter(env)` makes it the actual one, `leave()` checks nothing of it, only ends it."""
    def __init__(self):
        self.sockets = []
        self.by_fd = {}
        self.calls = []
        self.problems = []
        self.unsupported = set()
        self.socket_error = None
        self.sticky_accept_errors = False
        self.datagram_writable = True
        self.env = None

    # decided by the harness

    def on_bind(self, socket, address):
        return None

    def on_connect(self, socket, address):
        return 'now'

    def on_datagram(self, socket, data, address, how):
        return None

    # harness side

    def enter(self, env):
        global NET
        NET = self
        self.env = env
        env.io = self.select
        return self

    def leave(self):
        global NET
        NET = None
        self.env.io = None
        for socket in self.sockets:
            if socket.state != 'closed':
                try:
                    self.env.selector.unregister(socket.number)
                except (KeyError, ValueError):
                    pass
                socket.close()

    def select(self, env, timeout):
        events = []
        for key in list(env.selector.get_map().values()):
            socket = self.by_fd.get(key.fd)
            if socket is None:
                continue
            mask = socket.readiness() & key.events
            if mask:
                events.append((key, mask))
        return events

    def finish(self, socket, error = 0):
        """The connecting of the socket ends."""
        if socket.state != 'connecting':
            return
        if error:
            socket.error = error
            socket.state = 'failed'
        else:
            socket.state = 'connected'

    def create(self, family = module_socket.AF_INET, type = module_socket.SOCK_STREAM, state = 'connected', remote = ('10.9.9.9', 9)):
        """Creates a socket which is not made by the code under test."""
        socket = FakeSocket(family, type, 0)
        socket.state = state
        socket.remote = remote
        socket.was_blocking = False
        return socket

    def open_sockets(self):
        return [socket for socket in self.sockets if socket.state != 'closed']

    def registered(self):
        """Descriptors of our sockets (open or closed) still known by the selector."""
        numbers = {socket.number: socket for socket in self.sockets}
        return [numbers[key.fd] for key in self.env.selector.get_map().values() if key.fd in numbers]


def patch_everywhere(original, replacement):
    """Replaces every module level reference of the code under test to a function. Returns a function undoing it."""
    import sys
    places = []
    for name, module in list(sys.modules.items()):
        if not name.startswith('scarletio'):
            continue
        for key, value in list(vars(module).items()):
            if value is original:
                places.append((module, key))
                setattr(module, key, replacement)

    def undo():
        for module, key in places:
            setattr(module, key, original)
    return undo
