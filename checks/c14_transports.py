"""
C14: stream and pipe transports: what is written goes out once, in order and completely, closing and aborting end the connection once.
"""
import gc, socket as module_socket
from itertools import product
from selectors import EVENT_READ, EVENT_WRITE

from mc import fakeos
from mc.base import Check, Violation
from mc.explore import Chooser
from mc.vloop import Env, callback_errors, drive, exception_of, quiet_stderr

FD = 100000


class Kernel:
    """The far side of one file descriptor."""
    mode = fakeos.FIFO

    def __init__(self, room, family = module_socket.AF_INET):
        self.room = room
        self.sent = bytearray()
        self.incoming = []
        self.error = None
        self.error_hit = None
        self.shut = 0
        self.closed = 0
        self.problems = []
        self.spurious_write = False
        self.spurious_read = False
        self.readable_end = False
        self.interrupt = False
        self.blocking = None
        self.family = family
        self.type = module_socket.SOCK_STREAM
        self.proto = module_socket.IPPROTO_TCP

    # common

    def _accept(self, parts):
        if self.closed:
            self.problems.append('written after it was closed')
            raise OSError(9, 'Bad file descriptor')
        if self.shut:
            self.problems.append('written after it was shut down')
        if self.error is not None:
            self.error_hit = self.error
            raise self.error
        if self.interrupt:
            self.interrupt = False
            raise InterruptedError()
        if self.room <= 0:
            raise BlockingIOError()
        total = 0
        for part in parts:
            part = bytes(part)[:self.room]
            self.room -= len(part)
            total += len(part)
            self.sent += part
            if self.room <= 0:
                break
        return total

    def _take(self, amount):
        if self.closed:
            self.problems.append('read after it was closed')
            raise OSError(9, 'Bad file descriptor')
        if self.incoming:
            item = self.incoming[0]
            if isinstance(item, BaseException):
                self.error_hit = item
                raise item
            if not item: # eof stays
                return b''
            del self.incoming[0]
            return item
        if self.error is not None:
            self.error_hit = self.error
            raise self.error
        raise BlockingIOError()

    def close(self):
        self.closed += 1

    # as file

    def fileno(self):
        return FD

    def read(self, amount):
        return self._take(amount)

    def write(self, data):
        return self._accept([data])

    # as socket

    def send(self, data):
        return self._accept([data])

    def sendmsg(self, parts, *rest):
        return self._accept(parts)

    def recv(self, amount):
        return self._take(amount)

    def shutdown(self, how):
        if self.closed:
            self.problems.append('shut down after it was closed')
        self.shut += 1

    def setsockopt(self, *rest):
        pass

    def getsockname(self):
        return ('127.0.0.1', 1)

    def getpeername(self):
        return ('127.0.0.1', 2)

    def setblocking(self, value):
        pass

    def gettimeout(self):
        return 0.0


class Server:
    def __init__(self):
        self.attached = 0
        self.detached = 0

    def _attach(self):
        self.attached += 1

    def _detach(self):
        self.detached += 1


_protocol_type = None


def protocol_type():
    global _protocol_type
    if _protocol_type is not None:
        return _protocol_type
    from scarletio.core.protocols_and_transports.abstract import AbstractProtocolBase

    class Recorder(AbstractProtocolBase):
        def __init__(self, case):
            self.case = case
            self.transport = None
            self.made = 0
            self.received = b''
            self.eof = 0
            self.lost = []
            self.paused = False
            self.problems = []

        def note(self, what):
            if not self.made:
                self.problems.append(f'{what} before connection made')
            if self.lost:
                self.problems.append(f'{what} after connection lost')

        def get_transport(self):
            return self.transport

        def connection_made(self, transport):
            self.made += 1
            if self.made > 1:
                self.problems.append('connection made twice')
            self.transport = transport
            self.case.transport = transport
            self.case.react('made')

        def data_received(self, data):
            self.note('data')
            case = self.case
            if case.reading_paused:
                self.problems.append('data received while reading was paused')
            if case.closing:
                self.problems.append('data received after closing')
            if self.eof:
                self.problems.append('data received after eof')
            self.received += data
            case.react('data')

        def eof_received(self):
            self.note('eof')
            self.eof += 1
            case = self.case
            if case.pipe:
                case.ask('peer')
            case.react('eof')
            if not case.keep_after_eof:
                case.ask('peer')
            return case.keep_after_eof

        def connection_lost(self, exception):
            self.note('connection lost')
            self.lost.append(exception)

        def pause_writing(self):
            self.note('pause')
            if self.paused:
                self.problems.append('paused twice')
            self.paused = True

        def resume_writing(self):
            self.note('resume')
            if not self.paused:
                self.problems.append('resumed twice')
            self.paused = False
            self.case.react('resume')

    _protocol_type = Recorder
    return Recorder


class Case:
    """One connection with its oracle."""
    pipe = None

    def __init__(self, env, flavor, path, kind):
        self.env = env
        self.flavor = flavor
        self.path = path
        self.kind = kind
        self.pipe = kind if kind in ('read_pipe', 'write_pipe') else None
        self.keep_after_eof = flavor.get('keep', False)
        self.kernel = Kernel(flavor.get('room', 4))
        self.transport = None
        self.server = Server()
        self.protocol = protocol_type()(self)
        self.written = bytearray()
        self.late = bytearray()
        self.counter = 0
        self.incoming_total = b''
        self.reading_paused = False
        self.closing = None
        self.lost_with = None
        self.eof_requested = False
        self.eof_at = None
        self.high = 65536
        self.low = 16384
        self.reacting = 0
        self.peer_end = False
        self.what = f'kind={kind} flavor={flavor} path={path}'

    def fail(self, message):
        raise Violation(
            f'{self.kind}:{sorted(self.flavor.items())}:{",".join(self.path)}', f'{message}; {self.what}', [self.kind, sorted(self.flavor.items()), list(self.path)]
        )

    def ask(self, how):
        if self.closing is None:
            self.closing = how

    def react(self, when):
        operation = self.flavor.get('on_' + when)
        if operation is None or self.reacting > 2:
            return
        self.reacting += 1
        self.perform(operation)

    def data(self, length):
        result = bytes((self.counter + index) % 251 for index in range(length))
        self.counter = (self.counter + length) % 251
        return result

    def write(self, parts):
        transport = self.transport
        data = b''.join(parts)
        ended = bool(self.protocol.lost)
        refuse = self.eof_requested and not self.pipe
        try:
            if len(parts) == 1:
                kind = len(data) % 3
                transport.write(data if kind else bytearray(data) if self.counter % 2 else memoryview(data))
            else:
                transport.writelines(parts)
        except RuntimeError:
            if not refuse and not self.may_refuse:
                self.fail('write raised RuntimeError')
            return
        if refuse and not ended:
            self.fail('write after write_eof did not raise')
        if ended or self.closing is not None:
            self.late += data
        else:
            self.written += data

    def perform(self, name):
        transport = self.transport
        kernel = self.kernel
        if name == 'write':
            self.write([self.data(3)])
        elif name == 'write_big':
            self.write([self.data(10)])
        elif name == 'write_lines':
            self.write([self.data(2), b'', self.data(1), self.data(4)])
        elif name == 'write_empty':
            self.write([b''])
        elif name == 'write_eof':
            if self.pipe:
                self.ask('close')
            elif self.closing is None:
                self.eof_requested = True
            else:
                self.may_refuse = True
            transport.write_eof()
        elif name == 'close':
            self.ask('close')
            transport.close()
        elif name in ('abort', 'abort_with'):
            exception = None if name == 'abort' else ConnectionAbortedError('test')
            if not self.protocol.lost and self.closing != 'abort':
                if not self.done_closing():
                    self.closing = 'abort'
                    self.lost_with = exception
            transport.abort(*(() if exception is None else (exception,)))
        elif name == 'pause':
            expected = not self.reading_paused and not self.closing
            result = transport.pause_reading()
            if self.kind != 'write_pipe':
                if expected and not result:
                    self.fail('pausing reading was refused')
                if result:
                    self.reading_paused = True
        elif name == 'resume':
            result = transport.resume_reading()
            if self.kind != 'write_pipe':
                if self.reading_paused and not self.closing and not result:
                    self.fail('resuming reading was refused')
                self.reading_paused = False
        elif name == 'limits':
            self.high, self.low = (2, 0) if self.high != 2 else (6, 3)
            self.limits_at = len(kernel.sent)
            transport.set_write_buffer_limits(high = self.high, low = self.low)
            if tuple(transport.get_write_buffer_limits()) != (self.low, self.high):
                self.fail('the limits were not set')
        # kernel
        elif name == 'room':
            kernel.room += 2
        elif name == 'room_big':
            kernel.room += 1000
        elif name == 'interrupt':
            kernel.interrupt = True
        elif name == 'spurious':
            kernel.spurious_write = kernel.spurious_read = True
        elif name == 'broken':
            kernel.error = ConnectionResetError('test') if self.pipe is None else BrokenPipeError('test')
        elif name == 'failing':
            kernel.error = OSError(5, 'test')
        elif name == 'data':
            if not self.peer_end:
                data = self.data(2)
                self.incoming_total += data
                kernel.incoming.append(data)
        elif name == 'peer_eof':
            if not self.peer_end:
                self.peer_end = True
                kernel.incoming.append(b'')
        elif name == 'peer_reset':
            if not self.peer_end:
                self.peer_end = True
                kernel.incoming.append(ConnectionResetError('peer'))
        elif name == 'peer_close':
            kernel.readable_end = True
        else:
            raise ValueError(name)

    def done_closing(self):
        """Whether closing already finished, the protocol is about to be told about it."""
        return self.closing in ('close', 'peer') and len(self.kernel.sent) >= len(self.written)

    # ---

    def io(self, env, timeout):
        kernel = self.kernel
        events = []
        for key in list(env.selector.get_map().values()):
            if key.fd != FD:
                continue
            mask = 0
            if kernel.closed:
                self.kernel.problems.append('watched after it was closed')
                break
            if key.events & EVENT_READ and (
                (kernel.readable_end if self.kind == 'write_pipe' else (kernel.incoming or kernel.error is not None)) or kernel.spurious_read and self.kind != 'write_pipe'
            ):
                kernel.spurious_read = False
                mask |= EVENT_READ
            if key.events & EVENT_WRITE and (kernel.room > 0 or kernel.error is not None or kernel.spurious_write):
                kernel.spurious_write = False
                mask |= EVENT_WRITE
            if mask:
                events.append((key, mask))
        if events:
            self.spins += 1
            if self.spins > 200:
                self.spinning = True
                return []
        return events

    spins = 0
    may_refuse = False
    limits_at = -1
    spinning = False

    def check(self, step):
        kernel = self.kernel
        protocol = self.protocol
        transport = self.transport
        what = f'after step {step}: '
        if self.spinning:
            self.fail(what + 'the loop spins on the file descriptor')
        self.spins = 0
        for problem in (*kernel.problems, *protocol.problems):
            self.fail(what + problem)
        if not protocol.made:
            self.fail(what + 'the connection was not made')
        # who ends it
        lost = protocol.lost
        if kernel.error_hit is not None and self.closing != 'abort':
            if not self.ended_before or not self.ended_before[0]:
                if not (self.done_closing() and lost == [None]):
                    self.closing = 'error'
                    self.lost_with = kernel.error_hit
        if self.kind == 'write_pipe' and kernel.readable_end and self.closing not in ('abort', 'error') and not self.was_lost:
            if len(kernel.sent) >= len(self.written) and self.closing is not None:
                pass
            else:
                # decided at the time when it was noticed
                self.closing = 'peer_close'
        if self.closing in ('abort', 'error'):
            wanted = [self.lost_with]
            if lost != wanted:
                self.fail(what + f'connection lost with {lost!r} instead of {wanted!r}')
        elif self.closing == 'peer_close':
            if len(lost) != 1 or not (lost[0] is None or isinstance(lost[0], BrokenPipeError)):
                self.fail(what + f'connection lost with {lost!r} when the reader went away')
            if lost[0] is None and len(kernel.sent) < len(self.written):
                self.fail(what + 'the connection was closed as if nothing was lost')
        elif self.closing is not None:
            flushed = len(kernel.sent) >= len(self.written)
            if lost and lost != [None]:
                self.fail(what + f'connection lost with {lost!r}')
            if lost and not flushed:
                self.fail(what + f'connection lost before {len(self.written) - len(kernel.sent)} written bytes were sent')
            if not lost and flushed and transport.get_write_buffer_size() == 0:
                self.fail(what + 'closed, but the connection is never lost')
        elif lost:
            self.fail(what + f'connection lost with {lost!r}, but nothing closed it')
        # sending
        sent = bytes(kernel.sent)
        whole = bytes(self.written)
        if not whole.startswith(sent[:len(whole)]) or not bytes(self.late).startswith(sent[len(whole):]):
            self.fail(what + f'sent {list(sent)}, but written {list(whole)}')
        if not transport.is_closing() is (self.closing is not None):
            self.fail(what + f'is_closing is {transport.is_closing()}')
        if lost:
            if kernel.closed != 1:
                self.fail(what + f'closed {kernel.closed} times')
            if FD in env_fds(self.env):
                self.fail(what + 'still watched after the connection was lost')
            if self.pipe is None and (self.server.attached, self.server.detached) != (1, 1):
                self.fail(what + 'the server was not told about the end of the connection')
            self.was_lost = True
            self.ended_before = lost
            return
        self.ended_before = None
        if kernel.closed:
            self.fail(what + 'closed before the connection was lost')
        if self.pipe is None and (self.server.attached, self.server.detached) != (1, 0):
            self.fail(what + 'the server counts the connection wrong')
        left = len(whole) - len(sent)
        if self.kind != 'read_pipe':
            size = transport.get_write_buffer_size()
            if not left <= size <= left + len(self.late):
                self.fail(what + f'the write buffer size is {size} instead of {left}')
            if size and kernel.room > 0:
                self.fail(what + f'{size} bytes are not sent, but could be')
            if size > self.high and not protocol.paused:
                self.fail(what + f'{size} bytes are buffered, but writing is not paused')
            if size <= self.low and protocol.paused and len(sent) > self.limits_at:
                self.fail(what + f'only {size} bytes are buffered, but writing is paused')
            if not size and FD in env_fds(self.env) and env_fds(self.env)[FD] & EVENT_WRITE:
                self.fail(what + 'waits to write, but has nothing to')
        if self.kind == 'socket':
            if self.closing is None:
                if self.eof_requested and not left and not kernel.shut:
                    self.fail(what + 'the end was not written')
                if kernel.shut and (left or not self.eof_requested):
                    self.fail(what + 'the end was written too early')
        # reading
        if self.kind != 'write_pipe':
            events = env_fds(self.env).get(FD, 0)
            reading = not self.closing and not self.reading_paused and not protocol.eof
            if reading:
                if protocol.received != self.incoming_total:
                    self.fail(what + f'received {list(protocol.received)} instead of {list(self.incoming_total)}')
                if not events & EVENT_READ:
                    self.fail(what + 'does not read')
                if kernel.incoming:
                    self.fail(what + 'the end was not received')
            else:
                if events & EVENT_READ and not (protocol.eof and not self.closing):
                    self.fail(what + 'reads, but it should not')
            if not self.incoming_total.startswith(protocol.received):
                self.fail(what + f'received {list(protocol.received)} instead of {list(self.incoming_total)}')
            if protocol.eof and not self.peer_end:
                self.fail(what + 'eof received, but there was none')

    was_lost = False
    ended_before = None

    def run(self, stats):
        from scarletio import Task
        env = self.env
        loop = env.loop
        env.io = self.io
        kernel = self.kernel
        if self.kind == 'socket':
            from scarletio.core import SocketTransportLayer
            waiter = env.future()
            SocketTransportLayer(loop, None, kernel, self.protocol, waiter, self.server)
            yield
            if not waiter.is_done():
                self.fail('connected, but its waiter was not told')
        else:
            fakeos.FILES[FD] = kernel
            kernel.mode = self.flavor.get('mode', fakeos.FIFO)
            if self.kind == 'read_pipe':
                task = Task(loop, loop.connect_read_pipe(self.protocol, kernel))
            else:
                task = Task(loop, loop.connect_write_pipe(self.protocol, kernel))
            yield
            yield
            if not task.is_done():
                self.fail('connecting a pipe did not finish')
            if task.get_result() is not self.transport:
                self.fail('connecting a pipe gave something else than the transport')
            if kernel.blocking is not False:
                self.fail('the pipe is blocking')
        if self.transport is None:
            self.fail('the connection was not made')
        get = self.transport.get_extra_info
        if self.kind == 'socket':
            for name, wanted in (('socket', kernel), ('socket_name', kernel.getsockname()), ('peer_name', kernel.getpeername())):
                if get(name) != wanted:
                    self.fail(f'{name} is {get(name)!r}')
        elif get('pipe') is not kernel:
            self.fail(f'pipe is {get("pipe")!r}')
        if get('nothing', 5) != 5:
            self.fail('an unknown information has value')
        if not self.protocol.lost and self.transport.get_protocol() is not self.protocol:
            self.fail('the protocol is not the one given')
        if 'limits' in self.flavor and self.kind != 'read_pipe':
            self.high, self.low = self.flavor['limits']
            self.transport.set_write_buffer_limits(high = self.high, low = self.low)
        yield
        self.check('start')
        for index, name in enumerate(self.path):
            try:
                self.perform(name)
            except Violation:
                raise
            except Exception as exception:
                self.fail(f'step {index}: {name} raised {exception!r}')
            yield
            yield
            stats.transitions += 1
            self.check(f'{index} ({name})')
        stats.evaluations += 1
        stats.outcome((self.closing, len(self.protocol.lost), len(kernel.sent), self.protocol.paused, kernel.shut, self.eof_requested))
        stats.state(self.what)

    def finish(self):
        fakeos.FILES.pop(FD, None)
        self.env.io = None
        if self.transport is not None and not self.protocol.lost:
            self.transport.abort()
            if self.kind == 'read_pipe':
                self.transport.close()
        yield
        env = self.env
        if FD in env_fds(env):
            self.fail('still watched after it was aborted')


def env_fds(env):
    return {key.fd: key.events for key in env.selector.get_map().values()}


WRITE_OPS = ('write', 'write_big', 'room', 'room_big', 'write_eof', 'close', 'abort_with', 'spurious', 'broken')
ALL_OPS = (
    'write', 'write_big', 'write_lines', 'room', 'room_big', 'write_eof', 'close', 'abort', 'abort_with', 'pause', 'resume', 'limits', 'interrupt', 'spurious', 'broken',
    'failing', 'data', 'peer_eof', 'peer_reset',
)
READ_OPS = ('data', 'peer_eof', 'peer_reset', 'pause', 'resume', 'close', 'abort', 'write', 'write_eof', 'spurious', 'room_big')
FLAVORS = [
    {'limits': (6, 2)},
    {'limits': (6, 2), 'keep': True},
    {'limits': (0, 0), 'room': 0},
    {'limits': (6, 2), 'on_resume': 'write'},
    {'limits': (6, 2), 'on_resume': 'write_big', 'keep': True},
    {'limits': (6, 2), 'on_resume': 'close'},
    {'limits': (6, 2), 'on_resume': 'write_eof'},
    {'limits': (6, 2), 'on_data': 'pause'},
    {'limits': (6, 2), 'on_data': 'close', 'room': 0},
    {'limits': (6, 2), 'on_data': 'write_big', 'keep': True},
    {'limits': (6, 2), 'on_eof': 'write', 'room': 2},
    {'limits': (6, 2), 'on_eof': 'write_eof', 'keep': True},
    {'limits': (6, 2), 'on_made': 'pause'},
    {'limits': (6, 2), 'on_made': 'close'},
    {'limits': (6, 2), 'on_made': 'abort_with'},
    {'limits': (6, 2), 'on_made': 'write_big'},
    {'limits': (6, 2), 'on_made': 'write_eof'},
]
PIPE_WRITE_OPS = ('write', 'write_big', 'write_lines', 'room', 'room_big', 'write_eof', 'close', 'abort', 'abort_with', 'limits', 'interrupt', 'spurious', 'broken', 'failing', 'peer_close')
PIPE_WRITE_FLAVORS = [
    {'limits': (6, 2)},
    {'limits': (0, 0), 'room': 0},
    {'limits': (6, 2), 'on_resume': 'write'},
    {'limits': (6, 2), 'on_resume': 'close'},
    {'limits': (6, 2), 'on_made': 'write_big'},
    {'limits': (6, 2), 'mode': fakeos.SOCKET},
]
PIPE_READ_OPS = ('data', 'peer_eof', 'peer_reset', 'pause', 'resume', 'close', 'abort', 'spurious', 'failing')
PIPE_READ_FLAVORS = [{}, {'on_data': 'pause'}, {'on_data': 'close'}, {'on_made': 'pause'}, {'on_made': 'close'}, {'on_eof': 'close'}]


class TransportCheck(Check):
    id = 'C14'
    rule = 'a state is a distinct case: kind of transport, what the protocol does inside of its callbacks, sequence of operations of the application, the kernel and the peer'
    assumptions = [
        'the kernel side of the file descriptors is a stand-in: any amount of free space, errors, interruptions and spurious readiness',
        'whether data written after closing is still sent is not specified', 'data given to write is not modified afterwards',
    ]

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for index in range(len(FLAVORS)):
            depth = 4 if index < 3 else 3
            if not quick:
                depth += 1
            for first in ALL_OPS:
                jobs.append(('socket', index, 'all', (first,), depth - 1))
        for index in range(len(FLAVORS)):
            for first in product(WRITE_OPS, repeat = 1):
                jobs.append(('socket', index, 'write', first, (5 if index in (0, 3) else 3) - quick))
            if index in (0, 1, 7, 10):
                for first in READ_OPS:
                    jobs.append(('socket', index, 'read', (first,), 5 - quick))
        for index in range(len(PIPE_WRITE_FLAVORS)):
            for first in PIPE_WRITE_OPS:
                jobs.append(('write_pipe', index, 'pipe', (first,), (4 if index < 2 else 3) - quick))
        for index in range(len(PIPE_READ_FLAVORS)):
            for first in PIPE_READ_OPS:
                jobs.append(('read_pipe', index, 'pipe', (first,), 5 - quick))
        jobs.sort(key = lambda job: -job[4])
        return jobs

    def run_job(self, job, stats, tier):
        kind, index, alphabet, prefix, depth = job
        gc.disable()
        if kind == 'socket':
            flavor = FLAVORS[index]
            operations = {'all': ALL_OPS, 'write': WRITE_OPS, 'read': READ_OPS}[alphabet]
        elif kind == 'write_pipe':
            flavor = PIPE_WRITE_FLAVORS[index]
            operations = PIPE_WRITE_OPS
        else:
            flavor = PIPE_READ_FLAVORS[index]
            operations = PIPE_READ_OPS
        paths = (tuple(prefix) + rest for rest in product(operations, repeat = depth))
        self.explore(kind, flavor, paths, stats)
        stats.sample(repr(job))

    def explore(self, kind, flavor, paths, stats):
        while True:
            env = Env(Chooser(), horizon = 10 ** 9)
            state = {'more': False, 'seen': 0}

            def driver():
                for count, path in enumerate(paths):
                    case = Case(env, flavor, path, kind)
                    seen = len(env.background)
                    try:
                        yield from case.run(stats)
                        for error in env.background[seen:]:
                            exception = exception_of(error)
                            if exception is not None and exception is not case.kernel.error_hit:
                                case.fail(f'unexpected exception: {exception!r}')
                        yield from case.finish()
                        for error in env.background[seen:]:
                            exception = exception_of(error)
                            if exception is not None and exception is not case.kernel.error_hit:
                                case.fail(f'unexpected exception at the end: {exception!r}')
                    except Violation as violation:
                        stats.violate(violation.key, violation.message, violation.artefact)
                        fakeos.FILES.pop(FD, None)
                        env.io = None
                        if len(stats.violations) < 12:
                            state['more'] = True
                        return
                    if count > 2000:
                        state['more'] = True
                        return

            drive(env, driver())
            gc.collect()
            if not state['more']:
                break

    def replay(self, job, artefact, stats):
        kind, flavor, path = artefact
        flavor = {key: tuple(value) if isinstance(value, list) else value for key, value in flavor}
        self.explore(kind, flavor, iter([tuple(path)]), stats)


CHECK = TransportCheck()
