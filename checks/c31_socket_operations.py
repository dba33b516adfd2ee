"""
C31: the operations of the event loop on plain sockets (receiving, sending, accepting, connecting; datagrams with the asyncio extension) over histories.

The real event loop and operations run over stand-in sockets; every sequence of operations, kernel events and cancellations up to a depth, compared with what the (stand-in) kernel handed out and
took after each one; the last ones are done at once too (without letting the loop run between them).
"""
import errno, socket as module_socket
from selectors import EVENT_READ, EVENT_WRITE

from mc.base import Check, Violation
from mc import fakenet
from mc.vloop import quiet_stderr
from mc.wire import Sequences, outcome_of, run_cases, run_one

V4 = module_socket.AF_INET
STREAM = module_socket.SOCK_STREAM
DATAGRAM = module_socket.SOCK_DGRAM

A = ('10.0.0.1', 4000)
B = ('10.0.0.2', 4001)


class Impossible(Exception):
    pass


class World:
    """One socket, at most one operation in each direction at a time."""
    family = V4
    type = STREAM
    state = 'connected'

    def __init__(self, env, net, fail):
        self.env = env
        self.net = net
        self.loop = env.loop
        self.fail = fail
        self.current = {'read': None, 'write': None} # (task, what it needs to be checked)
        self.cancelled = []
        self.setup()

    def setup(self):
        self.socket = self.net.create(self.family, self.type, self.state)

    def start(self, direction, coroutine, *details):
        from scarletio import Task
        self.current[direction] = Task(self.loop, coroutine), details

    def free(self, direction):
        if self.current[direction] is not None:
            raise Impossible

    def cancel(self, direction):
        if self.current[direction] is None:
            raise Impossible
        task, details = self.current[direction]
        task.cancel()
        self.current[direction] = None
        self.cancelled.append((task, direction, details))

    def apply(self, operation):
        name, *positional = operation
        getattr(self, name)(*positional)

    def check(self):
        for problem in self.net.problems:
            self.fail(problem)
        for task, direction, details in self.cancelled:
            if outcome_of(task) != ('cancelled',):
                self.fail(f'a cancelled operation ended with {outcome_of(task)}')
            self.ended(direction, ('cancelled',), details)
        self.cancelled.clear()
        mask = 0
        for direction, event in (('read', EVENT_READ), ('write', EVENT_WRITE)):
            if self.current[direction] is None:
                continue
            task, details = self.current[direction]
            outcome = outcome_of(task)
            if outcome[0] == 'cancelled':
                self.fail('an operation was cancelled by nobody')
            if outcome[0] == 'pending':
                mask |= event
                if self.ready(direction, details):
                    self.fail(f'{direction} is pending, though it could be done')
            else:
                self.current[direction] = None
                self.ended(direction, outcome, details)
        self.consistent()
        for socket in self.net.sockets:
            try:
                watched = self.env.selector.get_key(socket.number).events
            except KeyError:
                watched = 0
            expected = mask if socket is self.socket else 0
            if watched != expected:
                self.fail(f'watched for {watched}, should be for {expected}')

    def consistent(self):
        pass

    def finish(self):
        for direction in ('read', 'write'):
            if self.current[direction] is not None:
                self.current[direction][0].cancel()


class StreamWorld(World):
    def setup(self):
        World.setup(self)
        self.socket.room = 0
        self.supplied = b''
        self.position = 0
        self.failures = []
        self.read_failures = []
        self.finished = False
        self.accepted = b'' # by operations which ended
        self.counter = 0

    # operations

    def receive(self, amount):
        self.free('read')
        self.start('read', self.loop.socket_receive(self.socket, amount), amount, None)

    def receive_into(self, amount):
        self.free('read')
        buffer = bytearray(b'.' * amount)
        self.start('read', self.loop.socket_receive_into(self.socket, buffer), amount, buffer)

    def send(self, length):
        self.free('write')
        self.counter += 1
        payload = bytes(65 + self.counter * 7 % 26 + index for index in range(length))
        self.start('write', self.loop.socket_send_all(self.socket, payload), payload)

    # kernel

    def data(self, length):
        if self.finished:
            raise Impossible
        data = bytes(97 + (len(self.supplied) + index) % 26 for index in range(length))
        self.supplied += data
        self.socket.incoming.append(data)

    def end(self):
        if self.finished:
            raise Impossible
        self.finished = True
        self.socket.incoming.append(b'')

    def reset(self):
        if self.finished:
            raise Impossible
        exception = ConnectionResetError(errno.ECONNRESET, 'reset')
        self.read_failures.append(exception)
        self.socket.incoming.append(exception)

    def room(self, length):
        self.socket.room += length

    def broken(self):
        if self.socket.error:
            raise Impossible
        self.socket.error = errno.EPIPE
        self.socket.room = max(self.socket.room, 1)

    # checks

    def ready(self, direction, details):
        if direction == 'read':
            return bool(self.socket.incoming)
        return self.socket.room > 0 or self.socket.error

    def ended(self, direction, outcome, details):
        if direction == 'write':
            payload, = details
            taken = bytes(self.socket.sent)[len(self.accepted):]
            if outcome[0] == 'cancelled':
                # what the next operation sent might be there already, it starts with something else
                while taken and not payload.startswith(taken):
                    taken = taken[:-1]
            self.accepted += taken
            if outcome[0] == 'result':
                if outcome[1] is not None:
                    self.fail(f'sending returned {outcome[1]!r}')
                if taken != payload:
                    self.fail(f'sending {payload} ended with {taken} sent')
            elif not payload.startswith(taken):
                self.fail(f'sent {taken} of {payload}')
            elif outcome[0] == 'exception':
                if not isinstance(outcome[1], OSError) or outcome[1].errno != errno.EPIPE:
                    self.fail(f'sending ended with {outcome}')
            return
        amount, buffer = details
        if outcome[0] == 'cancelled':
            if buffer is not None and buffer != b'.' * amount:
                self.fail('cancelled operation changed the buffer')
        elif outcome[0] == 'exception':
            if outcome[1] not in self.read_failures:
                self.fail(f'receiving ended with {outcome}')
            self.read_failures.remove(outcome[1])
        else:
            data = outcome[1]
            if buffer is not None:
                if buffer[data:] != b'.' * (amount - data):
                    self.fail('more was written into the buffer')
                data = bytes(buffer[:data])
            if len(data) > amount:
                self.fail('too much was received')
            if not data and not (self.finished and self.position == len(self.supplied)):
                self.fail('end reported, which did not come yet')
            if data != self.supplied[self.position : self.position + len(data)]:
                self.fail(f'received {data} instead of {self.supplied[self.position:]}')
            self.position += len(data)

    def consistent(self):
        left = b''.join(item for item in self.socket.incoming if isinstance(item, bytes))
        if left != self.supplied[self.position:]:
            self.fail(f'data is lost: {self.supplied[self.position:]} should be left, {left} is')
        if sum(isinstance(item, Exception) for item in self.socket.incoming) != len(self.read_failures):
            self.fail('a failure is lost')
        current = self.current['write']
        taken = bytes(self.socket.sent)[len(self.accepted):]
        if current is None:
            if taken:
                self.fail(f'{taken} was sent by nobody')
        elif not current[1][0].startswith(taken):
            self.fail(f'sent {taken} of {current[1][0]}')


class ListenWorld(World):
    state = 'listening'

    def setup(self):
        World.setup(self)
        self.incoming = []
        self.failures = []
        self.counter = 0

    def accept(self):
        self.free('read')
        self.start('read', self.loop.socket_accept(self.socket))

    def arrive(self):
        self.counter += 1
        socket = self.net.create(remote = ('10.5.0.1', self.counter))
        socket.was_blocking = True
        self.incoming.append(socket)
        self.socket.accepting.append(socket)

    def abort(self):
        exception = ConnectionAbortedError(errno.ECONNABORTED, 'aborted')
        self.incoming.append(exception)
        self.socket.accepting.append(exception)

    def ready(self, direction, details):
        return bool(self.socket.accepting)

    def ended(self, direction, outcome, details):
        if outcome[0] == 'cancelled':
            return
        expected = self.incoming.pop(0) if self.incoming else None
        if isinstance(expected, Exception):
            if outcome != ('exception', expected):
                self.fail(f'accepting ended with {outcome} instead of {expected!r}')
        elif expected is None or outcome != ('result', (expected, expected.remote)):
            self.fail(f'accepting ended with {outcome} instead of {expected!r}')
        elif expected.was_blocking:
            self.fail('the accepted socket blocks')

    def consistent(self):
        if self.incoming != self.socket.accepting:
            self.fail('a connection is lost')


class ConnectWorld(World):
    state = 'new'

    def connect(self, how):
        self.free('write')
        if self.socket.state != 'new':
            self.socket = self.net.create(self.family, self.type, 'new')
        self.net.on_connect = lambda socket, address: how if how != 'refuse' else ConnectionRefusedError(errno.ECONNREFUSED, 'refused')
        self.start('write', self.loop.socket_connect(self.socket, A), how, self.socket)

    def succeed(self):
        if self.socket.state != 'connecting':
            raise Impossible
        self.net.finish(self.socket)

    def break_(self):
        if self.socket.state != 'connecting':
            raise Impossible
        self.net.finish(self.socket, errno.EHOSTUNREACH)

    def ready(self, direction, details):
        return details[1].state in ('connected', 'failed')

    def ended(self, direction, outcome, details):
        how, socket = details
        if outcome[0] == 'cancelled':
            # it might be even before it started
            return
        if how == 'refuse':
            good = outcome[0] == 'exception' and isinstance(outcome[1], ConnectionRefusedError)
        elif socket.state == 'failed':
            good = outcome[0] == 'exception' and isinstance(outcome[1], OSError) and outcome[1].errno == errno.EHOSTUNREACH
        else:
            good = outcome == ('result', None) and socket.state == 'connected'
        if not good:
            self.fail(f'connecting ended with {outcome}, how = {how}, socket is {socket.state}')
        calls = [entry[2] for entry in self.net.calls if entry[0] == 'connect' and entry[1] is socket]
        if not calls or any(address != A for address in calls):
            self.fail('connected to something else')


class DatagramWorld(World):
    type = DATAGRAM
    state = 'bound'

    def setup(self):
        World.setup(self)
        self.incoming = []
        self.counter = 0
        self.sent = []
        self.write_error = None
        self.net.datagram_writable = False
        self.net.on_datagram = self.on_datagram

    def on_datagram(self, socket, data, address, how):
        if self.write_error is not None:
            exception = self.write_error
            self.write_error = None
            return exception
        if not self.net.datagram_writable:
            return BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        return None

    def receive(self, amount):
        self.free('read')
        self.start('read', self.loop.sock_recvfrom(self.socket, amount), amount, None, 0)

    def receive_into(self, length, amount):
        self.free('read')
        buffer = bytearray(b'.' * length)
        self.start('read', self.loop.sock_recvfrom_into(self.socket, buffer, amount), amount or length, buffer, length)

    def send(self, address):
        self.free('write')
        self.counter += 1
        payload = b'datagram %d' % self.counter
        address = {'A': A, 'B': B}[address]
        self.start('write', self.loop.sock_sendto(self.socket, payload, address), payload, address)

    def datagram(self, length, address):
        data = bytes(97 + (len(self.incoming) * 5 + index) % 26 for index in range(length))
        item = data, {'A': A, 'B': B}[address]
        self.incoming.append(item)
        self.socket.incoming.append(item)

    def refused(self):
        exception = ConnectionRefusedError(errno.ECONNREFUSED, 'refused')
        self.incoming.append(exception)
        self.socket.incoming.append(exception)

    def writable(self, value):
        self.net.datagram_writable = value

    def broken(self):
        if self.write_error is not None:
            raise Impossible
        self.write_error = OSError(errno.ENETUNREACH, 'unreachable')
        self.net.datagram_writable = True

    def ready(self, direction, details):
        if direction == 'read':
            return bool(self.socket.incoming)
        return self.net.datagram_writable

    def ended(self, direction, outcome, details):
        if direction == 'write':
            payload, address = details
            sent = [(data, to) for data, to, how in self.socket.datagrams[len(self.sent):]]
            if outcome[0] == 'cancelled':
                # what the next operation sent might be there already
                sent = [item for item in sent if item[0] == payload]
            self.sent.extend(sent)
            if outcome[0] == 'result':
                good = sent == [(payload, address)] and outcome[1] == len(payload)
            elif outcome[0] == 'exception':
                good = not sent and isinstance(outcome[1], OSError) and outcome[1].errno == errno.ENETUNREACH
            else:
                good = not sent
            if not good:
                self.fail(f'sending {payload} to {address} ended with {outcome}, sent {sent}')
            return
        if outcome[0] == 'cancelled':
            return
        amount, buffer, length = details
        expected = self.incoming.pop(0) if self.incoming else None
        if isinstance(expected, Exception):
            if outcome != ('exception', expected):
                self.fail(f'receiving ended with {outcome} instead of {expected!r}')
            return
        if expected is None or outcome[0] != 'result':
            self.fail(f'receiving ended with {outcome} instead of {expected!r}')
        data, address = outcome[1]
        if buffer is not None:
            if buffer[data:] != b'.' * (length - data):
                self.fail('more was written into the buffer')
            data = bytes(buffer[:data])
        if (data, address) != (expected[0][:amount], expected[1]):
            self.fail(f'received {data} from {address} instead of {expected!r}')

    def consistent(self):
        if self.incoming != self.socket.incoming:
            self.fail('a datagram is lost')
        if len(self.sent) != len(self.socket.datagrams):
            self.fail('a datagram was sent by nobody')


WORLDS = {'stream': StreamWorld, 'listen': ListenWorld, 'connect': ConnectWorld, 'datagram': DatagramWorld}
ALPHABETS = {
    'stream': (
        ('receive', 3), ('receive', 100), ('receive_into', 3), ('send', 0), ('send', 5), ('data', 2), ('data', 5), ('end',), ('reset',), ('room', 2), ('room', 100), ('broken',),
        ('cancel', 'read'), ('cancel', 'write'),
    ),
    'listen': (('accept',), ('arrive',), ('abort',), ('cancel', 'read')),
    'connect': (('connect', 'now'), ('connect', 'later'), ('connect', 'refuse'), ('succeed',), ('break_',), ('cancel', 'write')),
    'datagram': (
        ('receive', 4), ('receive_into', 6, 0), ('receive_into', 6, 4), ('send', 'A'), ('send', 'B'), ('datagram', 5, 'A'), ('datagram', 0, 'B'), ('refused',), ('writable', True), ('writable', False), ('broken',),
        ('cancel', 'read'), ('cancel', 'write'),
    ),
}


def case(what, operations, batch, stats, prune):
    """The last `batch` operations are done at once."""
    def function(env):
        artefact = [what, [list(operation) for operation in operations], batch]
        done = []

        def fail(message):
            raise Violation(f'{what}: {message}'[:80], f'{what} after {done!r} (last {batch} at once): {message}', artefact)

        net = fakenet.Net()
        net.enter(env)
        world = None
        try:
            world = WORLDS[what](env, net, fail)
            settled = len(operations) - max(batch, 1)
            for index, operation in enumerate(operations):
                done.append(operation)
                try:
                    world.apply(operation)
                except Impossible:
                    prune(index)
                    return
                stats.transitions += 1
                if index < settled:
                    yield None
                    world.check()
            yield None
            world.check()
            stats.evaluations += 1
            stats.state(hash((what, operations, batch)))
            for direction in ('read', 'write'):
                stats.outcome(f'{what} {direction} {"pending" if world.current[direction] else "idle"}')
            world.finish()
            yield None
            if net.registered():
                fail('a socket is watched after everything ended')
        finally:
            if world is not None:
                world.finish()
            net.leave()
    return function


class SocketOperationsCheck(Check):
    id = 'C31'
    rule = 'a state is a distinct sequence of operations, kernel events and cancellations at a socket'
    assumptions = [
        'at most one operation in each direction is in progress on a socket (more of them replace each other\'s watching, as with asyncio)',
        'the kernel is replaced by stand-in sockets with level triggered readiness',
    ]

    def setup(self):
        quiet_stderr()
        import scarletio.ext.asyncio

    def jobs(self, tier):
        more = 0 if tier == 'quick' else 1
        jobs = []
        for what, depth, batches in (
            ('stream', 5, ((4, 2), (4, 3))), ('listen', 7, ((6, 2), (6, 3), (6, 4))), ('connect', 6, ((5, 2), (5, 3))), ('datagram', 5, ((4, 2), (4, 3))),
        ):
            for first in ALPHABETS[what]:
                jobs.append((what, first, depth + more, 0))
                for length, batch in batches:
                    jobs.append((what, first, length + more, batch))
        return jobs

    def cases(self, job, stats):
        what, first, depth, batch = job
        for length in range(max(batch, 1), depth + 1) if batch else (depth,):
            sequences = Sequences(ALPHABETS[what], length, (tuple(first),))
            for operations in sequences:
                yield case(what, operations, batch, stats, sequences.prune)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, stats), stats, job)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        what, operations, batch = artefact
        run_one(case(what, tuple(map(tuple, operations)), batch, stats, lambda index: None), stats)


CHECK = SocketOperationsCheck()
