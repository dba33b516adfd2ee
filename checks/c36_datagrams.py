"""
C36: datagram connections: every datagram is sent and delivered whole, once, in order, to / from the right address; failures lose only the datagram they belong to.

The real event loop, transport and protocols run over stand-in sockets; every sequence of operations and kernel answers up to a depth, every combination of outcomes at connecting.
"""
import errno, os, shutil, socket as module_socket, tempfile
from itertools import product

from mc.base import Check, Violation
from mc import fakenet
from mc.vloop import quiet_stderr
from mc.wire import Sequences, outcome_of, run_cases, run_one

V4 = module_socket.AF_INET
V6 = module_socket.AF_INET6
UNIX = module_socket.AF_UNIX
DATAGRAM = module_socket.SOCK_DGRAM
UDP = module_socket.IPPROTO_UDP

A = ('10.0.0.1', 4000)
B = ('10.0.0.2', 4000)
C = ('10.0.0.1', 4001)
REMOTE = ('10.0.0.9', 9000)


def family_of(address):
    return V6 if ':' in address[0] else V4


_protocol_type = None


def protocol_type():
    global _protocol_type
    if _protocol_type is None:
        from scarletio.core.protocols_and_transports import AbstractProtocolBase

        class Protocol(AbstractProtocolBase):
            def __init__(self, record, at_made = None, at_error = None):
                self.record = record
                self.transport = None
                self.at_made = at_made
                self.at_error = at_error
                self.paused = False

            def connection_made(self, transport):
                self.transport = transport
                self.record.append(('made',))
                if self.at_made is not None:
                    getattr(transport, self.at_made)()

            def connection_lost(self, exception):
                self.record.append(('lost', exception))

            def datagram_received(self, data, address):
                self.record.append(('received', bytes(data), address))

            def error_received(self, exception):
                self.record.append(('error', exception))
                if self.at_error is not None:
                    getattr(self.transport, self.at_error)()

            def pause_writing(self):
                self.record.append(('pause',))
                self.paused = True

            def resume_writing(self):
                self.record.append(('resume',))
                self.paused = False

            def get_transport(self):
                return self.transport

        _protocol_type = Protocol
    return _protocol_type


class DatagramNet(fakenet.Net):
    """`answers`: what the kernel says to the next datagrams; while `blocked`, it takes none."""
    def __init__(self):
        fakenet.Net.__init__(self)
        self.blocked = False
        self.refusals = []
        self.refused = []

    def on_datagram(self, socket, data, address, how):
        if self.blocked:
            return BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        if self.refusals:
            exception = self.refusals.pop(0)
            self.refused.append((data, exception))
            return exception
        return None

    def block(self, value):
        self.blocked = value
        self.datagram_writable = not value


# ---- the transport

OPERATIONS = (
    'send-a', 'send-b', 'send-default', 'send-wrong', 'send-empty', 'send-view', 'send-mutable', 'send-type', 'block', 'unblock', 'refuse', 'receive-a', 'receive-b', 'receive-empty', 'receive-error', 'limits', 'limits-high', 'close', 'abort',
)
CORE = ('send-a', 'send-b', 'send-default', 'block', 'unblock', 'refuse', 'receive-a', 'close', 'abort')
MODES = ('open', 'connected', 'broadcast')


def transport_case(spec, stats, sequences = None):
    """spec : (mode, settle, at error, operations)"""
    def function(env):
        from scarletio import Task
        mode, settle, at_error, operations = spec
        loop = env.loop

        def fail(message):
            raise Violation('transport: ' + message[:50], f'{spec}: {message}', ['transport', [mode, settle, at_error, list(operations)]])

        net = DatagramNet()
        net.enter(env)
        record = []
        Protocol = protocol_type()
        protocol = None
        try:
            if mode == 'broadcast':
                task = Task(loop, loop.create_datagram_connection_to(lambda: Protocol(record, None, at_error), None, REMOTE, allow_broadcast = True))
            else:
                socket = net.create(V4, DATAGRAM, state = 'connected' if mode == 'connected' else 'new', remote = REMOTE)
                task = Task(loop, loop.create_datagram_connection_with(lambda: Protocol(record, None, at_error), socket))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result':
                fail(f'connecting ended with {outcome}')
            protocol = outcome[1]
            transport = protocol.get_transport()
            if len(net.open_sockets()) != 1:
                fail(f'sockets: {net.open_sockets()}')
            socket = net.open_sockets()[0]
            # ---- model
            accepted = [] # (data, address) in the order they should leave
            dropped = set()
            maybe = set() # sent when already closing
            received = []
            receive_errors = []
            closed = aborted = False
            high, low = 65536, 16384
            serial = 0

            def pending():
                gone = {data for data, _, _ in socket.datagrams} | {data for data, _ in net.refused}
                return [item for item in accepted if item[0] not in gone and item[0] not in dropped]

            def size():
                return sum(len(data) for data, _ in pending())

            for index, operation in enumerate((*operations, 'unblock', 'end')):
                stats.transitions += 1
                if operation.startswith('send'):
                    serial += 1
                    data = f'<{serial}>'.encode() * (1 + serial % 3)
                    kind = operation[5:]
                    if kind == 'type':
                        for bad in ('text', 5, None, [1]):
                            try:
                                transport.send_to(bad, A)
                            except TypeError:
                                pass
                            else:
                                fail(f'sending {bad!r} is allowed')
                        continue
                    address = {'a': A, 'b': B, 'default': None, 'wrong': B, 'empty': A, 'view': A, 'mutable': A}[kind]
                    if mode == 'open':
                        if kind in ('default', 'wrong'):
                            # nowhere to send it to
                            if sequences is not None:
                                sequences.prune(index)
                            return
                    elif mode == 'connected':
                        # the kernel sends it to where the socket is connected to
                        address = None if kind != 'default' else REMOTE
                        if kind == 'wrong' or kind == 'b':
                            if sequences is not None:
                                sequences.prune(index)
                            return
                    elif kind != 'wrong':
                        address = REMOTE if kind in ('a', 'view') else None
                    wanted = REMOTE if mode != 'open' else address
                    given = data
                    if kind == 'empty':
                        given = b''
                    elif kind == 'view':
                        given = memoryview(b'x' + data + b'y')[1:-1]
                    elif kind == 'mutable':
                        given = bytearray(data)
                    try:
                        outcome = transport.send_to(given, address) if address is not None or serial % 2 else transport.send_to(given)
                    except ValueError as exception:
                        if kind != 'wrong':
                            fail(f'sending raised {exception!r}')
                    except Exception as exception:
                        fail(f'sending raised {exception!r}')
                    else:
                        if kind == 'wrong':
                            fail('sending to an other address is allowed')
                        if kind != 'empty':
                            accepted.append((data, wanted))
                            if closed or transport.is_closing():
                                maybe.add(data)
                            if aborted:
                                dropped.add(data)
                    if kind == 'mutable':
                        # what was given is not ours anymore
                        given[:] = b'#' * len(given)
                elif operation == 'block':
                    net.block(True)
                elif operation == 'unblock':
                    net.block(False)
                elif operation == 'refuse':
                    net.refusals.append(ConnectionRefusedError(errno.ECONNREFUSED, f'refused {index}'))
                elif operation == 'receive-error':
                    exception = ConnectionRefusedError(errno.ECONNREFUSED, f'receive {index}')
                    socket.incoming.append(exception)
                    if not closed:
                        receive_errors.append(exception)
                elif operation.startswith('receive'):
                    data = b'' if operation.endswith('empty') else f'({index})'.encode() * 3
                    address = B if operation.endswith('b') else A
                    socket.incoming.append((data, address))
                    if not closed:
                        received.append((data, address))
                elif operation == 'limits':
                    high, low = 8, 3
                    transport.set_write_buffer_limits(high, low)
                elif operation == 'limits-high':
                    high, low = 12, 3
                    transport.set_write_buffer_limits(high)
                elif operation == 'close':
                    if not closed and not settle:
                        # what arrived in the meantime may or may not be seen
                        yield
                    closed = True
                    transport.close()
                elif operation == 'abort':
                    if not settle and not closed:
                        yield
                    dropped.update(data for data, _ in pending())
                    closed = aborted = True
                    transport.abort()
                if at_error is not None and transport.is_closing() and not closed:
                    # the protocol closed it at an error
                    closed = True
                    received = [item for item in received if ('received', *item) in record]
                    if at_error == 'abort':
                        aborted = True
                        dropped.update(data for data, _ in pending())
                if settle or operation in ('unblock', 'end'):
                    yield
                    if at_error is not None and transport.is_closing() and not closed:
                        closed = True
                        seen = [item[1:] for item in record if item[0] == 'received']
                        received = received[:len(seen)]
                        receive_errors = receive_errors[:1]
                        if at_error == 'abort':
                            aborted = True
                            dropped.update(data for data, _ in pending())
                if at_error == 'abort' and not aborted and any(item[0] == 'error' for item in record):
                    aborted = True
                    dropped.update(data for data, _ in pending())
                # ---- judging
                if transport.is_closing() is not closed:
                    fail(f'is_closing : {transport.is_closing()} after {operation}')
                sent = [(data, address) for data, address, how in socket.datagrams]
                place = -1
                order = [data for data, _ in accepted]
                for data, address in sent:
                    if data not in order:
                        fail(f'something else was sent: {data}')
                    if order.index(data) <= place:
                        fail(f'sent again or in an other order: {sent}; accepted: {accepted}')
                    place = order.index(data)
                    if data in dropped:
                        fail(f'{data} was sent after aborting')
                    if accepted[place][1] != address:
                        fail(f'{data} was sent to {address} instead of {accepted[place][1]}')
                refused = [data for data, _ in net.refused]
                if len(set(refused)) != len(refused) or set(refused) & {data for data, _ in sent}:
                    fail(f'sent again after it was refused: {refused}; {sent}')
                errors = [item[1] for item in record if item[0] == 'error']
                if [error for error in errors if error in [exception for _, exception in net.refused]] != [exception for _, exception in net.refused]:
                    fail(f'errors reported: {errors}; refused: {net.refused}')
                got = [item[1:] for item in record if item[0] == 'received']
                if got != received[:len(got)]:
                    fail(f'received: {got}; arrived: {received}')
                others = [error for error in errors if error not in [exception for _, exception in net.refused]]
                if others != receive_errors[:len(others)]:
                    fail(f'errors reported: {errors}; occurred: {receive_errors}')
                if record[:1] != [('made',)] or record.count(('made',)) != 1:
                    fail(f'connection_made: {record}')
                lost = [item for item in record if item[0] == 'lost']
                if len(lost) > 1 or (lost and record[-1] is not lost[0]):
                    fail(f'connection_lost: {record}')
                if lost and not closed:
                    fail(f'connection_lost without closing: {record}')
                if lost and lost[0][1] is not None:
                    fail(f'connection_lost with {lost[0][1]!r}')
                waiting = [item for item in pending() if item[0] not in maybe]
                if lost and waiting:
                    fail(f'lost while {waiting} was still not sent')
                if not aborted and not maybe:
                    if transport.get_write_buffer_size() != size():
                        fail(f'get_write_buffer_size: {transport.get_write_buffer_size()}; waiting to be sent: {pending()}')
                    if size() > high and not protocol.paused:
                        fail(f'writing is not paused with {size()} bytes; limit: {high}')
                    if not aborted and protocol.paused and size() <= low and (settle or operation == 'end'):
                        fail(f'writing is not resumed with {size()} bytes; limit: {low}')
                    if ('pause',) in record and max(0, *(sum(len(data) for data, _ in accepted),)) <= low:
                        fail('paused for too few data')
                flow = [item[0] for item in record if item[0] in ('pause', 'resume')]
                if flow != (['pause', 'resume'] * len(flow))[:len(flow)]:
                    fail(f'pausing: {flow}')
                if not net.blocked and (settle or operation == 'end') and waiting:
                    fail(f'the kernel is ready, but {waiting} was not sent')
                if (settle or operation == 'end') and not closed:
                    if got != received:
                        fail(f'received: {got}; arrived: {received}')
                    if others != receive_errors:
                        fail(f'errors reported: {errors}; occurred: {receive_errors}')
                if (settle or operation == 'end') and closed and (aborted or not net.blocked):
                    if not lost:
                        fail('closed, but connection_lost is not called')
                    if socket.state != 'closed':
                        fail('closed, but its socket is open')
                    if socket in net.registered():
                        fail('closed, but still watched')
                if not closed and socket.state == 'closed':
                    fail('the socket is closed')
                if net.problems:
                    fail(f'{net.problems}')
            stats.evaluations += 1
            stats.nontrivial += bool(socket.datagrams or received)
            stats.outcome(f'{mode} {len(socket.datagrams)} {len(net.refused)} {len(received)} {closed} {aborted} {("pause",) in record}')
            stats.state(repr((spec, record, socket.datagrams)))
        finally:
            if protocol is not None:
                transport = protocol.get_transport()
                if transport is not None:
                    protocol.at_error = None
                    net.block(False)
                    transport.abort()
                    yield
            net.leave()
    return function


# ---- protocols

READ_OPERATIONS = ('a', 'b', 'c', 'wait', 'wait-a', 'wait-b', 'wait-timeout', 'wait-a-timeout', 'time', 'cancel', 'close', 'abort', 'error')


def reading_case(spec, stats):
    """spec : (settle, operations)"""
    def function(env):
        from functools import partial
        from scarletio import DatagramAddressedReadProtocol, ReadProtocolBase, Task
        settle, operations = spec
        loop = env.loop

        def fail(message):
            raise Violation('reading: ' + message[:50], f'{spec}: {message}', ['reading', [settle, list(operations)]])

        net = DatagramNet()
        net.enter(env)
        transport = None
        tasks = []
        try:
            socket = net.create(V4, DATAGRAM, state = 'new', remote = None)
            task = Task(loop, loop.create_datagram_connection_with(partial(DatagramAddressedReadProtocol, loop, partial(ReadProtocolBase, loop)), socket))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result':
                fail(f'connecting ended with {outcome}')
            protocol = outcome[1]
            transport = protocol.get_transport()
            addresses = {'a': A, 'b': B, 'c': C}
            arrived = {} # address -> data
            waits = [] # [task, address, deadline, expected]
            now = 0.0
            closed = False
            loss = None
            for index, operation in enumerate(operations):
                stats.transitions += 1
                if operation in addresses:
                    address = addresses[operation]
                    socket_open = socket.state != 'closed'
                    data = f'[{index}]'.encode()
                    if not closed:
                        socket.incoming.append((data, address))
                        arrived[address] = arrived.get(address, b'') + data
                        for wait in waits:
                            if wait[3] is None and wait[1] in (None, address):
                                wait[3] = ('data', address)
                    if settle:
                        yield
                elif operation == 'error':
                    if not closed:
                        # a failing receive tells nothing about the others
                        socket.incoming.append(ConnectionRefusedError(errno.ECONNREFUSED, 'refused'))
                    yield
                elif operation.startswith('wait'):
                    # a wait is always started after what was before it
                    yield
                    address = A if '-a' in operation else B if '-b' in operation else None
                    timeout = 2.0 if operation.endswith('timeout') else None
                    if timeout is None:
                        task = Task(loop, protocol.wait_for_receive(address) if address is not None else protocol.wait_for_receive())
                    else:
                        task = Task(loop, protocol.wait_for_receive(address, timeout))
                    tasks.append(task)
                    expected = None
                    if address is None and arrived:
                        expected = ('any-data', set(arrived))
                    elif address is not None and address in arrived:
                        expected = ('data', address)
                    elif closed:
                        expected = ('lost',)
                    waits.append([task, address, None if timeout is None else now + timeout, expected])
                    yield
                elif operation == 'time':
                    yield 1.5
                    now += 1.5
                    for wait in waits:
                        if wait[3] is None and wait[2] is not None and wait[2] <= now:
                            wait[3] = ('timeout',)
                elif operation == 'cancel':
                    yield
                    for wait in waits:
                        if wait[3] is None:
                            wait[0].cancel()
                            wait[3] = ('cancelled',)
                            break
                    yield
                else:
                    yield
                    if not closed:
                        closed = True
                        if operation == 'close':
                            protocol.close()
                        else:
                            loss = OSError(errno.EIO, 'failed')
                            transport.abort(loss)
                        for wait in waits:
                            if wait[3] is None:
                                wait[3] = ('lost',)
                    yield
            yield
            if net.problems:
                fail(f'{net.problems}')
            protocols = {}
            for wait in waits:
                task, address, deadline, expected = wait
                outcome = outcome_of(task)
                if expected is None:
                    if outcome[0] != 'pending':
                        fail(f'waiting for {address} ended with {outcome}, though nothing arrived from there: {arrived}')
                    continue
                if expected[0] == 'timeout':
                    good = outcome == ('result', None)
                elif expected[0] == 'cancelled':
                    good = outcome[0] == 'cancelled'
                elif expected[0] == 'lost':
                    good = outcome[0] == 'exception' and isinstance(outcome[1], OSError)
                else:
                    good = outcome[0] == 'result'
                    if good:
                        value = outcome[1]
                        if address is None:
                            good = type(value) is tuple and len(value) == 2 and value[0] in ((expected[1],) if expected[0] == 'data' else expected[1])
                            if good:
                                address, value = value
                        if good:
                            if not isinstance(value, ReadProtocolBase):
                                good = False
                            elif protocols.setdefault(address, value) is not value:
                                fail(f'two readers for {address}')
                if not good:
                    fail(f'waiting for {wait[1]} ended with {outcome}; expected: {expected}; arrived: {arrived}')
            # every address has its own reader
            for address, data in arrived.items():
                task = Task(loop, protocol.wait_for_receive(address, 1.0))
                tasks.append(task)
                yield
                outcome = outcome_of(task)
                if outcome[0] != 'result' or not isinstance(outcome[1], ReadProtocolBase):
                    fail(f'waiting for data which arrived already ended with {outcome}')
                reader = outcome[1]
                if protocols.setdefault(address, reader) is not reader:
                    fail(f'two readers for {address}')
                task = Task(loop, reader.read_exactly(len(data)))
                tasks.append(task)
                yield
                outcome = outcome_of(task)
                if loss is None:
                    if outcome[0] != 'result' or bytes(outcome[1]) != data:
                        fail(f'reading what arrived from {address} gave {outcome} instead of {data}')
                task = Task(loop, reader.read_exactly(1))
                tasks.append(task)
                yield
                outcome = outcome_of(task)
                if closed:
                    if outcome[0] != 'exception' or not isinstance(outcome[1], (OSError, EOFError)):
                        fail(f'reading on after the connection is lost gave {outcome}')
                    if loss is not None and outcome[1] is not loss and outcome[1].__cause__ is not loss:
                        fail(f'reading on after the connection is lost by {loss!r} gave {outcome}')
                elif outcome[0] != 'pending':
                    fail(f'reading more than what arrived gave {outcome}')
            if len({id(reader) for reader in protocols.values()}) != len(protocols):
                fail('addresses share a reader')
            stats.evaluations += 1
            stats.nontrivial += bool(waits)
            stats.outcome(f'reading {sorted(str((wait[3] or ("pending",))[0]) for wait in waits)} {len(arrived)}')
            stats.state(repr(spec))
        finally:
            for task in tasks:
                task.cancel()
            if transport is not None:
                transport.abort()
            yield
            net.leave()
    return function


def merging_case(spec, stats):
    """spec : operations"""
    def function(env):
        from functools import partial
        from scarletio import Task
        from scarletio.core import DatagramMergerReadProtocol
        loop = env.loop

        def fail(message):
            raise Violation('merging: ' + message[:50], f'{spec}: {message}', ['merging', list(spec)])

        net = DatagramNet()
        net.enter(env)
        transport = None
        task = None
        try:
            socket = net.create(V4, DATAGRAM, state = 'new', remote = None)
            task = Task(loop, loop.create_datagram_connection_with(partial(DatagramMergerReadProtocol, loop), socket))
            yield
            protocol = outcome_of(task)[1]
            transport = protocol.get_transport()
            data = b''
            closed = False
            for index, operation in enumerate(spec):
                stats.transitions += 1
                if operation == 'close':
                    closed = True
                    protocol.close()
                elif not closed:
                    part = f'[{index}{operation}]'.encode()
                    data += part
                    socket.incoming.append((part, {'a': A, 'b': B}[operation]))
                yield
            task = Task(loop, protocol.read_exactly(len(data)))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result' or bytes(outcome[1]) != data:
                fail(f'reading gave {outcome} instead of {data}')
            task = Task(loop, protocol.read_exactly(1))
            yield
            if (outcome_of(task)[0] != 'pending') is not closed:
                fail(f'reading on gave {outcome_of(task)}')
            stats.evaluations += 1
            stats.nontrivial += 1
            stats.state(repr(spec))
        finally:
            if task is not None:
                task.cancel()
            if transport is not None:
                transport.abort()
            yield
            net.leave()
    return function


# ---- connecting

HOST = 'many.example'
LOCAL_HOST = 'local.example'
REMOTES = {'4': ('10.0.0.9', 9000), '6': ('fe80::9', 9000, 0, 3)}
LOCALS = {'4': ('10.1.0.1', 5000), '6': ('fe80::1', 5000, 0, 3)}


class Resolver:
    def __init__(self, env, remotes, locals_, mode):
        from scarletio.dns_query.requests import get_address_info_async
        self.original = get_address_info_async
        self.env = env
        self.answers = {HOST: remotes, LOCAL_HOST: locals_}
        self.mode = mode
        self.waiting = []
        self.problems = []
        self.undo = fakenet.patch_everywhere(get_address_info_async, self.resolve)

    async def resolve(self, event_loop, host_name, port, *positional, **keyword):
        if host_name not in self.answers:
            return await self.original(event_loop, host_name, port, *positional, **keyword)
        if self.mode == 'later':
            waiter = self.env.future()
            self.waiting.append(waiter)
            await waiter
        if self.mode == 'error':
            raise module_socket.gaierror(-2, 'Name or service not known')
        family = positional[0] if positional else 0
        return [(family_of(address), DATAGRAM, UDP, '', address) for address in self.answers[host_name] if family in (0, family_of(address))]


def connect_case(spec, stats):
    """
    spec : (local families or None, remote families or None, outcomes per family, family, options, fault, cancel)

    outcome of a family: ok, no-bind, no-connect, unsupported
    """
    def function(env):
        from scarletio import Task
        local, remote, outcomes, family, options, fault, cancel = spec
        loop = env.loop
        outcomes_of = dict(zip('46', outcomes))

        def fail(message):
            raise Violation('connecting: ' + message[:50], f'{spec}: {message}', ['connect', [local, remote, list(outcomes), family, list(options), fault, cancel]])

        net = DatagramNet()
        names = {V4: '4', V6: '6'}
        net.unsupported = {number for number, name in names.items() if outcomes_of[name] == 'unsupported'}

        def on_bind(socket, address):
            if address not in LOCALS.values() or family_of(address) != socket.family:
                net.problems.append(f'bound to {address}')
            if outcomes_of[names[socket.family]] == 'no-bind':
                return OSError(errno.EADDRINUSE, 'Address already in use')

        def on_connect(socket, address):
            if address not in REMOTES.values() or family_of(address) != socket.family:
                net.problems.append(f'connected to {address}')
            if outcomes_of[names[socket.family]] == 'no-connect':
                return OSError(errno.ENETUNREACH, 'Network is unreachable')
            return 'now'

        net.on_bind = on_bind
        net.on_connect = on_connect
        net.enter(env)
        resolver = Resolver(env, [REMOTES[name] for name in remote or ()], [LOCALS[name] for name in local or ()], fault if fault in ('later', 'error') else 'now')
        record = []
        Protocol = protocol_type()

        def factory():
            if fault == 'factory':
                raise KeyError('factory')
            return Protocol(record, fault if fault in ('close', 'abort') else None)

        try:
            keywords = {}
            if family:
                keywords['socket_family'] = {'4': V4, '6': V6}[family]
            if 'broadcast' in options:
                keywords['allow_broadcast'] = True
            if 'reuse' in options:
                keywords['reuse_port'] = True
            task = Task(loop, loop.create_datagram_connection_to(factory, None if local is None else (LOCAL_HOST, 5000), None if remote is None else (HOST, 9000), **keywords))
            if cancel is not None:
                def step(left):
                    if left:
                        loop.call_soon(step, left - 1)
                    else:
                        task.cancel()
                step(cancel)
            for _ in range(4):
                yield
                while resolver.waiting:
                    waiter = resolver.waiting.pop()
                    if not waiter.is_done():
                        waiter.set_result(None)
            yield
            outcome = outcome_of(task)
            stats.evaluations += 1
            stats.nontrivial += bool(net.sockets)
            # ---- what should happen
            def usable(name):
                return not family or family == name
            if local is None and remote is None:
                candidates = [family] if family else []
            else:
                candidates = [name for name in (local if local is not None else remote) if usable(name)]
                if local is not None and remote is not None:
                    candidates = [name for name in candidates if name in remote]
            chosen = None
            for name in candidates:
                what = outcomes_of[name]
                if what == 'unsupported' or (what == 'no-bind' and local is not None) or (what == 'no-connect' and remote is not None and 'broadcast' not in options):
                    continue
                chosen = name
                break
            if fault == 'error' and (local is not None or remote is not None):
                chosen = None
            open_sockets = net.open_sockets()
            if net.problems:
                fail(f'{net.problems}')
            if outcome[0] == 'pending':
                fail('still pending')
            if outcome[0] == 'cancelled' and cancel is not None:
                if open_sockets:
                    fail(f'cancelled, but open: {open_sockets}')
                if len([item for item in record if item[0] == 'made']) != len([item for item in record if item[0] == 'lost']):
                    fail(f'cancelled, protocol: {record}')
                stats.outcome('cancelled')
                return
            if chosen is None:
                if outcome[0] != 'exception' or not isinstance(outcome[1], (OSError, ValueError)):
                    fail(f'ended with {outcome}; nothing is usable')
                if open_sockets:
                    fail(f'failed, but open: {open_sockets}')
                if record:
                    fail(f'failed, protocol: {record}')
                if candidates and fault != 'error' and not isinstance(outcome[1], OSError):
                    fail(f'ended with {outcome}; expected the failure of the first address')
                stats.outcome('failed ' + type(outcome[1]).__name__)
                return
            if fault == 'factory':
                if outcome[0] != 'exception' or not isinstance(outcome[1], KeyError):
                    fail(f'ended with {outcome}; expected the exception of the factory')
                if open_sockets:
                    fail(f'failed, but open: {open_sockets}')
                stats.outcome('factory')
                return
            if outcome[0] != 'result':
                fail(f'ended with {outcome}; {chosen} is usable')
            protocol = outcome[1]
            if fault in ('close', 'abort'):
                yield
                if [item[0] for item in record] != ['made', 'lost'] or net.open_sockets() or net.registered():
                    fail(f'closed when made: {record}; {net.open_sockets()}; {net.registered()}')
                stats.outcome('closed when made')
                return
            if len(open_sockets) != 1 or record != [('made',)]:
                fail(f'open: {open_sockets}; protocol: {record}')
            socket = open_sockets[0]
            if names[socket.family] != chosen or socket.type != DATAGRAM:
                fail(f'family {names[socket.family]}; expected: {chosen}')
            if local is None:
                if socket.local is not None:
                    fail(f'bound to {socket.local}')
            elif socket.local != LOCALS[chosen]:
                fail(f'bound to {socket.local}')
            if remote is None or 'broadcast' in options:
                if socket.state == 'connected':
                    fail(f'connected to {socket.remote}')
            elif socket.state != 'connected' or socket.remote != REMOTES[chosen]:
                fail(f'connected to {socket.remote}')
            set_options = [(item[0], item[1], item[2]) for item in socket.options]
            if ((module_socket.SOL_SOCKET, module_socket.SO_BROADCAST, 1) in set_options) is not ('broadcast' in options):
                fail(f'options: {set_options}')
            if ((module_socket.SOL_SOCKET, module_socket.SO_REUSEPORT, 1) in set_options) is not ('reuse' in options):
                fail(f'options: {set_options}')
            # both ways
            transport = protocol.get_transport()
            if remote is None:
                transport.send_to(b'hello', REMOTES[chosen])
            else:
                transport.send_to(b'hello')
                transport.send_to(b'hello')
            if any((data, address) != (b'hello', REMOTES[chosen]) for data, address, _ in socket.datagrams) or len(socket.datagrams) != (1 if remote is None else 2):
                fail(f'sent: {socket.datagrams}')
            socket.incoming.append((b'answer', REMOTES[chosen]))
            yield
            if record[1:] != [('received', b'answer', REMOTES[chosen])]:
                fail(f'received: {record}')
            transport.close()
            yield
            if record[-1] != ('lost', None) or net.open_sockets() or net.registered() or net.problems:
                fail(f'closed: {record}; {net.open_sockets()}; {net.problems}')
            stats.outcome(f'ok {chosen}')
            stats.state(repr(spec))
        finally:
            resolver.undo()
            net.leave()
            task.cancel()
            yield
    return function


def unix_case(spec, stats):
    """spec : (what is at the local path, remote, cancel)"""
    def function(env):
        from scarletio import Task
        there, remote, wrong = spec
        loop = env.loop

        def fail(message):
            raise Violation('unix: ' + message[:50], f'{spec}: {message}', ['unix', list(spec)])

        directory = tempfile.mkdtemp(prefix = 'c36-')
        path = os.path.join(directory, 'socket')
        if there == 'socket':
            stale = module_socket.socket(UNIX, DATAGRAM)
            fakenet.RealSocket.bind(stale, path)
            fakenet.RealSocket.close(stale)
        elif there == 'file':
            with open(path, 'w') as file:
                file.write('precious')
        elif there == 'directory':
            os.mkdir(path)
        elif there == 'abstract':
            path = '\x00c36'
        net = DatagramNet()

        def on_bind(socket, address):
            if address != path:
                net.problems.append(f'bound to {address}')
            if address[0] != '\x00' and os.path.lexists(address):
                return OSError(errno.EADDRINUSE, 'Address already in use')

        net.on_bind = on_bind
        net.enter(env)
        record = []
        Protocol = protocol_type()
        try:
            far = os.path.join(directory, 'far') if remote else None
            if wrong == 'local':
                arguments = (('host', 5), far)
            elif wrong == 'remote':
                arguments = (path, ('host', 5))
            else:
                arguments = (path, far)
            task = Task(loop, loop.create_datagram_connection_to(lambda: Protocol(record), *arguments, socket_family = UNIX))
            yield
            outcome = outcome_of(task)
            stats.evaluations += 1
            stats.nontrivial += 1
            stats.outcome(f'unix {outcome[0]}')
            stats.state(repr(spec))
            if net.problems:
                fail(f'{net.problems}')
            if there == 'file' and open(path).read() != 'precious':
                fail('a file was lost')
            if there == 'directory' and not os.path.isdir(path):
                fail('a directory was lost')
            if wrong:
                if outcome[0] != 'exception' or not isinstance(outcome[1], TypeError) or net.open_sockets():
                    fail(f'ended with {outcome}; {net.open_sockets()}')
                return
            if there in ('file', 'directory'):
                if outcome[0] != 'exception' or not isinstance(outcome[1], OSError) or net.open_sockets():
                    fail(f'ended with {outcome}; {net.open_sockets()}')
                return
            if outcome[0] != 'result' or len(net.open_sockets()) != 1:
                fail(f'ended with {outcome}; {net.open_sockets()}')
            socket = net.open_sockets()[0]
            if socket.local != path or (remote and (socket.state != 'connected' or socket.remote != far)):
                fail(f'{socket}')
            outcome[1].get_transport().close()
            yield
            if net.open_sockets() or record[-1] != ('lost', None):
                fail(f'closed: {record}')
        finally:
            net.leave()
            task.cancel()
            yield
            shutil.rmtree(directory)
    return function


OPTIONS = ((), ('broadcast',), ('reuse',), ('broadcast', 'reuse'))
FAMILY_OUTCOMES = ('ok', 'no-bind', 'no-connect', 'unsupported')


class DatagramCheck(Check):
    id = 'C36'
    rule = 'at least one datagram was sent or received, or a socket was created'
    job_timeout = {'quick': 400.0, 'thorough': 2700.0}
    assumptions = [
        'sockets are stand-ins: the kernel takes a datagram whole, refuses it, or asks to wait; it is not asked about datagrams bigger than it can take',
        'what is sent after `close` may or may not be sent',
        'resolving is a stand-in (C23 checks it)',
    ]

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        jobs = [('unix',), ('merging',)]
        for local in (None, '4', '6', '46', '64'):
            for remote in (None, '4', '6', '46', '64'):
                jobs.append(('connect', local, remote))
        for mode in MODES:
            for settle in (True, False):
                for first in OPERATIONS:
                    jobs.append(('transport', mode, settle, first, 3 if tier == 'quick' else 4))
                for first in CORE:
                    jobs.append(('core', mode, settle, first, 5 if tier == 'quick' else 6))
        for settle in (True, False):
            for first in READ_OPERATIONS:
                jobs.append(('reading', settle, first, 4 if tier == 'quick' else 5))
        return jobs

    def cases(self, job, stats):
        if job[0] == 'unix':
            for there in ('', 'socket', 'file', 'directory', 'abstract'):
                for remote in (False, True):
                    for wrong in ('', 'local', 'remote'):
                        yield unix_case((there, remote, wrong), stats)
        elif job[0] == 'merging':
            for length in range(1, 6):
                for spec in product(('a', 'b', 'close'), repeat = length):
                    yield merging_case(spec, stats)
        elif job[0] == 'connect':
            _, local, remote = job
            for outcomes in product(FAMILY_OUTCOMES, repeat = 2):
                for family in ('', '4', '6'):
                    for options in OPTIONS:
                        for fault in ('', 'later', 'error', 'factory', 'close', 'abort'):
                            if fault and len(options) == 2:
                                continue
                            yield connect_case((local, remote, outcomes, family, options, fault, None), stats)
                            if options == () and fault in ('', 'later'):
                                for cancel in range(0, 9):
                                    yield connect_case((local, remote, outcomes, family, options, fault, cancel), stats)
        elif job[0] in ('transport', 'core'):
            _, mode, settle, first, depth = job
            alphabet = OPERATIONS if job[0] == 'transport' else CORE
            for at_error in (None, 'close', 'abort') if job[0] == 'core' else (None,):
                for length in range(1, depth + 1):
                    sequences = Sequences(alphabet, length, (first,))
                    for operations in sequences:
                        if job[0] == 'core' and length == 5 and not settle and at_error is not None and len(set(operations)) < 4:
                            continue
                        if at_error is not None and 'refuse' not in operations:
                            continue
                        yield transport_case((mode, settle, at_error, operations), stats, sequences)
        else:
            _, settle, first, depth = job
            for length in range(1, depth + 1):
                for rest in product(READ_OPERATIONS, repeat = length - 1):
                    yield reading_case((settle, (first, *rest)), stats)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, stats), stats, job)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        kind, spec = artefact
        def tuples(value):
            return tuple(tuples(item) for item in value) if isinstance(value, (list, tuple)) else value
        maker = {'transport': transport_case, 'reading': reading_case, 'merging': merging_case, 'connect': connect_case, 'unix': unix_case}[kind]
        run_one(maker(tuples(spec), stats), stats)


CHECK = DatagramCheck()
