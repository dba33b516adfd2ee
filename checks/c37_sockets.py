"""
C37: connections and servers of the event loop: every connection ends up with exactly one protocol, every socket is used once and closed once.
"""
import errno, gc, socket as module_socket
from itertools import product

from mc.base import CLOCK, Check, Violation
from mc import fakenet
from mc.vloop import quiet_stderr
from mc.wire import outcome_of, run_cases, run_one

V4 = module_socket.AF_INET
V6 = module_socket.AF_INET6
STREAM = module_socket.SOCK_STREAM
TCP = module_socket.IPPROTO_TCP

ADDRESSES = (('10.0.0.1', 4000), ('fe80::2', 4000, 0, 3), ('10.0.0.3', 4000))
LOCALS = (('10.1.0.1', 5000), ('10.1.0.2', 5000))
HOST = 'many.example'
LOCAL_HOST = 'local.example'


def family_of(address):
    return V6 if ':' in address[0] else V4


_protocol_type = None


def protocol_type():
    global _protocol_type
    if _protocol_type is None:
        from scarletio.core.protocols_and_transports import AbstractProtocolBase

        class Protocol(AbstractProtocolBase):
            def __init__(self, record):
                self.record = record
                self.transport = None
                self.made = 0
                self.lost = []
                self.data = b''
                self.eof = 0
                record.append(self)

            def connection_made(self, transport):
                self.made += 1
                self.transport = transport

            def connection_lost(self, exception):
                self.lost.append(exception)

            def data_received(self, data):
                self.data += bytes(data)

            def eof_received(self):
                self.eof += 1
                return False

            def pause_writing(self):
                pass

            def resume_writing(self):
                pass

            def get_transport(self):
                return self.transport

        _protocol_type = Protocol
    return _protocol_type


class Resolver:
    """Answers for the names of the tables, leaves the rest (ip addresses) to the real one."""
    def __init__(self, env, infos, locals_, mode):
        from scarletio.dns_query.requests import get_address_info_async
        self.original = get_address_info_async
        self.env = env
        self.infos = infos
        self.locals = locals_
        self.mode = mode
        self.waiting = []
        self.undo = fakenet.patch_everywhere(get_address_info_async, self.resolve)

    async def resolve(self, event_loop, host_name, port, *positional, **keyword):
        if host_name not in (HOST, LOCAL_HOST):
            return await self.original(event_loop, host_name, port, *positional, **keyword)
        if self.mode == 'later' or (self.mode == 'local-later' and host_name == LOCAL_HOST):
            waiter = self.env.future()
            self.waiting.append(waiter)
            await waiter
        if self.mode == 'error' or (self.mode == 'local-error' and host_name == LOCAL_HOST):
            raise module_socket.gaierror(-2, 'Name or service not known')
        addresses = self.infos if host_name == HOST else self.locals
        return [(family_of(address), STREAM, TCP, '', address) for address in addresses]


OUTCOMES = ('ok', 'late', 'refuse', 'late-refuse', 'no-family', 'never')


class ConnectNet(fakenet.Net):
    def __init__(self, outcomes, binds):
        fakenet.Net.__init__(self)
        self.outcomes = dict(outcomes)
        self.binds = binds

    def on_connect(self, socket, address):
        if address not in self.outcomes:
            self.problems.append(f'connecting to an other address: {address}')
            return OSError(errno.EINVAL, 'Invalid argument')
        outcome = self.outcomes[address]
        if socket.fake_family != family_of(address):
            self.problems.append(f'socket of an other family for {address}')
        if outcome == 'ok':
            return 'now'
        if outcome == 'refuse':
            return ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        return 'later'

    def on_bind(self, socket, address):
        if address not in self.binds:
            self.problems.append(f'binding to an other address: {address}')
            return None
        if self.binds[address] == 'fail':
            return OSError(errno.EADDRINUSE, 'Address already in use')
        return None

    def proceed(self):
        """Completes one connecting which is to complete."""
        for socket in self.open_sockets():
            if socket.state == 'connecting':
                outcome = self.outcomes[socket.remote]
                if outcome == 'late':
                    self.finish(socket)
                    return True
                if outcome == 'late-refuse':
                    self.finish(socket, errno.ECONNREFUSED)
                    return True
        return False


def check_clean(net, fail, allowed = ()):
    for problem in net.problems:
        fail(problem)
    for socket in net.open_sockets():
        if socket not in allowed:
            fail(f'socket left open: {socket}')
    for socket in net.registered():
        if socket not in allowed:
            fail(f'socket left registered: {socket}')


def expected_connection(outcomes, binds, resolver):
    """('ok', index of the address) / ('error',) / ('never',); and the addresses connected to."""
    tried = []
    if resolver in ('error', 'local-error' if binds is not None else 'error'):
        return ('error',), tried
    for index, outcome in enumerate(outcomes):
        if outcome == 'no-family':
            continue
        if binds is not None and 'ok' not in binds:
            continue
        tried.append(ADDRESSES[index])
        if outcome in ('ok', 'late'):
            return ('ok', index), tried
        if outcome == 'never':
            return ('never',), tried
    return ('error',), tried


def exchange(env, net, protocol, socket, fail, server = False):
    """The connection has to work, and closing it has to close the socket."""
    transport = protocol.get_transport()
    if transport is None:
        fail('not connected after it is returned')
    transport.write(b'question')
    yield
    if bytes(socket.sent) != b'question':
        fail(f'written data did not arrive: {bytes(socket.sent)}')
    socket.incoming.append(b'answer')
    yield
    if hasattr(protocol, 'record'):
        if protocol.data != b'answer' or protocol.made != 1 or protocol.lost:
            fail(f'received {protocol.data}, made {protocol.made}, lost {protocol.lost}')
    transport.close()
    yield
    if socket.state != 'closed':
        fail('closing the connection left its socket open')
    if hasattr(protocol, 'record') and protocol.lost != [None]:
        fail(f'losing the connection told: {protocol.lost}')


def connect_case(spec, stats):
    """
    spec : (api, outcomes, binds, resolver, cancel)
    """
    def function(env):
        from scarletio import Task
        api, outcomes, binds, resolver_mode, cancel = spec
        loop = env.loop
        artefact = ['connect', [api, list(outcomes), None if binds is None else list(binds), resolver_mode, cancel]]

        def fail(message):
            raise Violation(message[:50], f'{spec}: {message}', artefact)

        net = ConnectNet(zip(ADDRESSES, outcomes), dict(zip(LOCALS, binds or ())))
        if 'no-family' in outcomes:
            net.unsupported.update(family_of(address) for address, outcome in zip(ADDRESSES, outcomes) if outcome == 'no-family')
        net.enter(env)
        resolver = Resolver(env, ADDRESSES[:len(outcomes)], LOCALS[:len(binds or ())], resolver_mode)
        record = []
        Protocol = protocol_type()

        def factory():
            if resolver_mode == 'factory-error':
                raise KeyError('factory')
            return Protocol(record)

        try:
            keywords = {}
            if binds is not None:
                keywords['local_address'] = (LOCAL_HOST, 5000)
            coroutine = loop.create_connection_to(factory, HOST, 4000, **keywords)
            task = Task(loop, coroutine)
            if cancel is not None:
                def step(left):
                    if left:
                        loop.call_soon(step, left - 1)
                    else:
                        task.cancel()
                step(cancel)
            for _ in range(12):
                yield
                if resolver.waiting:
                    waiter = resolver.waiting.pop(0)
                    if not waiter.is_done():
                        waiter.set_result(None)
                elif not net.proceed():
                    break
            outcome = outcome_of(task)
            expected, tried = expected_connection(outcomes, binds, resolver_mode)
            if resolver_mode == 'factory-error' and expected[0] == 'ok':
                expected = ('factory-error',)
            stats.evaluations += 1
            stats.transitions += len(net.calls)
            if len(net.calls) > 1:
                stats.nontrivial += 1
            connected = [address for kind, socket, address in net.calls if kind == 'connect']
            if connected != tried[:len(connected)]:
                fail(f'connected to {connected}; expected: {tried}')
            if cancel is not None and outcome[0] == 'cancelled':
                yield 3.0
                check_clean(net, fail)
                stats.outcome('cancelled')
                return
            if outcome[0] == 'pending':
                if expected != ('never',):
                    fail(f'still pending; expected: {expected}')
                task.cancel()
                yield
                if outcome_of(task)[0] != 'cancelled':
                    fail(f'cancellation ended with {outcome_of(task)}')
                check_clean(net, fail)
                stats.outcome('never')
                return
            if connected != tried:
                fail(f'connected to {connected} only; expected: {tried}')
            if expected[0] == 'error':
                if outcome[0] != 'exception' or not isinstance(outcome[1], OSError):
                    fail(f'ended with {outcome}; expected an `OSError`')
                check_clean(net, fail)
                stats.outcome('error')
                return
            if expected[0] == 'factory-error':
                if outcome[0] != 'exception' or not isinstance(outcome[1], KeyError):
                    fail(f'ended with {outcome}; expected the exception of the factory')
                check_clean(net, fail)
                stats.outcome('factory-error')
                return
            if expected[0] != 'ok' or outcome[0] != 'result':
                fail(f'ended with {outcome}; expected: {expected}')
            protocol = outcome[1]
            open_sockets = net.open_sockets()
            if len(open_sockets) != 1 or open_sockets[0].remote != ADDRESSES[expected[1]]:
                fail(f'sockets open after connecting: {open_sockets}')
            if api == 'create' and record != [protocol]:
                fail(f'protocols made: {record}')
            check_clean(net, fail, open_sockets)
            yield from exchange(env, net, protocol, open_sockets[0], fail)
            check_clean(net, fail)
            stats.outcome(f'ok {expected[1]}')
            stats.state(repr(spec))
        finally:
            resolver.undo()
            net.leave()
    return function


def connect_with_case(spec, stats):
    """spec : (api, outcome, cancel)"""
    def function(env):
        from scarletio import Task
        api, outcome_wanted, cancel = spec
        loop = env.loop
        artefact = ['with', list(spec)]

        def fail(message):
            raise Violation(message[:50], f'{spec}: {message}', artefact)

        path = '/scratch/socket'
        net = ConnectNet({path: outcome_wanted}, {})
        net.on_connect = lambda socket, address: 'now' if outcome_wanted == 'ok' else (ConnectionRefusedError(errno.ECONNREFUSED, 'refused') if outcome_wanted == 'refuse' else 'later')
        net.enter(env)
        record = []
        Protocol = protocol_type()

        def factory():
            if outcome_wanted == 'factory-error':
                raise KeyError('factory')
            return Protocol(record)

        try:
            socket = None
            if api == 'unix':
                coroutine = loop.create_unix_connection_to(factory, path)
            elif api == 'open-unix':
                coroutine = loop.open_unix_connection_to(path)
            else:
                socket = net.create(module_socket.AF_UNIX if api.endswith('unix-with') else V4)
                if api == 'with':
                    coroutine = loop.create_connection_with(factory, socket)
                elif api == 'accepted':
                    coroutine = loop.connect_accepted_socket(factory, socket)
                elif api == 'unix-with':
                    coroutine = loop.create_unix_connection_with(factory, socket)
                elif api == 'open-unix-with':
                    coroutine = loop.open_unix_connection_with(socket)
            task = Task(loop, coroutine)
            if cancel is not None:
                def step(left):
                    if left:
                        loop.call_soon(step, left - 1)
                    else:
                        task.cancel()
                step(cancel)
            yield
            for other in net.open_sockets():
                if other.state == 'connecting':
                    net.finish(other, errno.ECONNREFUSED if outcome_wanted == 'late-refuse' else 0)
            yield
            stats.evaluations += 1
            stats.nontrivial += 1
            outcome = outcome_of(task)
            stats.outcome(f'{api} {outcome[0]}')
            if outcome[0] == 'cancelled':
                if cancel is None:
                    fail('cancelled')
                # a socket given by the caller, whose task did not even start is left to them
                check_clean(net, fail, [socket] if socket is not None and cancel == 0 else ())
                return
            if outcome_wanted == 'factory-error':
                if outcome[0] != 'exception' or not isinstance(outcome[1], KeyError):
                    fail(f'ended with {outcome}')
                check_clean(net, fail, () if socket is None else (socket,))
                return
            if outcome_wanted.endswith('refuse'):
                if outcome[0] != 'exception' or not isinstance(outcome[1], OSError):
                    fail(f'ended with {outcome}')
                check_clean(net, fail)
                return
            if outcome[0] != 'result':
                fail(f'ended with {outcome}')
            if len(net.open_sockets()) != 1:
                fail(f'sockets open after connecting: {net.open_sockets()}')
            yield from exchange(env, net, outcome[1], net.open_sockets()[0], fail)
            check_clean(net, fail)
            stats.state(repr(spec))
        finally:
            net.leave()
    return function


# ---- servers

class ServerNet(fakenet.Net):
    def __init__(self, binds = None):
        fakenet.Net.__init__(self)
        self.binds = binds

    def on_bind(self, socket, address):
        if self.binds is not None and self.binds.get(address) == 'fail':
            return OSError(errno.EADDRINUSE, 'Address already in use')
        return None


HOSTS = {'a': ('10.0.0.1',), 'b': ('10.0.0.2',), 'ab': ('10.0.0.1', '10.0.0.2'), 'six': ('fe80::2',), 'none': None, 'both': ('10.0.0.1', 'fe80::2')}


def listen_case(spec, stats):
    """
    Creating a server. spec : (hosts, outcomes of binding, unsupported families, cancel)
    """
    def function(env):
        from scarletio import Task
        hosts, binds, unsupported, cancel = spec
        loop = env.loop
        artefact = ['listen', [hosts, list(binds), unsupported, cancel]]

        def fail(message):
            raise Violation(message[:50], f'{spec}: {message}', artefact)

        host = HOSTS[hosts]
        places = ('127.0.0.1', '::1') if host is None else host
        net = ServerNet()
        outcome_by_host = dict(zip(places, binds))
        net.on_bind = lambda socket, address: OSError(errno.EADDRINUSE, 'Address already in use') if outcome_by_host[address[0]] == 'fail' else None
        if unsupported:
            net.unsupported.add({'4': V4, '6': V6}[unsupported])
        net.enter(env)
        record = []
        Protocol = protocol_type()
        try:
            parameter = None if host is None else (host[0] if len(host) == 1 else list(host))
            task = Task(loop, loop.create_server_to(lambda: Protocol(record), parameter, 4000))
            if cancel is not None:
                def step(left):
                    if left:
                        loop.call_soon(step, left - 1)
                    else:
                        task.cancel()
                step(cancel)
            yield
            stats.evaluations += 1
            stats.nontrivial += 1
            outcome = outcome_of(task)
            stats.outcome(outcome[0])
            if outcome[0] == 'cancelled':
                if cancel is None:
                    fail('cancelled')
                check_clean(net, fail)
                return
            usable = [place for place in places if {'4': V4, '6': V6}.get(unsupported) != (V6 if ':' in place else V4)]
            if not usable or any(outcome_by_host[place] == 'fail' for place in usable):
                if outcome[0] != 'exception' or not isinstance(outcome[1], OSError):
                    fail(f'created though it could not be bound: {outcome}')
                check_clean(net, fail)
                return
            if outcome[0] != 'result':
                fail(f'ended with {outcome}')
            server = outcome[1]
            bound = sorted(socket.local[0] for socket in net.open_sockets())
            if bound != sorted(usable):
                fail(f'bound to {bound}; expected: {usable}')
            if any(socket.state != 'bound' for socket in net.open_sockets()) or net.registered():
                fail('accepts before it is started')
            task = Task(loop, server.start())
            yield
            if outcome_of(task) != ('result', None):
                fail(f'starting ended with {outcome_of(task)}')
            listeners = net.open_sockets()
            if any(socket.state != 'listening' for socket in listeners) or len(net.registered()) != len(usable):
                fail('does not listen though it is started')
            for count, listener in enumerate(listeners, 1):
                client = net.create(listener.fake_family)
                listener.accepting.append(client)
                yield
                if len(record) != count or record[-1].made != 1:
                    fail(f'connection not accepted on {listener}')
            server.close()
            yield
            if any(listener.state != 'closed' for listener in listeners):
                fail('listening socket open after the server is closed')
            for protocol in record:
                protocol.transport.close()
            yield
            check_clean(net, fail)
            stats.state(repr(spec))
        finally:
            net.leave()
    return function


SERVER_OPERATIONS = ('start', 'connect', 'connect-2', 'client-close', 'client-reset', 'close-connection', 'close', 'wait', 'cancel-wait', 'no-files', 'aborted', 'factory-error', 'time')


def server_case(spec, stats):
    """
    The life of a server. spec : (kind, mode, operations). mode: `settle`: the loop settles after each operation; `tight`: not.
    """
    def function(env):
        from scarletio import Task
        kind, mode, operations = spec
        loop = env.loop
        artefact = ['server', [kind, mode, list(operations)]]

        def fail(message):
            raise Violation(message[:50], f'{spec}: {message}', artefact)

        net = ServerNet()
        net.enter(env)
        record = []
        errors = [0]
        Protocol = protocol_type()

        def factory():
            if errors[0]:
                errors[0] -= 1
                raise KeyError('factory')
            return Protocol(record)

        listeners = []
        clients = []
        waiters = []
        started = False
        closed = False
        refused = 0
        paused = 0

        def live():
            return [protocol for protocol in record if protocol.made and not protocol.lost]

        def check(final):
            for problem in net.problems:
                fail(problem)
            for protocol in record:
                if protocol.made > 1 or len(protocol.lost) > 1:
                    fail(f'connection made {protocol.made} times, lost {len(protocol.lost)} times')
                if protocol.made != 1:
                    fail('accepted connection not handed over')
            transports = [protocol.transport for protocol in record]
            accepted = [client for client in clients if client not in listeners[0].accepting]
            if len(accepted) != len(record) + (refused - errors[0]):
                fail(f'{len(accepted)} accepted connections, {len(record)} protocols, {refused - errors[0]} failures')
            open_clients = [client for client in accepted if client.state != 'closed']
            if len(open_clients) != len(live()):
                fail(f'{len(open_clients)} open sockets, {len(live())} connections')
            if len({id(transport) for transport in transports}) != len(transports):
                fail('transport shared')
            if started and not closed:
                if listeners[0].state != 'listening':
                    fail('does not listen')
                waiting = [item for item in listeners[0].accepting if not isinstance(item, BaseException)]
                if waiting and not paused:
                    fail('waiting connection not accepted')
            if closed:
                if any(listener.state != 'closed' for listener in listeners):
                    fail('listening socket open after the server is closed')
            for waiter, since in waiters:
                outcome = outcome_of(waiter)
                if outcome[0] == 'exception':
                    fail(f'waiting for closing raised {outcome[1]!r}')
                if outcome[0] == 'result' and not closed and not since:
                    fail('waiting for closing ended before it is closed')
                if outcome[0] == 'pending' and closed and not live():
                    fail('waiting for closing never ends')

        try:
            if kind == 'tcp':
                task = Task(loop, loop.create_server_to(factory, '10.0.0.1', 4000))
            elif kind == 'with':
                task = Task(loop, loop.create_server_with(factory, net.create(V4, STREAM, 'bound')))
            else:
                task = Task(loop, loop.create_unix_server_to(factory, '\x00scratch'))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result':
                fail(f'creating ended with {outcome}')
            server = outcome[1]
            listeners.extend(net.open_sockets())
            starting = None
            done = 0
            for operation in operations:
                listener = listeners[0]
                if operation == 'start':
                    if closed or started:
                        stats.count('skipped')
                        break
                    starting = Task(loop, server.start())
                    started = True
                elif operation in ('connect', 'connect-2'):
                    if not started or closed:
                        break
                    for _ in range(1 if operation == 'connect' else 2):
                        client = net.create(listener.fake_family)
                        clients.append(client)
                        listener.accepting.append(client)
                elif operation in ('client-close', 'client-reset', 'close-connection'):
                    protocols = live()
                    if not protocols:
                        break
                    protocol = protocols[0]
                    if operation == 'close-connection':
                        protocol.transport.close()
                    else:
                        socket = [client for client in clients if client.state != 'closed' and client not in listener.accepting][0]
                        socket.incoming.append(b'' if operation == 'client-close' else ConnectionResetError(errno.ECONNRESET, 'reset'))
                elif operation == 'close':
                    server.close()
                    closed = True
                elif operation == 'wait':
                    waiters.append((Task(loop, server.wait_closed()), closed))
                elif operation == 'cancel-wait':
                    pending = [waiter for waiter, since in waiters if not waiter.is_done()]
                    if not pending:
                        break
                    pending[0].cancel()
                elif operation == 'no-files':
                    if not started or closed:
                        break
                    listener.accepting.append(OSError(errno.EMFILE, 'Too many open files'))
                    paused += 1
                elif operation == 'aborted':
                    if not started or closed:
                        break
                    listener.accepting.append(ConnectionAbortedError(errno.ECONNABORTED, 'Software caused connection abort'))
                elif operation == 'factory-error':
                    errors[0] += 1
                    refused += 1
                elif operation == 'time':
                    yield 1.5
                    paused = max(paused - 1, 0)
                done += 1
                if mode == 'settle':
                    yield
                    check(False)
                stats.transitions += 1
            stats.evaluations += 1
            if record:
                stats.nontrivial += 1
            yield 6.0
            paused = 0
            check(True)
            # the end
            server.close()
            closed = True
            for protocol in live():
                protocol.transport.close()
            for client in clients:
                if client in listeners[0].accepting:
                    client.close()
            yield 3.0
            check(True)
            late = Task(loop, server.wait_closed())
            yield
            if outcome_of(late) != ('result', None):
                fail(f'waiting for closing after it is closed: {outcome_of(late)}')
            check_clean(net, fail)
            stats.outcome(f'{len(record)} connections')
            stats.state(repr((kind, mode, operations[:done])))
        finally:
            net.leave()
    return function


# ---- plain socket operations

def socket_case(spec, stats):
    """spec : (api, plan, cancel)"""
    def function(env):
        from scarletio import Task
        api, plan, cancel = spec
        loop = env.loop
        artefact = ['socket', [api, list(plan), cancel]]

        def fail(message):
            raise Violation(message[:50], f'{spec}: {message}', artefact)

        net = fakenet.Net()
        net.enter(env)
        try:
            def start():
                nonlocal buffer
                if api == 'receive':
                    return loop.socket_receive(socket, 4)
                if api == 'receive-into':
                    buffer = bytearray(4)
                    return loop.socket_receive_into(socket, buffer)
                if api == 'accept':
                    return loop.socket_accept(socket)
                if api == 'send-all':
                    return loop.socket_send_all(socket, payload)
                if api == 'connect':
                    return loop.socket_connect(socket, ('10.0.0.1', 80))
                raise RuntimeError

            buffer = None
            payload = b'0123456789'
            socket = net.create(V4, STREAM, 'listening' if api == 'accept' else ('new' if api == 'connect' else 'connected'))
            net.on_connect = lambda socket, address: 'now' if plan[0] == 'ok' else ('later' if plan[0] == 'wait' else ConnectionRefusedError(errno.ECONNREFUSED, 'refused'))
            supplied = bytearray()

            def act(step):
                """The far side acts."""
                if api in ('receive', 'receive-into'):
                    if step == 'error':
                        socket.incoming.append(ConnectionResetError(errno.ECONNRESET, 'reset'))
                    elif step == 'eof':
                        socket.incoming.append(b'')
                    elif step != 'wait':
                        socket.incoming.append(step.encode())
                        supplied.extend(step.encode())
                elif api == 'accept':
                    if step == 'error':
                        socket.accepting.append(ConnectionResetError(errno.ECONNRESET, 'reset'))
                    elif step != 'wait':
                        socket.accepting.append(net.create())
                elif api == 'send-all':
                    if step == 'error':
                        socket.error = errno.ECONNRESET
                        socket.room = 1
                    elif step != 'wait':
                        socket.room += int(step)
                elif api == 'connect':
                    if step == 'ok':
                        net.finish(socket)
                    elif step == 'error':
                        net.finish(socket, errno.ECONNREFUSED)

            if api == 'send-all':
                socket.room = 0
            if api != 'connect':
                act(plan[0])
            task = Task(loop, start())
            cancelled = False
            for index in range(len(plan)):
                if index:
                    act(plan[index])
                if cancel == index:
                    task.cancel()
                    cancelled = True
                yield
                if cancel == index + 10 and not task.is_done():
                    task.cancel()
                    cancelled = True
                    yield
            yield
            stats.evaluations += 1
            if len(plan) > 1:
                stats.nontrivial += 1
            outcome = outcome_of(task)
            stats.outcome(f'{api} {outcome[0]}')
            for problem in net.problems:
                fail(problem)
            if net.registered() and task.is_done():
                fail('socket left registered')
            got_error = 'error' in plan
            if outcome[0] == 'cancelled':
                if not cancelled:
                    fail('cancelled')
                if api in ('receive', 'receive-into'):
                    kept = b''.join(item for item in socket.incoming if isinstance(item, bytes))
                    if kept != bytes(supplied):
                        fail(f'cancelled operation consumed data: {kept} left of {bytes(supplied)}')
                elif api == 'accept' and len(socket.accepting) != len([step for step in plan if step != 'wait']):
                    fail('cancelled operation accepted a connection')
            elif outcome[0] == 'pending':
                if api == 'send-all':
                    if len(socket.sent) == len(payload) or got_error:
                        fail('still pending')
                elif any(step != 'wait' for step in plan):
                    fail('still pending')
            elif outcome[0] == 'exception':
                if not isinstance(outcome[1], OSError) or not (got_error or (api == 'connect' and plan[0] == 'refuse')):
                    fail(f'raised {outcome[1]!r}')
            else:
                value = outcome[1]
                first = [step for step in plan if step != 'wait']
                if api in ('receive', 'receive-into'):
                    if api == 'receive-into':
                        value = bytes(buffer[:value])
                    expected = b'' if first[0] == 'eof' else first[0].encode()[:4]
                    if first[0] == 'error' or value != expected:
                        fail(f'received {value}; expected: {expected}')
                    kept = b''.join(item for item in socket.incoming if isinstance(item, bytes))
                    if value + kept != bytes(supplied):
                        fail(f'received {value}, left {kept} of {bytes(supplied)}')
                elif api == 'accept':
                    if first[0] == 'error' or value[0].remote != value[1] or value[0].was_blocking:
                        fail(f'accepted {value}')
                elif api == 'send-all':
                    if bytes(socket.sent) != payload:
                        fail(f'sent {bytes(socket.sent)}')
                elif api == 'connect':
                    if first[0] != 'ok' or socket.remote != ('10.0.0.1', 80):
                        fail(f'connected to {socket.remote} though {plan}')
            if api == 'send-all' and not payload.startswith(bytes(socket.sent)):
                fail(f'sent {bytes(socket.sent)}')
            stats.state(repr(spec))
            task.cancel()
            yield
            if net.registered():
                fail('socket left registered')
        finally:
            net.leave()
    return function


def tolerated(exception):
    return isinstance(exception, KeyError) and exception.args == ('factory',) or isinstance(exception, OSError) and exception.errno == errno.EMFILE


class SocketCheck(Check):
    id = 'C37'
    rule = 'more than one attempt was made / a connection was made'
    job_timeout = {'quick': 300.0, 'thorough': 2700.0}
    assumptions = [
        'sockets and the selector are stand-ins (level triggered; connecting is asynchronous or immediate, as decided by the harness); names are resolved by a stand-in, ip addresses by the code under test',
        'waiting for a server started after it is closed may end at once, even if connections are alive (the web socket server depends on it)',
    ]

    def jobs(self, tier):
        jobs = []
        for length in (1, 2, 3):
            for first in OUTCOMES:
                jobs.append(('connect', length, first, tier))
        jobs.append(('with', tier))
        jobs.append(('listen', tier))
        for kind in ('tcp', 'with', 'unix'):
            for mode in ('settle', 'tight'):
                for second in SERVER_OPERATIONS[1:]:
                    depth = 5 if kind == 'tcp' else 4
                    jobs.append(('server', kind, mode, second, depth + (tier != 'quick')))
        for api in ('receive', 'receive-into', 'accept', 'send-all', 'connect'):
            jobs.append(('socket', api, 4 if tier == 'quick' else 5))
        return jobs

    def cases(self, job, stats):
        if job[0] == 'connect':
            _, length, first, tier = job
            for rest in product(OUTCOMES, repeat = length - 1):
                outcomes = (first, *rest)
                families = {}
                valid = True
                for address, outcome in zip(ADDRESSES, outcomes):
                    family = family_of(address)
                    if families.setdefault(family, outcome == 'no-family') != (outcome == 'no-family'):
                        valid = False
                if not valid:
                    continue
                for binds in (None, ('ok',), ('fail',), ('fail', 'ok'), ('fail', 'fail')):
                    for resolver in ('now', 'later', 'error', 'factory-error', 'local-later', 'local-error'):
                        if binds is None and resolver.startswith('local'):
                            continue
                        if resolver != 'now' and length == 3 and tier == 'quick' and rest[-1] != 'ok':
                            continue
                        if binds not in (None, ('fail', 'ok')) and resolver not in ('now', 'later'):
                            continue
                        for api in ('create',):
                            yield connect_case((api, outcomes, binds, resolver, None), stats)
                            if api == 'create' and (length < 3 or tier != 'quick' or binds is None):
                                for cancel in range(0, 14):
                                    yield connect_case((api, outcomes, binds, resolver, cancel), stats)
        elif job[0] == 'with':
            for api in ('unix', 'open-unix', 'with', 'accepted', 'unix-with', 'open-unix-with'):
                for outcome in ('ok', 'late', 'refuse', 'late-refuse', 'factory-error'):
                    if not api.endswith('unix') and outcome not in ('ok', 'factory-error'):
                        continue
                    if api.startswith('open') and outcome == 'factory-error':
                        continue
                    for cancel in (None, *range(0, 8)):
                        yield connect_with_case((api, outcome, cancel), stats)
        elif job[0] == 'listen':
            for hosts, places in HOSTS.items():
                count = 2 if places is None else len(places)
                for binds in product(('ok', 'fail'), repeat = count):
                    for unsupported in ('', '4', '6'):
                        for cancel in (None, *range(0, 8)):
                            yield listen_case((hosts, binds, unsupported, cancel), stats)
        elif job[0] == 'server':
            _, kind, mode, second, depth = job
            for length in range(depth - 1):
                for rest in product(SERVER_OPERATIONS[1:], repeat = length):
                    yield server_case((kind, mode, ('start', second, *rest)), stats)
            for length in range(2):
                for rest in product(SERVER_OPERATIONS, repeat = length):
                    yield server_case((kind, mode, (second, *rest)), stats)
        elif job[0] == 'socket':
            _, api, depth = job
            if api in ('receive', 'receive-into'):
                steps = ('wait', 'ab', 'cdefgh', 'eof', 'error')
            elif api == 'accept':
                steps = ('wait', 'ok', 'error')
            elif api == 'send-all':
                steps = ('wait', '1', '4', '20', 'error')
            else:
                steps = ('wait', 'ok', 'error')
            for length in range(1, depth + 1):
                for plan in product(steps, repeat = length):
                    if api in ('receive', 'receive-into') and 'eof' in plan[:-1]:
                        continue
                    if api == 'connect' and len([step for step in plan if step != 'wait']) > 1:
                        continue
                    for cancel in (None, *range(length), *range(10, 10 + length)):
                        yield socket_case((api, plan, cancel), stats)
            if api == 'connect':
                yield socket_case((api, ('refuse',), None), stats)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, stats), stats, job, tolerated = tolerated)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        def tuples(value):
            return tuple(tuples(item) for item in value) if isinstance(value, (list, tuple)) else value
        kind, spec = artefact
        maker = {'connect': connect_case, 'with': connect_with_case, 'listen': listen_case, 'server': server_case, 'socket': socket_case}[kind]
        run_one(maker(tuples(spec), stats), stats)


CHECK = SocketCheck()
