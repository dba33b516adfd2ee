"""
C15: secure connections deliver the plain data both ways like plain ones, whatever the pieces of the encrypted stream; and never send anything
else than the encrypted stream.
"""
import errno, socket as module_socket, ssl
from itertools import product

from mc.base import Check, Violation
from mc import fakenet
from mc.tlspeer import Peer, context_for
from mc.wire import outcome_of, run_cases, run_one

V4 = module_socket.AF_INET
STREAM = module_socket.SOCK_STREAM
BIG = 40000
HIGH = 65536

_protocol_type = None


def protocol_type():
    global _protocol_type
    if _protocol_type is None:
        from scarletio.core.protocols_and_transports import AbstractProtocolBase

        class Protocol(AbstractProtocolBase):
            """`script`: what to do when the connection is made; `on_data`: what to do at the first data."""
            def __init__(self, record, script = 'none', on_data = 'none'):
                self.script = script
                self.on_data = on_data
                self.transport = None
                self.made = 0
                self.lost = []
                self.data = bytearray()
                self.eof = 0
                self.paused = False
                self.problems = []
                record.append(self)

            def act(self, script):
                if 'write' in script:
                    self.transport.write(b'hello')
                if 'close' in script:
                    self.transport.close()
                if 'abort' in script:
                    self.transport.abort()

            def check(self, what):
                if self.made != 1:
                    self.problems.append(f'{what} before the connection is made')
                if self.lost:
                    self.problems.append(f'{what} after the connection is lost')

            def connection_made(self, transport):
                self.made += 1
                self.transport = transport
                self.act(self.script)

            def connection_lost(self, exception):
                self.check('connection lost')
                self.lost.append(exception)

            def data_received(self, data):
                self.check('data')
                if not data:
                    self.problems.append('empty data received')
                first = not self.data
                self.data += data
                if first:
                    self.act(self.on_data)

            def eof_received(self):
                self.check('end')
                self.eof += 1
                return False

            def pause_writing(self):
                if self.paused:
                    self.problems.append('paused twice')
                self.paused = True

            def resume_writing(self):
                if not self.paused:
                    self.problems.append('resumed twice')
                self.paused = False

            def get_transport(self):
                return self.transport

        _protocol_type = Protocol
    return _protocol_type


class Side:
    """One connection of the code under test and its peer."""
    def __init__(self, env, side, version, fail, script = 'none', on_data = 'none', verify = None, peer_version = None):
        from scarletio import Task
        self.env = env
        self.fail = fail
        self.net = fakenet.Net().enter(env)
        self.record = []
        self.wire = b''
        self.delivered = 0
        Protocol = protocol_type()

        def factory():
            return Protocol(self.record, script, on_data)
        server_side = side != 'client'
        host_name = ''
        if server_side or verify in (None, 'version'):
            context = context_for(server_side, version)
        else:
            context = context_for(False, version, True, verify != 'untrusted')
            host_name = {'good': 'good.example', 'untrusted': 'good.example', 'other-name': 'bad.example'}[verify]
        self.peer = Peer(context_for(not server_side, peer_version or version), not server_side)
        self.server = None
        self.task = None
        if side == 'accept':
            listener = self.net.create(V4, STREAM, 'bound')
            self.listener = listener
            server = Task(env.loop, env.loop.create_server_with(factory, listener, ssl_context = context))
            self.socket = self.net.create()
            self.server_task = server
        else:
            self.listener = None
            self.socket = self.net.create()
            if side == 'client':
                coroutine = env.loop.create_connection_with(factory, self.socket, ssl_context = context, server_host_name = host_name)
            else:
                coroutine = env.loop.connect_accepted_socket(factory, self.socket, ssl_context = context)
            self.task = Task(env.loop, coroutine)

    def begin(self):
        from scarletio import Task
        if self.listener is not None:
            yield
            self.server = self.server_task.get_result()
            Task(self.env.loop, self.server.start())
            yield
            self.listener.accepting.append(self.socket)
        yield
        self.transfer()
        if not self.peer.object.server_side:
            self.peer.start()
            self.transfer()

    @property
    def protocol(self):
        return self.record[0] if self.record else None

    def transfer(self):
        """Moves what we sent to the peer, and what it sends to the wire."""
        data = bytes(self.socket.sent)
        self.socket.sent.clear()
        self.peer.feed(data)
        self.wire += self.peer.take()
        if self.peer.left_over():
            self.fail(f'{self.peer.left_over()} bytes sent after the encrypted stream is closed: {bytes(self.peer.incoming.read())[:40]}')

    def deliver(self, amount = None):
        if amount is None:
            amount = len(self.wire)
        data = self.wire[:amount]
        self.wire = self.wire[amount:]
        if data and self.socket.state != 'closed':
            self.socket.incoming.append(data)
            self.delivered += len(data)

    def settle(self):
        """Till neither side has anything more to tell."""
        while True:
            yield
            self.transfer()
            if not self.wire or self.socket.state == 'closed':
                break
            self.deliver()
        yield

    def check_callbacks(self):
        for problem in self.net.problems:
            self.fail(problem)
        if len(self.record) > 1:
            self.fail('more than one protocol is made')
        protocol = self.protocol
        if protocol is not None:
            for problem in protocol.problems:
                self.fail(problem)
            if protocol.made > 1 or len(protocol.lost) > 1:
                self.fail(f'connection made {protocol.made} times, lost {len(protocol.lost)} times')

    def check_over(self):
        """Everything has to be released by now."""
        self.check_callbacks()
        protocol = self.protocol
        if self.socket.state != 'closed':
            self.fail('socket left open')
        if self.socket in self.net.registered():
            self.fail('socket left registered')
        if protocol is not None and protocol.made != len(protocol.lost):
            self.fail(f'connection made {protocol.made} times, lost {len(protocol.lost)} times')

    def end(self):
        self.net.leave()


def handshake_case(spec, stats):
    """
    spec : (side, version, script, on_data, verify, cut, event, at)

    cut : whole, single, or the position of the only cut, in the whole stream coming from the peer
    event : what happens after `at` pieces are delivered
    """
    def function(env):
        side, version, script, on_data, verify, cut, event, at = spec
        artefact = ['handshake', list(spec)]

        def fail(message):
            raise Violation(message[:50], f'{spec}: {message}', artefact)

        world = Side(env, side, version, fail, script, on_data, verify, peer_version = ('1.3' if version == '1.2' else '1.2') if verify == 'version' else None)
        try:
            yield from world.begin()
            peer = world.peer
            pieces = 0
            happened = False
            refused = verify in ('untrusted', 'other-name', 'version')
            for _ in range(6000):
                if event is not None and pieces == at and not happened:
                    happened = True
                    finished = world.protocol is not None and world.protocol.made
                    if event == 'cancel':
                        if world.task is None or world.task.is_done():
                            stats.count('too late')
                            return
                        world.task.cancel()
                    elif event == 'eof':
                        world.wire = b''
                        world.socket.incoming.append(b'')
                    elif event == 'reset':
                        world.wire = b''
                        world.socket.incoming.append(ConnectionResetError(errno.ECONNRESET, 'reset'))
                    elif event == 'garbage':
                        world.wire = b''
                        # the end is for the case when these become the rest of a record
                        world.socket.incoming.extend((b'GET / HTTP/1.1\r\n\r\n', b''))
                    elif event == 'block':
                        world.socket.room = 0
                    yield
                    world.transfer()
                    if event in ('cancel', 'eof', 'reset', 'garbage'):
                        break
                    if event == 'block':
                        # nothing can go till it is unblocked
                        yield
                        world.socket.room = 1 << 30
                        yield
                        world.transfer()
                        continue
                if not world.wire or world.socket.state == 'closed':
                    break
                if cut == 'whole':
                    amount = None
                elif cut == 'single':
                    amount = 1
                else:
                    amount = cut - world.delivered if cut > world.delivered else None
                world.deliver(amount)
                pieces += 1
                yield
                world.transfer()
            stats.evaluations += 1
            stats.transitions += pieces
            stats.nontrivial += pieces > 2
            protocol = world.protocol
            if event is not None and not happened:
                stats.count('event not reached')
            world.check_callbacks()
            outcome = ('result', protocol) if world.task is None else outcome_of(world.task)
            stats.outcome(f'{event if happened else None} {outcome[0]} {verify}')
            if happened and event == 'cancel':
                yield from world.settle()
                outcome = outcome_of(world.task)
                if outcome[0] != 'cancelled':
                    fail(f'cancelled connecting ended with {outcome}')
                world.check_over()
                return
            if happened and event in ('eof', 'reset', 'garbage') and not finished:
                yield
                if world.task is not None:
                    outcome = outcome_of(world.task)
                    if outcome[0] != 'exception' or not isinstance(outcome[1], OSError):
                        fail(f'connecting ended with {outcome} though {event} arrived meanwhile')
                if protocol is not None and protocol.made:
                    fail('connection made though the handshake failed')
                world.check_over()
                return
            if refused:
                yield
                if world.task is not None and (outcome[0] != 'exception' or not isinstance(outcome[1], ssl.SSLError)):
                    fail(f'connecting ended with {outcome} though the peer should not be accepted')
                if protocol is not None and (protocol.made or protocol.data):
                    fail('connection made though the peer should not be accepted')
                world.check_over()
                return
            if outcome[0] != 'result' or protocol is None or protocol.made != 1:
                fail(f'connecting ended with {outcome}')
            if happened and event in ('eof', 'reset', 'garbage'):
                yield
                if event == 'eof' and protocol.lost != [None]:
                    fail(f'connection lost with {protocol.lost} at the end of the stream')
                if event == 'reset' and (len(protocol.lost) != 1 or not isinstance(protocol.lost[0], OSError)):
                    fail(f'connection lost with {protocol.lost} at {event}')
                world.check_over()
                return
            if world.task is not None and outcome[1] is not protocol:
                fail('an other protocol is returned')
            # established
            if 'abort' in script:
                world.check_over()
                if 'write' not in script and peer.received:
                    fail('data sent which was not written')
                return
            expected = b'hello' if 'write' in script else b''
            if bytes(peer.received) != expected:
                fail(f'received by the peer: {bytes(peer.received)}; written: {expected}')
            if peer.error is not None:
                fail(f'the peer failed with {peer.error!r}')
            if 'close' in script:
                if not peer.got_close:
                    fail('closing is not told to the peer')
                peer.close()
                yield from world.settle()
                if protocol.lost != [None]:
                    fail(f'closed connection lost with {protocol.lost}')
                world.check_over()
                return
            transport = protocol.transport
            if transport.get_extra_info('ssl_object') is None or transport.get_extra_info('cipher') is None:
                fail('no information about the secure connection')
            if verify == 'good' and not transport.get_extra_info('peer_certification'):
                fail('no certificate of the peer')
            transport.write(b'question')
            yield
            world.transfer()
            if bytes(peer.received) != expected + b'question':
                fail(f'received by the peer: {bytes(peer.received)}')
            peer.write(b'answer')
            world.transfer()
            if cut == 'single':
                while world.wire:
                    world.deliver(1)
                    yield
            world.deliver()
            yield
            world.transfer()
            if bytes(protocol.data) != b'answer':
                fail(f'received: {bytes(protocol.data)}')
            if 'abort' not in on_data:
                if 'write' in on_data and bytes(peer.received) != expected + b'questionhello':
                    fail(f'received by the peer: {bytes(peer.received)}')
                if 'close' not in on_data:
                    transport.close()
                yield
                world.transfer()
                if not peer.got_close or peer.error is not None:
                    fail(f'closing is not told to the peer; {peer.error!r}')
                peer.close()
                yield from world.settle()
            if protocol.lost != [None]:
                fail(f'closed connection lost with {protocol.lost}')
            world.check_over()
            stats.state(repr(spec))
        finally:
            world.end()
    return function


OPERATIONS = (
    'write', 'write-big', 'peer-write', 'peer-write-big', 'deliver', 'part', 'block', 'unblock', 'pause', 'resume', 'close', 'abort', 'peer-close', 'eof', 'reset',
    'corrupt',
)


def history_case(spec, stats):
    """
    An established connection. spec : (side, version, operations, mode). mode: settle, tight (the loop does not run between the operations)
    """
    def function(env):
        side, version, operations, mode = spec
        artefact = ['history', [side, version, list(operations), mode]]

        def fail(message):
            raise Violation(message[:50], f'{spec}: {message}', artefact)

        world = Side(env, side, version, fail)
        try:
            yield from world.begin()
            yield from world.settle()
            protocol = world.protocol
            peer = world.peer
            socket = world.socket
            transport = protocol.transport
            if not peer.done or protocol.made != 1:
                fail('not established')
            written = bytearray()
            unsure = 0 # from where the written data may be dropped
            peer_written = bytearray()
            on_wire = 0
            blocked = False
            paused = False
            closing = False
            aborted = False
            ended = None # end delivered (maybe not yet read)
            counter = 0
            sending_over = False
            received_while_paused = None

            def payload(big):
                nonlocal counter
                counter += 1
                return bytes([64 + counter]) * (BIG + counter if big else 5)

            def check():
                world.check_callbacks()
                received = bytes(peer.received)
                if not written.startswith(received):
                    fail(f'received by the peer {received[:20]} .. ({len(received)}); written {bytes(written)[:20]} .. ({len(written)})')
                if not peer_written.startswith(protocol.data):
                    fail(f'received {bytes(protocol.data)[:20]} .. ({len(protocol.data)}); written by the peer {bytes(peer_written)[:20]} .. ({len(peer_written)})')
                if peer.error is not None and ended not in ('corrupt',):
                    fail(f'the peer failed with {peer.error!r}')
                disturbed = aborted or ended in ('reset', 'corrupt')
                if not disturbed and not blocked and ended != 'eof' and len(received) < unsure:
                    fail(f'only {len(received)} of the written {unsure} bytes arrived')
                if not blocked and closing and not disturbed and ended is None and not peer.got_close:
                    fail('closing is not told to the peer')
                if not blocked and not paused and ended == 'close' and not disturbed and not peer.got_close:
                    fail('the closing of the peer is not acknowledged')
                if peer.got_close and not closing and ended is None:
                    fail('closed without reason')
                if not closing and not aborted and not paused and ended is None and not world.wire and len(protocol.data) != len(peer_written):
                    fail(f'received {len(protocol.data)} of {len(peer_written)} bytes')
                buffered = transport.get_write_buffer_size()
                if socket.state != 'closed' and not protocol.lost:
                    if buffered > HIGH and not protocol.paused:
                        fail(f'not asked to pause while {buffered} bytes are buffered')
                    if not buffered and protocol.paused:
                        fail('not asked to resume though everything is sent')
                if aborted and not protocol.lost:
                    fail('aborted, but not lost')
                if ended is not None and not (paused or blocked) and not protocol.lost:
                    fail(f'not lost though {ended}')
                if not ended and not aborted and protocol.lost:
                    fail(f'lost without reason: {protocol.lost}')
                if protocol.lost:
                    if socket.state != 'closed':
                        fail('lost, but the socket is open')
                    exception = protocol.lost[0]
                    if ended == 'reset' and not aborted and not isinstance(exception, OSError) and not closing:
                        fail(f'lost with {exception!r} by a reset')
                    if ended == 'corrupt' and not aborted and not closing and not isinstance(exception, ssl.SSLError):
                        fail(f'lost with {exception!r} by corrupted data')
                    if ended in ('close', 'eof') and not aborted and exception is not None:
                        fail(f'lost with {exception!r} by an orderly end')
                elif socket.state == 'closed':
                    fail('the socket is closed, but the connection is not lost')

            close_on_wire = False
            done = 0
            for operation in operations:
                if operation in ('write', 'write-big'):
                    data = payload(operation == 'write-big')
                    transport.write(data)
                    if not closing and not aborted and not protocol.lost:
                        written += data
                        if ended is None:
                            unsure = len(written)
                elif operation in ('peer-write', 'peer-write-big'):
                    data = payload(operation == 'peer-write-big')
                    if ended is not None or not peer.write(data):
                        break
                    peer_written += data
                    world.transfer()
                elif operation in ('deliver', 'part'):
                    if not world.wire or ended is not None:
                        break
                    if operation == 'deliver':
                        world.deliver()
                        if close_on_wire:
                            ended = 'close'
                    else:
                        world.deliver(len(world.wire) // 2)
                elif operation == 'block':
                    if blocked:
                        break
                    blocked = True
                    socket.room = 3
                elif operation == 'unblock':
                    if not blocked:
                        break
                    blocked = False
                    socket.room = 1 << 30
                elif operation == 'pause':
                    if paused or closing or aborted or ended is not None:
                        break
                    paused = True
                    transport.pause_reading()
                elif operation == 'resume':
                    if not paused:
                        break
                    paused = False
                    transport.resume_reading()
                elif operation == 'close':
                    transport.close()
                    closing = True
                elif operation == 'abort':
                    if aborted:
                        break
                    transport.abort()
                    aborted = True
                elif operation == 'peer-close':
                    if ended is not None or not peer.close():
                        break
                    close_on_wire = True
                    world.transfer()
                elif operation == 'eof':
                    if ended is not None:
                        break
                    world.wire = b''
                    peer_gone = True
                    ended = 'eof'
                    socket.incoming.append(b'')
                elif operation == 'reset':
                    if ended is not None:
                        break
                    world.wire = b''
                    ended = 'reset'
                    socket.incoming.append(ConnectionResetError(errno.ECONNRESET, 'reset'))
                elif operation == 'corrupt':
                    if ended is not None or len(world.wire) < 30:
                        break
                    wire = world.wire
                    world.wire = wire[:-1] + bytes([wire[-1] ^ 1])
                    world.deliver()
                    ended = 'corrupt'
                done += 1
                stats.transitions += 1
                if mode == 'settle':
                    before = len(protocol.data)
                    yield
                    world.transfer()
                    if paused and operation != 'pause' and len(protocol.data) != before:
                        fail('data received while reading is paused')
                    check()
            else:
                # only these have anything new in them
                stats.evaluations += 1
                yield
                world.transfer()
                # end it
                if blocked:
                    blocked = False
                    socket.room = 1 << 30
                    yield
                    world.transfer()
                if paused:
                    paused = False
                    transport.resume_reading()
                    yield
                    world.transfer()
                check()
                if ended is None:
                    if close_on_wire or peer.close():
                        world.transfer()
                        world.deliver()
                        ended = 'close'
                        yield
                        world.transfer()
                        check()
                    else:
                        yield
                if socket.state != 'closed':
                    ended = ended or 'eof'
                    socket.incoming.append(b'')
                    yield
                    world.transfer()
                    check()
                world.check_over()
                buffered = len(peer.received)
                transport.write(b'more')
                yield
                world.transfer()
                if len(peer.received) != buffered or socket.sent:
                    fail('data sent after it is over')
                stats.state(repr(spec))
                stats.nontrivial += 1
                stats.outcome(f'{ended} {protocol.lost[0].__class__.__name__}')
        finally:
            world.end()
    return function


def tolerated(exception):
    return isinstance(exception, OSError)


class TlsCheck(Check):
    id = 'C15'
    rule = 'the handshake went over in several pieces / the history was played till its end'
    job_timeout = {'quick': 300.0, 'thorough': 2700.0}
    assumptions = [
        'the ssl module of python (OpenSSL) is trusted, it is also what the peers are; sockets are stand-ins',
        'the connection stays open after `close` till the peer answers, closes or is lost (there is no time limit on it)',
    ]

    def jobs(self, tier):
        jobs = []
        for side in ('client', 'server', 'accept'):
            for version in ('1.2', '1.3'):
                for part in range(4):
                    jobs.append(('handshake', side, version, part, tier))
        for side in ('client', 'server'):
            for version in ('1.3', '1.2'):
                for first in OPERATIONS:
                    depth = 4 if version == '1.3' and side == 'client' else 3
                    jobs.append(('history', side, version, first, depth + (tier != 'quick'), 'settle'))
                    jobs.append(('history', side, version, first, depth + (tier != 'quick'), 'tight'))
        return jobs

    def cases(self, job, stats):
        if job[0] == 'handshake':
            _, side, version, part, tier = job
            specs = []
            scripts = ('none', 'write', 'close', 'write close', 'abort', 'write abort')
            for script in scripts:
                for cut in ('whole', 'single'):
                    specs.append((side, version, script, 'none', None, cut, None, 0))
            for on_data in ('write', 'close', 'write close', 'abort'):
                for cut in ('whole', 'single'):
                    specs.append((side, version, 'none', on_data, None, cut, None, 0))
            verifies = ('version', 'good', 'untrusted', 'other-name') if side == 'client' else ('version', )
            for verify in verifies:
                for cut in ('whole', 'single'):
                    specs.append((side, version, 'write', 'none', verify, cut, None, 0))
            step = 1 if tier != 'quick' else 7
            for cut in range(1, 1400, step):
                specs.append((side, version, 'write', 'none', None, cut, None, 0))
                specs.append((side, version, 'write close', 'none', None, cut, None, 0))
            for event in ('cancel', 'eof', 'reset', 'garbage', 'block'):
                for at in range(0, 6):
                    for cut in ('whole', 3, 200, 800):
                        specs.append((side, version, 'none', 'none', None, cut, event, at))
                for at in range(0, 1400, 41 if tier == 'quick' else 3):
                    specs.append((side, version, 'none', 'none', None, 'single', event, at))
            for spec in specs[part::4]:
                yield handshake_case(spec, stats)
        else:
            _, side, version, first, depth, mode = job
            for rest in product(OPERATIONS, repeat = depth - 1):
                if self.impossible((first, *rest)):
                    continue
                yield history_case((side, version, (first, *rest), mode), stats)

    def impossible(self, operations):
        """Which would be broken off anyway."""
        blocked = paused = ended = False
        peer_wrote = False
        for operation in operations:
            if operation == 'block':
                if blocked:
                    return True
                blocked = True
            elif operation == 'unblock':
                if not blocked:
                    return True
                blocked = False
            elif operation == 'pause':
                if paused or ended:
                    return True
                paused = True
            elif operation == 'resume':
                if not paused:
                    return True
                paused = False
            elif operation in ('eof', 'reset', 'corrupt'):
                if ended or (operation == 'corrupt' and not peer_wrote):
                    return True
                ended = True
            elif operation in ('peer-write', 'peer-write-big', 'peer-close'):
                if ended:
                    return True
                peer_wrote = True
            elif operation in ('deliver', 'part'):
                if ended or not peer_wrote:
                    return True
        return False

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, stats), stats, job, tolerated = tolerated, per_loop = 300)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        def tuples(value):
            return tuple(tuples(item) for item in value) if isinstance(value, (list, tuple)) else value
        kind, spec = artefact
        run_one({'handshake': handshake_case, 'history': history_case}[kind](tuples(spec), stats), stats)


CHECK = TlsCheck()
