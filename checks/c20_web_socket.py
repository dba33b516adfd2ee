"""
C20: web socket connections deliver messages, answer control frames, refuse violations and always get closed.
"""
from itertools import product
from struct import pack

from mc.base import Check, Violation
from mc.vloop import quiet_stderr
from mc.wire import Sequences, Wire, cuts, outcome_of, run_cases, run_one, single_bytes

CONTINUOUS, TEXT, BINARY, CLOSE, PING, PONG = 0, 1, 2, 8, 9, 10
CLOSE_TIMEOUT = 10.0
MAX_SIZE = 64


class LiveWire(Wire):
    """Transport which reports that it was closed. When `stuck`, only aborting it helps."""
    def __init__(self, loop, stuck):
        Wire.__init__(self)
        self.loop = loop
        self.stuck = stuck
        self.lost = False
        self.closings = 0

    def write(self, data):
        if not self.closing:
            Wire.write(self, data)

    def connection_lost(self, exception):
        if not self.lost:
            self.lost = True
            self.closing = True
            self.protocol.connection_lost(exception)

    def close(self):
        if not self.closing:
            self.closing = True
            if not self.stuck:
                self.loop.call_soon(self.connection_lost, None)

    def abort(self):
        self.closing = True
        self.aborted = True
        self.loop.call_soon(self.connection_lost, None)

    def eof_received(self):
        if not self.closing:
            if not self.protocol.eof_received():
                self.close()


def is_part(part, whole):
    whole = iter(whole)
    return all(element in whole for element in part)


def encode(head_0, data, masked, mask = b'\x01\x80\xff\x10', size = None):
    length = len(data)
    if size is None:
        size = 0 if length < 126 else 2 if length < 65536 else 8
    if size == 0:
        head = pack('!BB', head_0, masked << 7 | length)
    elif size == 2:
        head = pack('!BBH', head_0, masked << 7 | 126, length)
    else:
        head = pack('!BBQ', head_0, masked << 7 | 127, length)
    if masked:
        head += mask
        data = bytes(byte ^ mask[index & 3] for index, byte in enumerate(data))
    return head + data


def frame(operation, data, masked, final = True):
    return encode(final << 7 | operation, data, masked)


def decode_all(data, masked):
    """Strict decoder of what the endpoint wrote: list of (final, operation code, data), raises ValueError if it is malformed."""
    result = []
    position = 0
    while position < len(data):
        head_0 = data[position]
        head_1 = data[position + 1]
        position += 2
        if head_0 & 0x70:
            raise ValueError('reserved bit')
        if (head_1 >> 7) != masked:
            raise ValueError('masking')
        length = head_1 & 127
        if length == 126:
            length = int.from_bytes(data[position : position + 2], 'big')
            position += 2
            if length < 126:
                raise ValueError('length')
        elif length == 127:
            length = int.from_bytes(data[position : position + 8], 'big')
            position += 8
            if length < 65536:
                raise ValueError('length')
        if masked:
            mask = data[position : position + 4]
            position += 4
            if len(mask) != 4:
                raise ValueError('truncated')
        piece = data[position : position + length]
        position += length
        if len(piece) != length:
            raise ValueError('truncated')
        if masked:
            repeated = mask * (length // 4 + 1)
            piece = (int.from_bytes(piece, 'big') ^ int.from_bytes(repeated[:length], 'big')).to_bytes(length, 'big')
        operation = head_0 & 15
        final = head_0 >> 7
        if operation >= 8 and (length > 125 or not final):
            raise ValueError('malformed control frame')
        if operation not in (0, 1, 2, 8, 9, 10):
            raise ValueError('operation code')
        result.append((final, operation, piece))
    return result


def closing(code, reason = ''):
    return code.to_bytes(2, 'big') + reason.encode()


# What the peer sends: name -> list of (head 0, data), or something special
PEER = {
    't': (0x81, 'h\u00e9'.encode()),
    'b': (0x82, b'\xff\x00'),
    'T': (0x01, b'\xc3'),
    'B': (0x02, b'\xc3'),
    'C': (0x00, b'\xa9'),
    'F': (0x80, b'\xa9'),
    'u': (0x81, b'\xc3'),
    'i': (0x89, b'1'),
    'I': (0x89, b''),
    'o': (0x8a, b'1'),
    'O': (0x8a, b'2'),
    'q': (0x8a, b'none'),
    'x': (0x88, closing(1000, 'b\u0151')),
    'X': (0x88, b''),
    'w': (0x88, closing(4999)),
    'v': (0xc1, b'a'),
    'L': (0x82, b'x' * (MAX_SIZE + 1)),
}
# protocol violations: name -> ((head 0, data, masked, size), code)
VIOLATIONS = {
    'rsv1': (0xc1, b'a', None, None, 1002),
    'rsv2': (0xa2, b'a', None, None, 1002),
    'rsv3': (0x98, b'', None, None, 1002),
    'op3': (0x83, b'a', None, None, 1002),
    'op7': (0x07, b'', None, None, 1002),
    'op11': (0x8b, b'', None, None, 1002),
    'op15': (0x8f, b'', None, None, 1002),
    'ping-part': (0x09, b'a', None, None, 1002),
    'pong-part': (0x0a, b'a', None, None, 1002),
    'close-part': (0x08, closing(1000), None, None, 1002),
    'mask': (0x81, b'a', 'wrong', None, 1002),
    'close-1': (0x88, b'a', None, None, 1002),
    'close-999': (0x88, closing(999), None, None, 1002),
    'close-1004': (0x88, closing(1004), None, None, 1002),
    'close-1005': (0x88, closing(1005), None, None, 1002),
    'close-1006': (0x88, closing(1006), None, None, 1002),
    'close-1015': (0x88, closing(1015), None, None, 1002),
    'close-2999': (0x88, closing(2999), None, None, 1002),
    'close-5000': (0x88, closing(5000), None, None, 1002),
    'close-utf': (0x88, closing(1000) + b'\xff', None, None, 1007),
    'close-utf-cut': (0x88, closing(1000) + b'\xe2\x82', None, None, 1007),
    'text-utf': (0x81, b'ok\xff', None, None, 1007),
    'text-surrogate': (0x81, b'\xed\xa0\x80', None, None, 1007),
    'text-overlong': (0x81, b'\xc0\xaf', None, None, 1007),
    'big': (0x82, b'x' * (MAX_SIZE + 1), None, None, 1009),
    'big-text': (0x81, b'x' * 70000, None, None, 1009),
    'big-part': (0x02, b'x' * (MAX_SIZE + 1), None, 8, 1009),
}

# local: S send text, Y send binary, p / P ping, a pong, c / d close, k cancel the last close, r receive, z pause writing, Z resume it,
# s: time passes. Connection: E end, l closed, e lost with error.
OPS = (
    *PEER, 'S', 'Y', 'p', 'P', 'a', 'c', 'd', 'k', 'r', 'z', 'Z', 's', 'E', 'l', 'e',
    't~', 'T~', 'F~', 'i~', 'o~', 'x~', 'v~', 'u~', 'S~', 'c~', 'p~', 'E~', 'z~',
)
# for longer sequences
CORE_OPS = (
    't', 'T', 'F', 'u', 'i', 'o', 'x', 'v', 'S', 'p', 'c', 'k', 'r', 'z', 'Z', 's', 'E', 'e', 't~', 'i~', 'x~', 'v~', 'S~', 'c~',
)
# pieces of messages of sizes around the limit
SIZED = {
    f'{name}{size}': (head_0, b'x' * size)
    for name, head_0 in (('B', 0x02), ('C', 0x00), ('F', 0x80), ('W', 0x82), ('T', 0x01)) for size in (0, 1, 32, 33, 64)
}
PEER.update(SIZED)
# longer than the limit, which is about messages
PEER['i100'] = (0x89, b'1' * 100)
SIZED_OPS = (*SIZED, 'i', 'i100', 'r', 'x')
PEER_OPS = frozenset(PEER) | frozenset('Ele')

TEXT_DATA = 'k\u0151'
BINARY_DATA = b'\x00\xff'


class Model:
    """What is expected of the endpoint."""
    def __init__(self):
        self.parts = None
        self.messages = []
        self.codes = None # codes receivers may see at the end, None while connected
        self.pongs = []
        self.all_pongs = []
        self.calls = [] # (operation code, data) requested locally
        self.close_frame = None # payload of the close frame which should be sent, ... if unknown
        self.answered = [] # pings which were answered
        self.local_closing = False
        self.peer_closing = None

    def violation(self, code):
        if self.close_frame is None:
            self.close_frame = closing(code)
        self.codes = {code}

    def part(self, head_0, data):
        final = head_0 >> 7
        operation = head_0 & 15
        if operation == CONTINUOUS:
            if self.parts is None:
                return self.violation(1002)
        else:
            if self.parts is not None:
                too_long = len(self.parts[1]) + len(data) > MAX_SIZE
                self.violation(1002)
                if too_long:
                    # it is wrong in two ways
                    self.codes.add(1009)
                    if not (self.local_closing or self.peer_closing):
                        self.close_frame = ...
                return
            self.parts = [operation, b'', False]
        if len(self.parts[1]) + len(data) > MAX_SIZE:
            return self.violation(1009)
        self.parts[1] += data
        if final:
            operation, data, _ = self.parts
            self.parts = None
            if operation == TEXT:
                try:
                    data = data.decode()
                except UnicodeDecodeError:
                    return self.violation(1007)
            self.messages.append(data)

    def received(self, head_0, data):
        if self.codes is not None:
            return
        operation = head_0 & 15
        if len(data) > MAX_SIZE and operation < 8:
            return self.violation(1009)
        if head_0 & 0x70:
            return self.violation(1002)
        if operation in (TEXT, BINARY, CONTINUOUS):
            return self.part(head_0, data)
        if operation == PING:
            self.all_pongs.append(data)
            if self.close_frame is None:
                self.pongs.append(data)
        elif operation == PONG:
            self.answered.append(data)
        else:
            if self.parts is not None:
                # it is in the middle of a message, both is fine
                code = int.from_bytes(data[:2], 'big') if data else 1005
                self.codes = {1002, code}
                if self.close_frame is None:
                    self.close_frame = ...
                return
            code = int.from_bytes(data[:2], 'big') if data else 1005
            self.codes = {code}
            self.peer_closing = (code, data[2:].decode())
            if self.close_frame is None:
                self.close_frame = data


def make_endpoint(loop, is_client, is_ssl, stuck, keywords = {}):
    from scarletio.web_socket import WebSocketClient
    from scarletio.web_socket.web_socket_common_protocol import WebSocketCommonProtocol
    from scarletio.web_common.http_protocol import HttpReadWriteProtocol

    class Endpoint(WebSocketCommonProtocol):
        __slots__ = ()
    Endpoint.is_client = is_client
    protocol = WebSocketCommonProtocol.__new__(
        Endpoint, loop, 'host', 80, is_ssl = is_ssl, close_timeout = CLOSE_TIMEOUT, **{'max_size': MAX_SIZE, **keywords}
    )
    wire = LiveWire(loop, stuck)
    wire.protocol = protocol
    protocol.connection_made(wire)
    protocol.connection_open()
    return protocol, wire


async def waiting(awaitable):
    return await awaitable


async def receive(protocol, got):
    # a later receiver may be faster if it starts right when the message arrives
    got.append(await protocol.receive())


def sequence_case(is_client, is_ssl, stuck, ops, stats, prune, unsettled = 2, table = None):
    def function(env):
        from scarletio import Task
        from scarletio.web_common import ConnectionClosed
        loop = env.loop
        artefact = ['sequence', is_client, is_ssl, stuck, list(ops)]
        side = 'client' if is_client else 'server'
        done_ops = []
        unsettled_left = unsettled

        def fail(message):
            shown = ' '.join(done_ops)
            raise Violation(f'{side}:{is_ssl}:{stuck}:{shown}', f'{message}; {side}, ssl = {is_ssl}, stuck = {stuck}, operations: {shown}', artefact)

        protocol, wire = make_endpoint(loop, is_client, is_ssl, stuck)
        model = Model()
        sends = [] # (call index, task)
        pings = [] # (data, task)
        closes = []
        receivers = []
        frames = []
        all_calls = []
        got = [] # received
        loose = False
        paused = False
        held = False # writing was paused since the last fully settled state
        killed = False
        connection = None # how it ended from outside
        yield

        def start(coroutine):
            return Task(loop, waiting(coroutine))

        def check_written():
            data = wire.take()
            if data:
                try:
                    frames.extend(decode_all(data, is_client))
                except (ValueError, IndexError) as exception:
                    fail(f'malformed data was sent: {exception}; {data!r}')
            pongs = []
            calls = []
            for index, (final, operation, data) in enumerate(frames):
                if operation == CLOSE:
                    if index != len(frames) - 1:
                        fail(f'frames were sent after the close frame: {frames}')
                elif operation == PONG and data != b'pong':
                    pongs.append(data)
                else:
                    calls.append((operation, data))
                if not final:
                    fail('fragmented')
            # a call on a closing connection is refused
            if loose:
                if not is_part(calls, all_calls):
                    fail(f'sent {calls} of {all_calls}')
                if not is_part(pongs, model.all_pongs):
                    fail(f'answered pings with {pongs} of {model.all_pongs}')
                return calls
            if calls != model.calls[:len(calls)]:
                fail(f'sent {calls} instead of {model.calls}')
            if pongs != model.pongs[:len(pongs)]:
                fail(f'answered pings with {pongs} instead of {model.pongs}')
            close = [data for _, operation, data in frames if operation == CLOSE]
            if close and model.close_frame is not ... and close[0] != model.close_frame:
                fail(f'sent close frame with {close[0]!r} instead of {model.close_frame!r}')
            if not paused and connection is None:
                if len(calls) != len(model.calls):
                    fail(f'not everything was sent: {calls} of {model.calls}')
                if len(pongs) != len(model.pongs):
                    fail(f'pings were not answered: {pongs} of {model.pongs}')
                if model.close_frame is not None and not close:
                    fail('close frame was not sent')
            return calls

        def check():
            calls = check_written()
            for index, task in sends:
                outcome = outcome_of(task)
                if index is None:
                    # it was started when the connection was closing
                    if outcome[0] == 'result':
                        fail('sending succeeded on a closing connection')
                elif outcome[0] == 'result':
                    if index >= len(calls) and not loose:
                        fail('sending succeeded but nothing was sent')
                elif outcome[0] == 'pending':
                    if not (paused or loose or model.codes is not None):
                        fail('sending is stuck')
                if outcome[0] == 'exception' and not isinstance(outcome[1], ConnectionClosed):
                    fail(f'sending ended with {outcome}')
                if outcome[0] == 'exception' and model.codes is None and not loose and index is not None:
                    fail(f'sending ended with {outcome}')
                if outcome[0] == 'cancelled':
                    fail('sending was cancelled')
            for data, task, refused in pings:
                outcome = outcome_of(task)
                if refused and outcome[0] == 'result' and not loose:
                    fail('ping succeeded on a closing connection')
                if outcome[0] == 'exception' and not isinstance(outcome[1], ConnectionClosed):
                    fail(f'ping ended with {outcome}')
            for task in receivers:
                outcome = outcome_of(task)
                if outcome[0] == 'exception':
                    if not isinstance(outcome[1], ConnectionClosed):
                        fail(f'receiving ended with {outcome}')
                    if model.codes is None and not loose:
                        fail(f'receiving ended with {outcome} on an open connection')
                    if model.codes is not None and not loose and outcome[1].code not in model.codes:
                        fail(f'receiving ended with {outcome} instead of {model.codes}')
                elif outcome[0] == 'cancelled':
                    fail('receiving was cancelled')
            if got != model.messages[:len(got)]:
                fail(f'received {got} instead of {model.messages}')
            if any(type(one) is not type(two) and not (isinstance(two, bytes) and isinstance(one, (bytes, bytearray, memoryview))) for one, two in zip(got, model.messages)):
                fail(f'received {got} instead of {model.messages}')
            if not loose and not paused:
                if len(receivers) > len(got) and len(got) < len(model.messages):
                    fail(f'a receiver is waiting, but {model.messages} were received')
                if model.codes is not None and any(not task.is_done() for task in receivers):
                    fail('a receiver is still waiting at the end of the connection')
                # a ping is done if a pong answered it or a later one
                waiting_pings = [data for data, task, refused in pings if not task.is_done() and not refused]
                expected = model.waiting_pings()
                if model.codes is None and waiting_pings != expected:
                    fail(f'pings {waiting_pings} are waiting instead of {expected}')
                if model.codes is None:
                    for data, task, refused in pings:
                        if not refused and outcome_of(task)[0] in ('cancelled', 'exception'):
                            fail(f'ping ended with {outcome_of(task)} on an open connection')
            if model.codes is None and not loose:
                if wire.closing and connection is None:
                    fail('the connection was closed for no reason')
                if connection is None and not model.local_closing and not protocol.open:
                    fail('an open connection says it is not open')
            elif not loose and not paused:
                if protocol.open:
                    fail('an ended connection says it is open')
                for task in closes:
                    outcome = outcome_of(task)
                    if outcome[0] == 'cancelled' and not killed or outcome[0] == 'exception':
                        fail(f'closing ended with {outcome}')

        ping_state = []

        def waiting_pings():
            return [data for data in ping_state]
        model.waiting_pings = waiting_pings

        for position, op in enumerate(ops):
            immediate = op.endswith('~')
            name = op[:-1] if immediate else op
            if immediate:
                if position == len(ops) - 1 or not unsettled_left:
                    prune(position)
                    return
                unsettled_left -= 1
            if name in VIOLATIONS or name in PEER_OPS:
                if wire.closing or connection is not None:
                    prune(position)
                    return
                if model.codes is not None and name not in 'Ele':
                    # what follows is ignored
                    if position and name not in ('t', 'v'):
                        prune(position)
                        return
            done_ops.append(op)

            if name in VIOLATIONS:
                head_0, data, masking, size, code = VIOLATIONS[name]
                masked = (not is_client) ^ (masking == 'wrong')
                if paused:
                    loose = True
                if model.codes is None:
                    if name == 'mask' or len(data) > MAX_SIZE or model.parts is None or not head_0 & 15 in (1, 2, 8):
                        model.violation(code)
                    else:
                        model.violation(1002)
                        if code != 1002:
                            model.codes.add(code)
                            if not (model.local_closing or model.peer_closing):
                                model.close_frame = ...
                wire.protocol.data_received(encode(head_0, data, masked, size = size))
            elif name in PEER:
                head_0, data = PEER[name]
                was = model.codes
                before = len(model.answered)
                model.received(head_0, data)
                if len(model.answered) > before and data in ping_state:
                    del ping_state[:ping_state.index(data) + 1]
                if model.codes is not None and was is None and paused:
                    loose = True
                protocol.data_received(encode(head_0, data, not is_client))
            elif name in 'Ele':
                connection = name
                if model.codes is None:
                    model.codes = {1006}
                if paused or any(entry.endswith('~') for entry in done_ops[:-1][-1:]):
                    # what was received before may be lost
                    loose = True
                if name == 'E':
                    wire.eof_received()
                elif name == 'l':
                    wire.connection_lost(None)
                else:
                    wire.connection_lost(OSError('lost'))
            elif name in ('S', 'Y', 'a', 'p', 'P'):
                refused = model.codes is not None or model.local_closing or model.close_frame is not None
                if name == 'S':
                    call = (TEXT, TEXT_DATA.encode())
                    task = start(protocol.send(TEXT_DATA))
                elif name == 'Y':
                    call = (BINARY, BINARY_DATA)
                    task = start(protocol.send(BINARY_DATA))
                elif name == 'a':
                    call = (PONG, b'pong')
                    task = start(protocol.pong('pong'))
                else:
                    data = b'1' if name == 'p' else b'2'
                    if any(not task.is_done() and data == ping_data for ping_data, task, _ in pings):
                        # other data would be used
                        prune(position)
                        return
                    call = (PING, data)
                    task = start(protocol.ping(data if is_ssl else data.decode()))
                    if not refused:
                        ping_state.append(data)
                    pings.append((data, task, refused))
                all_calls.append(call)
                if refused:
                    if name not in 'pP' and not loose:
                        sends.append((None, task))
                elif done_ops[-2:-1] and done_ops[-2].endswith('~') and done_ops[-2][0] in 'uvxELe':
                    # may be sent or refused
                    loose = True
                    model.calls.append(call)
                    if name not in 'pP':
                        sends.append((len(model.calls) - 1, task))
                else:
                    model.calls.append(call)
                    if name not in 'pP':
                        sends.append((len(model.calls) - 1, task))
            elif name in 'cd':
                code = 1000 if name == 'c' else 3000
                closes.append(start(protocol.close(code, 'bye')))
                if model.codes is None and not model.local_closing:
                    model.local_closing = True
                    if model.close_frame is None:
                        model.close_frame = closing(code, 'bye')
            elif name == 'k':
                if not closes or closes[-1].is_done():
                    prune(position)
                    return
                killed = True
                loose = True
                closes[-1].cancel()
            elif name == 'r':
                receivers.append(Task(loop, receive(protocol, got)))
            elif name == 'z':
                if paused or wire.closing:
                    prune(position)
                    return
                paused = True
                if done_ops[-2:-1] and done_ops[-2].endswith('~'):
                    loose = True
                protocol.pause_writing()
            elif name == 'Z':
                if not paused or wire.closing:
                    prune(position)
                    return
                paused = False
                protocol.resume_writing()
            else:
                if paused:
                    loose = True
                if model.local_closing and model.codes is None and not loose:
                    model.codes = {1000, 1006}
            stats.transitions += 1
            if immediate:
                # the order of what is read and what is called is up to the implementation
                if name in ('c', 'v', 'u', 'x', 'E', 'S', 'p', 'z'):
                    loose = True
                continue
            if name == 's':
                yield CLOSE_TIMEOUT + 0.5
            else:
                yield
            check()

        # it can be closed in any case
        done_ops.append('(close)')
        ended = wire.lost or model.codes is not None and not loose
        if not ended:
            closes.append(start(protocol.close(1000, 'bye')))
            if model.close_frame is None:
                model.close_frame = closing(1000, 'bye')
        late = start(protocol.receive())
        yield 6 * CLOSE_TIMEOUT
        if not wire.lost:
            fail('the connection is never closed')
        loose = True
        check_written()
        for task in (*closes, *receivers, *(task for _, task in sends), *(task for _, task, _ in pings), late):
            if not task.is_done():
                fail('something is never done')
        for task in closes[-1:]:
            if outcome_of(task)[0] != 'result' and not (killed and ended):
                fail(f'closing ended with {outcome_of(task)}')
        if not protocol.closed or protocol.open:
            fail('a closed connection says it is not')
        rest = [outcome_of(late)]
        while rest[-1][0] == 'result':
            task = start(protocol.receive())
            yield
            rest.append(outcome_of(task))
        if rest[-1][0] != 'exception' or not isinstance(rest[-1][1], ConnectionClosed):
            fail(f'receiving after the end ended with {rest[-1]}')
        got.extend(outcome[1] for outcome in rest[:-1])
        if got != model.messages[:len(got)]:
            fail(f'received {got} instead of {model.messages}')
        if len(got) != len(model.messages) and connection is None and not killed and 'z' not in ops and 'z~' not in ops:
            fail(f'received {got} instead of {model.messages}')
        for coroutine in (protocol.send('a'), protocol.ping(), protocol.pong()):
            task = start(coroutine)
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'exception' or not isinstance(outcome[1], ConnectionClosed):
                fail(f'sending on a closed connection ended with {outcome}')
        task = start(protocol.close())
        yield
        if outcome_of(task)[0] != 'result':
            fail(f'closing again ended with {outcome_of(task)}')
        if model.peer_closing is not None and connection is None and not killed and 'z' not in ops and 'z~' not in ops:
            if protocol.close_code != model.peer_closing[0] or (protocol.close_reason or '') != model.peer_closing[1]:
                fail(f'close code and reason are {protocol.close_code, protocol.close_reason} instead of {model.peer_closing}')
        stats.evaluations += 1
        stats.state(repr(artefact))
        stats.outcome((side, rest[-1][1].code, len(model.messages)))
    return function


LENGTHS = (0, 1, 3, 4, 5, 124, 125, 126, 127, 128, 65534, 65535, 65536, 65537)


def length_case(is_client, length, kind, stats):
    """Message of a given length in both directions."""
    def function(env):
        from scarletio import Task
        loop = env.loop
        side = 'client' if is_client else 'server'
        artefact = ['length', is_client, length, kind]

        def fail(message):
            raise Violation(f'length:{side}:{length}:{kind}', f'{message}; {side}, length = {length}, kind = {kind}', artefact)

        protocol, wire = make_endpoint(loop, is_client, False, False, {'max_size': 70000})
        yield
        data = bytes(index * 7 & 127 for index in range(length))
        operation = BINARY
        value = data
        if kind == 'text':
            operation = TEXT
            value = data.decode()
        elif kind == 'bytearray':
            value = bytearray(data)
        elif kind == 'memoryview':
            value = memoryview(data)
        elif kind == 'items':
            if length % 4:
                return
            value = memoryview(data).cast('I')
        kept = bytes(value) if kind == 'bytearray' else None
        task = Task(loop, protocol.send(value))
        yield
        if outcome_of(task)[0] != 'result':
            fail(f'sending ended with {outcome_of(task)}')
        written = wire.take()
        try:
            frames = decode_all(written, is_client)
        except (ValueError, IndexError) as exception:
            fail(f'malformed data was sent: {exception!r}')
        if frames != [(1, operation, data)]:
            fail('other data was sent')
        if kept is not None and kept != value:
            fail('the data was changed')
        for size in (0, 2, 8):
            if length > 125 and size == 0 or length > 65535 and size == 2:
                continue
            protocol.data_received(encode(0x80 | operation, data, not is_client, size = size))
            task = Task(loop, waiting(protocol.receive()))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result' or (outcome[1] != data.decode() if operation == TEXT else bytes(outcome[1]) != data):
                fail(f'receiving ended with {outcome[0]}')
        task = Task(loop, protocol.close())
        yield 60
        stats.evaluations += 1
        stats.transitions += 1
        stats.state(repr(artefact))
    return function


# (operation, value, frame (operation code, data) which is sent, or the refusal)
ARGUMENTS = (
    *(('ping', b'x' * length, (PING, b'x' * length) if length < 126 else 'refused') for length in (0, 1, 124, 125, 126, 127, 70000)),
    *(('pong', b'x' * length, (PONG, b'x' * length) if length < 126 else 'refused') for length in (0, 1, 124, 125, 126, 127, 70000)),
    *((method, value, (PING if method == 'ping' else PONG, b'ab')) for method in ('ping', 'pong') for value in ('ab', bytearray(b'ab'), memoryview(b'ab'))),
    *((method, value, 'type') for method in ('ping', 'pong', 'send') for value in (1, 'list')),
    ('send', None, 'type'),
    *(('close', (code, ''), (CLOSE, closing(code))) for code in (1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 3000, 4999)),
    *(('close', (code, ''), 'refused') for code in (0, 1, 999, 1004, 1005, 1006, 1015, 2999, 5000, 65536)),
    *(('close', (1000, reason), (CLOSE, closing(1000, reason)) if len(reason.encode()) <= 123 else 'refused') for reason in ('x' * 123, 'x' * 124, '\u0151' * 61, '\u0151' * 62, 'x' * 1000)),
)


def argument_case(is_client, index, stats):
    def function(env):
        from scarletio import Task
        from scarletio.web_common import WebSocketProtocolError
        loop = env.loop
        side = 'client' if is_client else 'server'
        method, value, expected = ARGUMENTS[index]
        artefact = ['argument', is_client, index]

        def fail(message):
            raise Violation(f'argument:{side}:{method}:{value!r}'[:150], f'{message}; {side}, {method}({value!r})'[:500], artefact)

        protocol, wire = make_endpoint(loop, is_client, False, False, {'max_size': 1000})
        yield
        task = Task(loop, protocol.close(*value) if method == 'close' else getattr(protocol, method)([] if value == 'list' else value))
        yield
        try:
            frames = decode_all(wire.take(), is_client)
        except (ValueError, IndexError) as exception:
            fail(f'malformed data was sent: {exception!r}')
        outcome = outcome_of(task)
        if isinstance(expected, str):
            if outcome[0] != 'exception' or not isinstance(outcome[1], TypeError if expected == 'type' else (WebSocketProtocolError, ValueError)):
                fail(f'ended with {outcome}')
            if frames:
                fail('something was sent')
            # nothing happened
            task = Task(loop, protocol.send('a'))
            yield
            if outcome_of(task)[0] != 'result':
                fail(f'sending afterwards ended with {outcome_of(task)}')
            if decode_all(wire.take(), is_client) != [(1, TEXT, b'a')]:
                fail('sending afterwards sent something else')
            if not protocol.open:
                fail('the connection is not open afterwards')
            if len(protocol.pings):
                fail('a refused ping is waiting for its answer')
        else:
            if frames != [(1, *expected)]:
                fail(f'sent {frames}')
            if method == 'ping':
                if task.is_done():
                    fail('the ping is not answered yet')
                protocol.data_received(encode(0x8a, expected[1], not is_client))
                yield
                if outcome_of(task)[0] != 'result':
                    fail(f'ping ended with {outcome_of(task)}')
        task = Task(loop, protocol.close())
        yield 60
        if not wire.lost:
            fail('the connection is not closed')
        stats.evaluations += 1
        stats.transitions += 1
        stats.state(repr(artefact))
    return function


STREAM = (
    (0x01, b'\xe2'), (0x89, b'one'), (0x00, b'\x82'), (0x80, b'\xac!'), (0x82, b'b' * 20), (0x8a, b''), (0x02, b''), (0x80, b''),
    (0x81, b'end'), (0x88, closing(1001, 'away')),
)


def stream_case(is_client, chunks, stats):
    def function(env):
        from scarletio import Task
        from scarletio.web_common import ConnectionClosed
        loop = env.loop
        side = 'client' if is_client else 'server'
        artefact = ['stream', is_client, [len(chunk) for chunk in chunks]]

        def fail(message):
            raise Violation(f'stream:{side}:{[len(chunk) for chunk in chunks]}', f'{message}; {side}, cut = {[len(chunk) for chunk in chunks]}', artefact)

        protocol, wire = make_endpoint(loop, is_client, False, False)
        yield
        for chunk in chunks:
            protocol.data_received(chunk)
            yield
        got = []
        while True:
            task = Task(loop, waiting(protocol.receive()))
            yield
            outcome = outcome_of(task)
            if outcome[0] == 'result':
                got.append(outcome[1])
                continue
            break
        if got != ['\u20ac!', b'b' * 20, b'', 'end']:
            fail(f'received {got}')
        if outcome[0] != 'exception' or not isinstance(outcome[1], ConnectionClosed) or outcome[1].code != 1001 or outcome[1].reason != 'away':
            fail(f'ended with {outcome}')
        try:
            frames = decode_all(wire.take(), is_client)
        except (ValueError, IndexError) as exception:
            fail(f'malformed data was sent: {exception!r}')
        if frames != [(1, PONG, b'one'), (1, CLOSE, closing(1001, 'away'))]:
            fail(f'sent {frames}')
        yield 60
        if not wire.lost:
            fail('the connection is not closed')
        stats.evaluations += 1
        stats.transitions += len(chunks)
        stats.state(repr(artefact))
    return function


def stream_data(is_client):
    return b''.join(encode(head_0, data, not is_client) for head_0, data in STREAM)


class WebSocketCheck(Check):
    id = 'C20'
    rule = 'a state is a distinct sequence of peer frames, local operations and connection events at one kind of endpoint, a message length, an argument, or a way of cutting the stream of the peer'
    assumptions = [
        'no extensions are in use; close codes 1012-1014 are not exercised',
        'a close frame in the middle of a fragmented message may be answered as closing or as a violation',
        'while writing is paused, or if an end of the connection or a refused frame is not waited for, only safety and termination is checked',
    ]

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        jobs = []
        for is_client, is_ssl, stuck in product((True, False), repeat = 3):
            for first in OPS:
                if is_ssl == stuck or not first.endswith('~'):
                    jobs.append(('sequence', is_client, is_ssl, stuck, first))
        for is_client in (True, False):
            jobs.append(('length', is_client))
            jobs.append(('argument', is_client))
            for name in VIOLATIONS:
                jobs.append(('violation', is_client, name))
            for index in range(4):
                jobs.append(('stream', is_client, index))
            for first in SIZED_OPS:
                jobs.append(('sizes', is_client, first))
        return jobs

    def cases(self, job, quick, stats):
        kind, is_client, *rest = job
        if kind == 'sequence':
            is_ssl, stuck, first = rest
            depth = 3 if quick or is_ssl != stuck else 4
            deep = (4 if is_ssl == stuck == False else 3) if quick else (5 if is_ssl == stuck == False else 4)
            for length in range(1, deep + 1):
                if length > depth and first not in CORE_OPS:
                    break
                sequences = Sequences(OPS if length <= depth else CORE_OPS, length, (first,))
                for ops in sequences:
                    yield sequence_case(is_client, is_ssl, stuck, ops, stats, sequences.prune)
        elif kind == 'sizes':
            first, = rest
            for length in range(1, 6 if first[0] in 'BT' and not quick else 5 if first[0] in 'BT' else 4):
                sequences = Sequences(SIZED_OPS, length, (first,))
                for ops in sequences:
                    yield sequence_case(is_client, False, False, ops, stats, sequences.prune)
        elif kind == 'violation':
            name, = rest
            deep = not quick or name in ('rsv1', 'close-utf', 'text-utf', 'big')
            for before in ((), *product(OPS, repeat = 1), *(product(OPS, repeat = 2) if deep else ())):
                for after in ((), ('t',), ('c',), ('S',), ('r',), ('s',)):
                    for is_ssl, stuck in ((False, False), (True, True)):
                        yield sequence_case(is_client, is_ssl, stuck, (*before, name, *after), stats, lambda index: None)
        elif kind == 'length':
            for length in LENGTHS:
                for value in ('bytes', 'text', 'bytearray', 'memoryview', 'items'):
                    yield length_case(is_client, length, value, stats)
        elif kind == 'argument':
            for index in range(len(ARGUMENTS)):
                yield argument_case(is_client, index, stats)
        else:
            data = stream_data(is_client)
            for number, chunks in enumerate(cuts(data, 2 if quick else 3)):
                if number % 4 == rest[0]:
                    yield stream_case(is_client, chunks, stats)
            if not rest[0]:
                yield stream_case(is_client, single_bytes(data), stats)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, tier == 'quick', stats), stats, job)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        kind = artefact[0]
        if kind == 'sequence':
            case = sequence_case(*artefact[1:4], tuple(artefact[4]), stats, lambda index: None)
        elif kind == 'length':
            case = length_case(*artefact[1:], stats)
        elif kind == 'argument':
            case = argument_case(*artefact[1:], stats)
        else:
            data = stream_data(artefact[1])
            chunks = []
            for length in artefact[2]:
                chunks.append(data[:length])
                data = data[length:]
            case = stream_case(artefact[1], tuple(chunks), stats)
        run_one(case, stats)


CHECK = WebSocketCheck()
