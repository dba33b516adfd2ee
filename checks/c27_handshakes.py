"""
C27: web socket opening handshakes: valid ones are accepted, everything else is refused, and no connection is left open.
"""
import base64, hashlib
from itertools import combinations, product

from mc.base import CLOCK, Check, Violation
from mc.vloop import quiet_stderr
from mc.wire import Sequences, cuts, outcome_of, run_cases, run_one, single_bytes

from .c20_web_socket import BINARY, CLOSE, CLOSE_TIMEOUT, TEXT, LiveWire, closing, decode_all, frame

KEY = base64.b64encode(bytes(range(16))).decode()
MAGIC = '258EAFA5-E914-47DA-95CA-C5AB0DC85B11'


def accept_of(key):
    return base64.b64encode(hashlib.sha1((key + MAGIC).encode()).digest()).decode()


class Extension:
    def __init__(self, name, parameters, accepted):
        self.name = name
        self.request_params = parameters
        self.accepted = accepted

    def are_valid_parameters(self, parameters, accepted_extensions):
        return list(parameters) in self.accepted

    def decode(self, frame, *, max_size = None):
        return frame

    def encode(self, frame):
        return frame


# what a client might send: (header lines, whether it is fine)
SERVER_FIELDS = {
    'Connection': [
        (['Upgrade'], True), (['keep-alive, Upgrade'], True), (['keep-alive', 'uPGRADE'], True), (['upgrade ,'], True),
        ([], False), (['keep-alive'], False), (['Upgraded'], False), ([''], False),
    ],
    'Upgrade': [
        (['websocket'], True), (['WebSocket'], True), ([', websocket'], True),
        ([], False), (['h2c'], False), ([''], False), (['websocket/14'], False),
    ],
    'Sec-WebSocket-Key': [
        ([KEY], True), ([base64.b64encode(b'\xff' * 16).decode()], True),
        ([], False), ([KEY, KEY[1:] + 'A'], False), ([base64.b64encode(b'\xff' * 16).decode(), KEY], False), (['a'], False), ([KEY[:-4]], False), ([KEY + 'AAAA'], False), ([''], False), (['!' + KEY], False),
        ([base64.b64encode(b'\xff' * 17).decode()], False),
    ],
    'Sec-WebSocket-Version': [
        (['13'], True),
        ([], False), (['12'], False), (['14'], False), (['13', '14'], False), (['8, 13'], False), (['1'], False), (['130'], False), ([''], False),
    ],
    'Origin': [
        (['http://good'], True),
        ([], None), (['http://evil'], None), (['http://good', 'http://evil'], None), (['http://goo'], None), (['http://good.evil'], None), ([''], None),
    ],
    'Sec-WebSocket-Protocol': [
        (['b, a'], True), ([], True), (['a', 'c'], True), (['c'], True), (['c,,b'], True), (['x, y, z, a'], True), (['c, b, x, y, a'], True),
        (['a b'], False), (['b, ('], False),
    ],
    'Sec-WebSocket-Extensions': [
        ([], True), (['known'], True), (['known; level=5'], True), (['other, known'], True), (['known; level="5"', 'second'], True), (['other; a=b; c'], True),
        (['known; level=6, second'], True), (['known;level'], True), (['permessage-deflate; client_max_window_bits'], True),
        (['known;;'], None), (['='], False), (['known level'], False),
    ],
}
FIELD_NAMES = tuple(SERVER_FIELDS)
SERVER_CONFIGURATIONS = (
    {},
    {'origin': 'http://good'},
    {'available_subprotocols': ['a', 'b']},
    {'available_subprotocols': ['b', 'c', 'a'], 'origin': 'http://good', 'extensions': True},
)


def build_request(fields, path = '/chat'):
    lines = [f'GET {path} HTTP/1.1', 'Host: host']
    for name, values in fields:
        for value in values:
            lines.append(f'{name}: {value}')
    return ('\r\n'.join(lines) + '\r\n\r\n').encode()


def parse_response(data):
    """Returns status, headers, body, rest"""
    end = data.index(b'\r\n\r\n')
    head = data[:end].decode().split('\r\n')
    version, status, *_ = head[0].split(' ', 2)
    if version != 'HTTP/1.1':
        raise ValueError(f'status line {head[0]!r}')
    headers = {}
    for line in head[1:]:
        name, separator, value = line.partition(': ')
        if not separator:
            name, separator, value = line.partition(':')
            if not separator:
                raise ValueError(f'header line {line!r}')
        headers.setdefault(name.casefold(), []).append(value)
    return int(status), headers, data[end + 4:]


def split_list(values):
    return [piece.strip(' \t') for value in values for piece in value.split(',') if piece.strip(' \t')]


class ServerStandIn:
    """Stand-in of the listening server."""
    def __init__(self, loop, factory):
        self.loop = loop
        self.factory = factory
        self.sockets = None

    async def start(self):
        self.sockets = ['socket']

    def close(self):
        self.sockets = None

    async def wait_closed(self):
        return


class ServerWorld:
    def __init__(self, env):
        from scarletio import Task
        self.env = env
        self.loop = env.loop
        self.web_sockets = []
        self.finished = []
        self.mode = 'echo'
        self.server = None
        self.wires = []

    async def start(self, configuration, request_processor = None, extra_response_headers = None):
        from scarletio.web_socket import WebSocketServer
        configuration = dict(configuration)
        if configuration.pop('extensions', False):
            configuration['available_extensions'] = [Extension('known', [], [[], [('level', '5')]]), Extension('second', [], [[]])]

        async def create_server_to(factory, host, port, **keyword_parameters):
            return ServerStandIn(self.loop, factory)
        self.loop.create_server_to = create_server_to
        self.server = await WebSocketServer(
            self.loop, '10.0.0.1', 80, self.handler, request_processor = request_processor, extra_response_headers = extra_response_headers,
            web_socket_keyword_parameters = {'close_timeout': CLOSE_TIMEOUT}, **configuration,
        )

    async def handler(self, web_socket):
        from scarletio import Future
        self.web_sockets.append(web_socket)
        try:
            mode = self.mode
            if mode == 'echo':
                await web_socket.send(await web_socket.receive())
            elif mode == 'return':
                return
            elif mode == 'raise':
                await web_socket.receive()
                raise ValueError('handler failed')
            elif mode == 'close':
                await web_socket.receive()
                await web_socket.close(4000, 'done')
            elif mode == 'wait':
                await Future(self.loop)
            elif mode == 'loop':
                while True:
                    await web_socket.send(await web_socket.receive())
        finally:
            self.finished.append(web_socket)

    def connect(self, stuck = False):
        wire = LiveWire(self.loop, stuck)
        protocol = self.server.server.factory()
        wire.protocol = protocol
        self.wires.append(wire)
        protocol.connection_made(wire)
        return protocol, wire


def expected_subprotocols(offered, available):
    if available is None:
        return {None}
    ranked = {}
    for name in set(offered) & set(available):
        ranked.setdefault(offered.index(name) + available.index(name), set()).add(name)
    return ranked[min(ranked)] if ranked else {None}


def server_case(configuration_index, choice, chunks_of, stats):
    """choice : dict of field name -> index; chunks_of : function giving the chunks of the stream"""
    def function(env):
        from scarletio import Task
        loop = env.loop
        configuration = SERVER_CONFIGURATIONS[configuration_index]
        artefact = ['server', configuration_index, dict(choice)]
        label = f'{configuration}, ' + ', '.join(f'{name} = {SERVER_FIELDS[name][index][0]}' for name, index in choice.items() if index)

        def fail(message):
            raise Violation(f'server: {message[:50]}', f'{message}; with {label}', artefact)

        world = ServerWorld(env)
        starting = Task(loop, world.start(configuration, None, {'X-Extra': 'more'}))
        yield
        starting.get_result()
        fields = []
        good = True
        unsure = False
        for name in FIELD_NAMES:
            values, fine = SERVER_FIELDS[name][choice.get(name, 0)]
            fields.append((name, values))
            if name == 'Origin' and configuration.get('origin') is None:
                fine = True
            elif name == 'Sec-WebSocket-Protocol' and configuration.get('available_subprotocols') is None:
                fine = True
            elif name == 'Origin':
                fine = bool(fine)
            if name == 'Sec-WebSocket-Extensions' and fine is None:
                unsure = True
            elif not fine:
                good = False
        stream = build_request(fields)
        message = frame(TEXT, b'hello', True)
        protocol, wire = world.connect()
        yield
        for chunk in chunks_of(stream, message):
            protocol.data_received(chunk)
            yield
        data = wire.take()
        try:
            status, headers, rest = parse_response(data)
        except ValueError as exception:
            fail(f'malformed response {data!r} ({exception})')
        if status == 101:
            if not good:
                fail('an invalid handshake was accepted')
            key = SERVER_FIELDS['Sec-WebSocket-Key'][choice.get('Sec-WebSocket-Key', 0)][0][0]
            if headers.get('sec-websocket-accept') != [accept_of(key)]:
                fail(f'wrong accept key {headers.get("sec-websocket-accept")}')
            if [value.casefold() for value in headers.get('upgrade', ())] != ['websocket'] or [value.casefold() for value in headers.get('connection', ())] != ['upgrade']:
                fail(f'wrong upgrade {headers}')
            if headers.get('x-extra') != ['more']:
                fail(f'extra response headers are missing {headers}')
            offered = split_list(SERVER_FIELDS['Sec-WebSocket-Protocol'][choice.get('Sec-WebSocket-Protocol', 0)][0])
            selected = headers.get('sec-websocket-protocol')
            selected = selected[0] if selected else None
            if selected not in expected_subprotocols(offered, configuration.get('available_subprotocols')):
                fail(f'sub protocol {selected!r} was selected out of {offered!r}')
            if protocol.subprotocol != selected:
                fail(f'sub protocol {selected!r} was answered, {protocol.subprotocol!r} is used')
            extensions = [value.strip() for value in split_list(headers.get('sec-websocket-extensions', ()))]
            if [extension.partition(';')[0].strip() for extension in extensions] != [extension.name for extension in protocol.extensions or ()]:
                fail(f'extensions {extensions} were answered, {[extension.name for extension in protocol.extensions or ()]} are used')
            offered_extensions = [[piece.strip().replace('"', '') for piece in value.split(';')] for value in split_list(SERVER_FIELDS['Sec-WebSocket-Extensions'][choice.get('Sec-WebSocket-Extensions', 0)][0])]
            expected = []
            if configuration.get('extensions'):
                expected = ['; '.join(parts) for parts in offered_extensions if parts in (['known'], ['known', 'level=5'], ['second'])]
            if not unsure and [extension.replace('"', '') for extension in extensions] != expected:
                fail(f'extensions {extensions} were answered, expected {expected}')
            if len(world.web_sockets) != 1 or world.web_sockets[0] is not protocol:
                fail('the handler was not called once')
            try:
                frames = decode_all(rest, False)
            except (ValueError, IndexError) as exception:
                fail(f'{rest!r} is written after the handshake: {exception}')
            if frames != [(1, TEXT, b'hello'), (1, CLOSE, closing(1000))]:
                fail(f'the handler did not get or answer the first message: {frames}')
            protocol.data_received(frame(CLOSE, closing(1000), True))
            yield
            if not wire.lost or protocol.close_code != 1000:
                fail(f'the connection did not close at the end of the handler ({protocol.close_code})')
        else:
            if good and not unsure:
                fail(f'a valid handshake was refused with {status} {rest!r}')
            if not 400 <= status < 600:
                fail(f'refused with {status}')
            if headers.get('connection') != ['close'] or headers.get('content-length') != [str(len(rest))]:
                fail(f'malformed refusal {headers} {rest!r}')
            if world.web_sockets:
                fail('the handler was called')
            yield CLOSE_TIMEOUT * 3
            if not wire.lost:
                fail('the refused connection stayed open')
        yield
        if world.server.web_sockets:
            fail('the connection stayed registered')
        stats.evaluations += 1
        stats.transitions += 3
        stats.state(repr((configuration_index, sorted(choice.items()), len(stats.states) if not choice else 0)))
        stats.outcome(status)
        task = world.server.close()
        yield CLOSE_TIMEOUT * 3
        if outcome_of(task) != ('result', None):
            fail(f'closing the server ended with {outcome_of(task)}')
    return function


# life cycles of connections of a server

PROCESSORS = ('none', 'accept', 'async', 'slow', 'refuse', 'async-refuse', 'headers', 'raise')
LIFE = (
    'connect', 'request', 'half', 'other-half', 'garbage', 'message', 'close', 'eof', 'reset', 'lost', 'go', 'shut', '+11', '+25',
    'connect~', 'request~', 'message~', 'close~', 'eof~', 'reset~', 'go~', 'shut~',
)


def life_case(processor, mode, stuck, names, stats, prune = lambda index: None):
    def function(env):
        from http import HTTPStatus
        from scarletio import Future, Task
        loop = env.loop
        artefact = ['life', processor, mode, stuck, list(names)]

        def fail(message):
            raise Violation(f'life: {message[:60]}', f'{message}; request processor {processor}, handler {mode}, stuck {stuck}: {names}', artefact)

        world = ServerWorld(env)
        world.mode = mode
        waiters = []

        def process(path, headers):
            if path != '/chat' or headers.get('upgrade') != 'websocket':
                raise AssertionError(f'{path!r} {headers!r}')
            if processor == 'accept':
                return None
            if processor == 'refuse':
                return ('no entry', HTTPStatus.FORBIDDEN)
            if processor == 'headers':
                from scarletio import IgnoreCaseMultiValueDictionary
                headers = IgnoreCaseMultiValueDictionary()
                headers['X-Why'] = 'because'
                return ('no entry\n', HTTPStatus.NOT_FOUND, headers)
            if processor == 'raise':
                raise ValueError('processor failed')
            return process_async()

        async def process_async():
            if processor == 'slow':
                waiter = Future(loop)
                waiters.append(waiter)
                await waiter
            if processor == 'async-refuse':
                return ('no entry', HTTPStatus.FORBIDDEN)

        starting = Task(loop, world.start({}, None if processor == 'none' else process))
        yield
        starting.get_result()
        request = build_request([(name, SERVER_FIELDS[name][0][0]) for name in FIELD_NAMES])
        connections = []        # (protocol, wire, state)
        server_task = None
        shut_at = None

        def last():
            return connections[-1] if connections else None

        def apply(op):
            nonlocal server_task, shut_at
            if op == 'connect':
                if len(connections) >= 2 or shut_at is not None:
                    return False
                protocol, wire = world.connect(stuck)
                connections.append({'protocol': protocol, 'wire': wire, 'sent': 'nothing', 'ended': False, 'closed': False, 'written': b'', 'shut': False, 'messages': 0, 'since': CLOCK.now, 'early': False})
                return True
            if op == 'shut':
                if server_task is not None:
                    return False
                shut_at = CLOCK.now
                for connection in connections:
                    connection['shut'] = True
                server_task = world.server.close()
                return True
            connection = last()
            if connection is None:
                return False
            protocol = connection['protocol']
            wire = connection['wire']
            if op == 'go':
                pending = [waiter for waiter in waiters if not waiter.is_done()]
                if not pending:
                    return False
                pending[0].set_result(None)
                return True
            if wire.closing and op != 'lost':
                return False
            if connection['ended'] and op != 'lost':
                return False
            if op in ('request', 'half', 'garbage'):
                if connection['sent'] != 'nothing':
                    return False
                connection['sent'] = op
                protocol.data_received({'request': request, 'half': request[:40], 'garbage': b'\x16\x03\x01\r\n\r\n'}[op])
                return True
            if op == 'other-half':
                if connection['sent'] != 'half':
                    return False
                connection['sent'] = 'request'
                protocol.data_received(request[40:])
                return True
            if op in ('message', 'close'):
                if connection['sent'] != 'request' or connection['closed']:
                    return False
                if op == 'message':
                    connection['messages'] += 1
                    protocol.data_received(frame(TEXT, b'hello', True))
                else:
                    connection['closed'] = True
                    protocol.data_received(frame(CLOSE, closing(1000), True))
                return True
            if op == 'eof':
                connection['ended'] = True
                wire.eof_received()
                return True
            if op == 'reset':
                connection['ended'] = True
                wire.connection_lost(ConnectionResetError('reset'))
                return True
            if op == 'lost':
                if wire.lost:
                    return False
                connection['ended'] = True
                wire.connection_lost(None)
                return True
            raise RuntimeError(op)

        for index, name in enumerate(names):
            if name.startswith('+'):
                yield float(name[1:])
                continue
            if not apply(name.rstrip('~')):
                prune(index)
                return
            stats.transitions += 1
            if not name.endswith('~'):
                yield
        yield
        for waiter in waiters:
            waiter.set_result_if_pending(None)
        yield
        refused = processor in ('refuse', 'async-refuse', 'headers', 'raise')
        for connection in connections:
            written = connection['wire'].take()
            protocol = connection['protocol']
            opened = protocol in world.web_sockets
            if connection['sent'] != 'request' and opened:
                fail('the handler was called without a request')
            if refused and opened:
                fail('the handler was called for a refused request')
            if len([web_socket for web_socket in world.web_sockets if web_socket is protocol]) > 1:
                fail('the handler was called more times')
            untouched = not connection['ended'] and not connection['shut']
            if connection['sent'] == 'request' and untouched and not refused and not opened:
                fail(f'the handler was not called; written {written!r}')
            if written:
                try:
                    status, headers, rest = parse_response(written)
                except ValueError as exception:
                    fail(f'malformed response {written!r}')
                if (status == 101) < opened:
                    fail(f'the handler was called, but {status} was answered')
                if status == 101:
                    try:
                        frames = decode_all(rest, False)
                    except (ValueError, IndexError) as exception:
                        fail(f'malformed frames {rest!r} {exception!r}')
                    if any(item[1] == CLOSE for item in frames[:-1]):
                        fail(f'frames are sent after a close frame {frames}')
                    if untouched and mode in ('return',) and frames != [(1, CLOSE, closing(1000))]:
                        fail(f'the connection was not closed at the end of the handler: {frames}')
                    if untouched and mode == 'close' and connection['messages'] and frames != [(1, CLOSE, closing(4000, 'done'))] and not connection['closed']:
                        fail(f'the handler could not close the connection: {frames}')
                    if untouched and mode == 'loop' and len([item for item in frames if item == (1, TEXT, b'hello')]) != connection['messages'] and not connection['closed']:
                        fail(f'messages were not answered: {frames}')
                    if untouched and mode == 'echo' and connection['messages'] and not connection['closed'] and frames != [(1, TEXT, b'hello'), (1, CLOSE, closing(1000))]:
                        fail(f'messages were not answered: {frames}')
                    if untouched and mode == 'raise' and connection['messages'] and not connection['closed'] and not any(item[1] == CLOSE for item in frames):
                        fail(f'the connection stayed open when the handler failed: {frames}')
                else:
                    if not 400 <= status < 600:
                        fail(f'refused with {status}')
                    if headers.get('content-length') != [str(len(rest))] or headers.get('connection') != ['close']:
                        fail(f'malformed refusal {written!r}')
                    if connection['sent'] == 'request' and untouched:
                        if processor in ('refuse', 'async-refuse') and (status, rest) != (403, b'no entry\n'):
                            fail(f'refused with {status} {rest!r}')
                        if processor == 'headers' and (status, rest, headers.get('x-why')) != (404, b'no entry\n', ['because']):
                            fail(f'refused with {status} {rest!r} {headers}')
                        if processor == 'raise' and status != 500:
                            fail(f'refused with {status}')
                    if shut_at is not None and connection['sent'] == 'request' and status == 200:
                        fail('accepted')
            elif connection['sent'] in ('request', 'garbage') and untouched:
                fail('no response was written')

        # the end: the peer disappears, without ending the connection
        for connection in connections:
            wire = connection['wire']
            if (connection['sent'] in ('nothing', 'half') or mode in ('wait', 'echo', 'raise', 'close', 'loop')) and not connection['shut'] and not wire.closing:
                wire.connection_lost(ConnectionResetError('reset'))
        yield CLOSE_TIMEOUT * 6
        for web_socket in world.web_sockets:
            if web_socket not in world.finished and mode != 'wait':
                fail('a handler never ends')
        if mode == 'wait':
            for web_socket in world.web_sockets:
                if web_socket.handler_task is not None:
                    web_socket.handler_task.cancel()
            yield CLOSE_TIMEOUT * 3
        for connection in connections:
            if not connection['wire'].lost:
                fail('a connection was never closed')
        if world.server.web_sockets:
            fail('a connection stayed registered')
        if server_task is None:
            server_task = world.server.close()
            yield CLOSE_TIMEOUT * 6
        if outcome_of(server_task) != ('result', None):
            fail(f'closing the server ended with {outcome_of(server_task)}')
        stats.evaluations += 1
        stats.state(repr((processor, mode, stuck, names)))
        stats.outcome((len(world.web_sockets), len(connections)))
    return function


# the client

CLIENT_FIELDS = {
    'status': [('HTTP/1.1 101 Switching Protocols', True), ('HTTP/1.1 101', True), ('HTTP/1.1 200 OK', False), ('HTTP/1.0 101 Switching Protocols', False), ('HTTP/1.1 403 Forbidden', False)],
    'Connection': SERVER_FIELDS['Connection'],
    'Upgrade': SERVER_FIELDS['Upgrade'],
    'Sec-WebSocket-Accept': [
        (['{accept}'], True),
        ([], False), (['{key}'], False), (['{accept}', '{swapped}'], False), (['x{accept}'], False), ([''], False), (['{swapped}'], False),
    ],
    'Sec-WebSocket-Protocol': [
        ([], True), (['a'], 'protocols'), (['b'], 'protocols'), (['c'], False), (['a, b'], False), (['a', 'b'], False), (['A'], False), ([''], None),
    ],
    'Sec-WebSocket-Extensions': [
        ([], True), (['known'], 'extensions'), (['known; level=5'], 'extensions'), (['known', 'second'], 'extensions'), (['known, second'], 'extensions'), (['other'], False), (['known; level=6'], False), (['known, other'], False),
    ],
}
CLIENT_NAMES = tuple(CLIENT_FIELDS)
CLIENT_CONFIGURATIONS = (
    {},
    {'available_subprotocols': ['a', 'b']},
    {'available_subprotocols': ['b', 'c2'], 'extensions': True, 'origin': 'http://me', 'headers': {'X-Mine': 'yes'}},
)
URLS = (
    ('ws://example.com/chat', 'example.com', '/chat', None),
    ('ws://10.0.0.1/chat', '10.0.0.1', '/chat', None),
    ('ws://10.0.0.1:80/chat', '10.0.0.1', '/chat', None),
    ('ws://10.0.0.1:8080/', '10.0.0.1:8080', '/', None),
    ('ws://10.0.0.1', '10.0.0.1', '/', None),
    ('ws://10.0.0.1/a?b=c&d=e#fragment', '10.0.0.1', '/a?b=c&d=e', None),
    ('wss://10.0.0.1/chat', '10.0.0.1', '/chat', None),
    ('wss://10.0.0.1:443/chat', '10.0.0.1', '/chat', None),
    ('wss://10.0.0.1:80/chat', '10.0.0.1:80', '/chat', None),
    ('ws://[::1]/chat', '[::1]', '/chat', None),
    ('ws://[::1]:8080/chat', '[::1]:8080', '/chat', None),
    ('ws://user:password@10.0.0.1/chat', '10.0.0.1', '/chat', 'Basic ' + base64.b64encode(b'user:password').decode()),
    ('ws://user@10.0.0.1/chat', '10.0.0.1', '/chat', 'Basic ' + base64.b64encode(b'user:').decode()),
    ('ws://h\u00f6st.com/chat', 'xn--hst-sna.com', '/chat', None),
)


def client_case(configuration_index, choice, chunks_of, url_index, stats, event = None):
    def function(env):
        from scarletio import Task
        from scarletio.http_client import HTTPClient
        from scarletio.web_common import InvalidHandshake
        loop = env.loop
        artefact = ['client', configuration_index, dict(choice), url_index, event]
        url, host, path, authorization = URLS[url_index]
        configuration = CLIENT_CONFIGURATIONS[configuration_index]
        keywords = dict(configuration)
        if keywords.pop('extensions', False):
            keywords['available_extensions'] = [Extension('known', [], [[], [('level', '5')]]), Extension('second', [('a', None), ('b', 'c')], [[]])]
        label = f'{url}, {configuration}, {event}, ' + ', '.join(f'{name} = {CLIENT_FIELDS[name][index][0]}' for name, index in choice.items() if index)

        def fail(message):
            raise Violation(f'client: {message[:50]}', f'{message}; with {label}', artefact)

        wires = []

        async def create_connection_to(protocol_factory, host, port = None, **keyword_parameters):
            protocol = protocol_factory()
            wire = LiveWire(loop, False)
            wire.protocol = protocol
            wire.secure = keyword_parameters.get('ssl_context') is not None
            wire.destination = (host, port)

            def set_protocol(new):
                wire.protocol = new
            wire.set_protocol = set_protocol
            wires.append(wire)
            protocol.connection_made(wire)
            return protocol

        async def get_address_info(host, port, **keyword_parameters):
            import socket
            return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', ('10.0.0.7', port))]

        loop.create_connection_to = create_connection_to
        loop.get_address_info = get_address_info
        client = HTTPClient(loop)

        async def connect():
            return await client.connect_web_socket(url, close_timeout = CLOSE_TIMEOUT, **keywords)

        task = Task(loop, connect())
        yield
        if len(wires) != 1:
            fail(f'{len(wires)} connections are opened; {outcome_of(task)}')
        wire, = wires
        if wire.secure != url.startswith('wss'):
            fail('wrong security')
        expected_port = (443 if wire.secure else 80) if host.startswith('[') and host.endswith(']') or ':' not in host.rpartition(']')[2] else int(host.rpartition(':')[2])
        if wire.destination[1] != expected_port:
            fail(f'connected to port {wire.destination[1]}')
        request = wire.take()
        lines = request.split(b'\r\n')
        if not request.endswith(b'\r\n\r\n') or lines[0] != f'GET {path} HTTP/1.1'.encode():
            fail(f'malformed request {request!r}')
        headers = {}
        for line in lines[1:-2]:
            name, separator, value = line.decode().partition(': ')
            headers.setdefault(name.casefold(), []).append(value)
        key = headers.get('sec-websocket-key', [''])[0]
        if len(headers.get('sec-websocket-key', ())) != 1 or len(base64.b64decode(key, validate = True)) != 16:
            fail(f'wrong key {key!r}')
        if headers.get('host') != [host]:
            fail(f'wrong host {headers.get("host")}, expected {host!r}')
        if headers.get('upgrade') != ['websocket'] or headers.get('connection') != ['Upgrade'] or headers.get('sec-websocket-version') != ['13']:
            fail(f'malformed request {request!r}')
        if headers.get('authorization') != (None if authorization is None else [authorization]):
            fail(f'wrong authorization {headers.get("authorization")}')
        if headers.get('origin') != ([configuration['origin']] if 'origin' in configuration else None):
            fail(f'wrong origin {headers.get("origin")}')
        if split_list(headers.get('sec-websocket-protocol', ())) != list(configuration.get('available_subprotocols', ())):
            fail(f'wrong sub protocols {headers.get("sec-websocket-protocol")}')
        if split_list(headers.get('sec-websocket-extensions', ())) != (['known', 'second; a; b=c'] if configuration.get('extensions') else []):
            fail(f'wrong extensions {headers.get("sec-websocket-extensions")}')
        if headers.get('x-mine') != (['yes'] if 'headers' in configuration else None):
            fail(f'the additional headers are missing {headers}')

        good = True
        unsure = False
        lines = []
        for name in CLIENT_NAMES:
            values, fine = CLIENT_FIELDS[name][choice.get(name, 0)]
            if name == 'status':
                lines.append(values)
            else:
                for value in values:
                    lines.append(f'{name}: {value}'.format(accept = accept_of(key), key = key, swapped = accept_of(key).swapcase()))
            if fine == 'protocols':
                fine = values[0] in configuration.get('available_subprotocols', ())
            elif fine == 'extensions':
                fine = bool(configuration.get('extensions'))
            if fine is None:
                unsure = True
            elif not fine:
                good = False
        if not lines[0].startswith('HTTP/1.1 101'):
            lines.append('Content-Length: 0')
        stream = ('\r\n'.join(lines) + '\r\n\r\n').encode()
        switched = ' 101' in lines[0]
        message = frame(TEXT, b'hello', False)

        ended = False
        for number, chunk in enumerate(chunks_of(stream, message) if switched else (stream,)):
            if event is not None and event[1] == number:
                if event[0] == 'eof':
                    wire.eof_received()
                elif event[0] == 'reset':
                    wire.connection_lost(ConnectionResetError('reset'))
                elif event[0] == 'cancel':
                    task.cancel()
                elif event[0] == 'shut':
                    client.close()
                elif event[0] == 'timeout':
                    yield 61.0
                ended = True
                break
            wire.protocol.data_received(chunk)
            yield
        yield
        outcome = outcome_of(task)
        if ended:
            if outcome[0] == 'result' or outcome[0] == 'pending':
                fail(f'the handshake ended with {outcome}')
            if event[0] == 'cancel' and outcome[0] != 'cancelled':
                fail(f'the cancelled handshake ended with {outcome}')
            if not wire.lost:
                fail('the connection stayed open')
        elif outcome[0] == 'exception':
            if good and not unsure:
                fail(f'a valid response is refused: {outcome[1]!r}')
            if not isinstance(outcome[1], (InvalidHandshake, ValueError)):
                fail(f'an invalid response is refused with {outcome[1]!r}')
            if wire.take():
                fail('something is written after the refusal')
            if switched and not wire.lost:
                fail('the connection stayed open')
        elif outcome[0] == 'result':
            if not good:
                fail('an invalid response is accepted')
            web_socket = outcome[1]
            selected = split_list(CLIENT_FIELDS['Sec-WebSocket-Protocol'][choice.get('Sec-WebSocket-Protocol', 0)][0])
            if not unsure and web_socket.subprotocol != (selected[0] if selected else None):
                fail(f'sub protocol {web_socket.subprotocol!r} is used instead of {selected}')
            extensions = split_list(CLIENT_FIELDS['Sec-WebSocket-Extensions'][choice.get('Sec-WebSocket-Extensions', 0)][0])
            if [extension.name for extension in web_socket.extensions or ()] != [extension.partition(';')[0] for extension in extensions]:
                fail(f'extensions {[extension.name for extension in web_socket.extensions or ()]} are used instead of {extensions}')
            received = Task(loop, web_socket.receive().__await__() if False else receive(web_socket))
            sent = Task(loop, web_socket.send('hi'))
            yield
            if outcome_of(received) != ('result', 'hello') or outcome_of(sent) != ('result', None):
                fail(f'the first messages ended with {outcome_of(received)}, {outcome_of(sent)}')
            if decode_all(wire.take(), True) != [(1, TEXT, b'hi')]:
                fail('the first message is not sent')
            # the client closing should not affect it
            client.close()
            yield
            if wire.closing:
                fail('the web socket was closed with its client')
            closing_task = Task(loop, web_socket.close())
            yield
            wire.protocol.data_received(frame(CLOSE, closing(1000), False))
            yield
            if outcome_of(closing_task) != ('result', None) or not wire.lost:
                fail(f'closing ended with {outcome_of(closing_task)}')
        else:
            fail(f'the handshake ended with {outcome}')
        client.close()
        yield 61.0
        if not wire.lost:
            fail('the connection was never closed')
        del loop.create_connection_to, loop.get_address_info
        stats.evaluations += 1
        stats.transitions += 4
        stats.state(repr((configuration_index, sorted(choice.items()), url_index, event, len(stats.states) if not choice else 0)))
        stats.outcome(outcome[0])
    return function


async def receive(web_socket):
    return await web_socket.receive()


def tolerated(exception):
    """Errors of peers, handlers and request processors are reported to the standard error."""
    from scarletio.web_common import ConnectionClosed, PayloadError
    if isinstance(exception, (ConnectionError, ConnectionClosed, PayloadError)):
        return True
    return str(exception) in ('handler failed', 'processor failed') or 'no attached transport' in str(exception)


def together(stream, message):
    return (stream + message,)


def separate(stream, message):
    return (stream, message)


def choices(fields, most):
    """Every choice in which at most `most` fields differ from the first."""
    names = tuple(fields)
    for count in range(most + 1):
        for selected in combinations(names, count):
            for indexes in product(*(range(1, len(fields[name])) for name in selected)):
                yield dict(zip(selected, indexes))


class HandshakesCheck(Check):
    id = 'C27'
    rule = 'a state is a distinct handshake (header variants, cut, event) or a distinct sequence of connecting, sending, ending and time'
    assumptions = ['the listening server and connecting are stand-ins', 'extensions are stand-ins accepting listed parameters']

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for index in range(len(SERVER_CONFIGURATIONS)):
            for part in range(4):
                jobs.append(('server', index, part, 2 if quick else 3))
        for index in range(len(CLIENT_CONFIGURATIONS)):
            for part in range(4):
                jobs.append(('client', index, part, 2 if quick else 3))
        jobs.append(('server-cuts', 1 if quick else 2))
        jobs.append(('client-cuts', 1 if quick else 2))
        jobs.append(('client-events',))
        jobs.append(('urls',))
        for processor in PROCESSORS:
            for mode in ('echo', 'return', 'raise', 'close', 'wait', 'loop'):
                if processor not in ('none', 'slow') and mode != 'echo' and quick:
                    continue
                for stuck in (False, True):
                    for second in LIFE:
                        if stuck and quick and second not in ('request', 'shut', 'garbage', 'half'):
                            continue
                        jobs.append(('life', processor, mode, stuck, second, (5 if processor in ('none', 'slow') and not stuck else 4) + (not quick)))
        return jobs

    def cases(self, job, stats):
        kind = job[0]
        if kind == 'server':
            _, index, part, most = job
            for number, choice in enumerate(choices(SERVER_FIELDS, most)):
                if number % 4 == part:
                    yield server_case(index, choice, together if number & 1 else separate, stats)
        elif kind == 'client':
            _, index, part, most = job
            for number, choice in enumerate(choices(CLIENT_FIELDS, most)):
                if number % 4 == part:
                    yield client_case(index, choice, together if number & 1 else separate, 1, stats)
        elif kind == 'server-cuts':
            stream = build_request([(name, SERVER_FIELDS[name][0][0]) for name in FIELD_NAMES])
            whole = stream + frame(TEXT, b'hello', True)
            for chunks in (*cuts(whole, job[1]), single_bytes(whole)):
                yield server_case(3, {}, lambda stream, message, chunks = chunks: chunks, stats)
        elif kind == 'client-cuts':
            # the length of the stream is fixed
            for places in (*((place,) for place in range(1, 150)), *(combinations(range(1, 150, 1), 2) if job[1] > 1 else combinations(range(100, 150), 2)), None):
                yield client_case(1, {}, cutter(places), 1, stats)
        elif kind == 'client-events':
            for number in range(0, 4):
                for name in ('eof', 'reset', 'cancel', 'shut', 'timeout'):
                    for index in range(3):
                        yield client_case(index, {}, cutter((10, 60, 100)), 1, stats, (name, number))
        elif kind == 'urls':
            for url_index in range(len(URLS)):
                for index in range(3):
                    yield client_case(index, {}, separate, url_index, stats)
        else:
            _, processor, mode, stuck, second, depth = job
            sequences = Sequences(LIFE, depth, ('connect', second))
            for names in sequences:
                yield life_case(processor, mode, stuck, names, stats, sequences.prune)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, stats), stats, job, tolerated = tolerated)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        kind = artefact[0]
        if kind == 'server':
            for chunks_of in (together, separate, lambda stream, message: single_bytes(stream + message)):
                run_one(server_case(artefact[1], artefact[2], chunks_of, stats), stats)
        elif kind == 'client':
            event = artefact[4]
            for chunks_of in (together, separate, cutter(None)) if event is None else (cutter((10, 60, 100)),):
                run_one(client_case(artefact[1], artefact[2], chunks_of, artefact[3], stats, event and tuple(event)), stats)
        else:
            run_one(life_case(artefact[1], artefact[2], artefact[3], tuple(artefact[4]), stats), stats)


def cutter(places):
    def chunks_of(stream, message):
        whole = stream + message
        if places is None:
            return single_bytes(whole)
        edges = [0, *places, len(whole)]
        return tuple(whole[start:end] for start, end in zip(edges, edges[1:]) if start < end)
    return chunks_of


CHECK = HandshakesCheck()
