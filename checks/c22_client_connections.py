"""
C22: the http client: every request gets its own response, connections are reused only when (and whenever) they are clean, none of them leaks.
"""
import gc

from mc.base import CLOCK, Check, Violation
from mc.vloop import quiet_stderr
from mc.wire import Sequences, Wire, outcome_of, run_cases, run_one

REQUEST_TIMEOUT = 60.0
KEEP_ALIVE = 15.0


class ServerWire(Wire):
    """Connection to the scripted server. It parses what arrives strictly."""
    def __init__(self, world, host, port):
        Wire.__init__(self)
        self.world = world
        self.host = host
        self.port = port
        self.lost = False
        self.buffer = b''
        self.requests = []          # [path, body, complete, answered] every request which arrived here
        self.dirty = None           # why it may not be used again
        self.expires = None         # until when it could be reused
        self.served = 0

    def __repr__(self):
        return f'connection {self.world.connections.index(self)}'

    def write(self, data):
        if self.closing:
            return
        self.buffer += bytes(data)
        self.parse()

    def fail(self, message):
        self.world.problems.append(f'{self!r}: {message}')

    def parse(self):
        while self.buffer:
            requests = self.requests
            if not requests or requests[-1]['complete']:
                if self.dirty is not None:
                    self.fail(f'{self.buffer!r} written although {self.dirty}')
                    self.buffer = b''
                    return
                if requests and not requests[-1]['answered']:
                    self.fail(f'{self.buffer!r} written although the previous request is not answered yet')
                end = self.buffer.find(b'\r\n\r\n')
                if end == -1:
                    return
                head = self.buffer[:end].decode('ascii').split('\r\n')
                self.buffer = self.buffer[end + 4:]
                method, path, version = head[0].split(' ')
                if version != 'HTTP/1.1':
                    self.fail(f'request line {head[0]!r}')
                headers = {}
                for line in head[1:]:
                    name, value = line.split(': ', 1)
                    headers.setdefault(name.casefold(), []).append(value)
                host = self.host if self.port == 80 else f'{self.host}:{self.port}'
                if headers.get('host') != [host]:
                    self.fail(f'host {headers.get("host")!r} of the request instead of {host!r}')
                chunked = headers.get('transfer-encoding') == ['chunked']
                length = int(headers['content-length'][0]) if 'content-length' in headers else 0
                if chunked and 'content-length' in headers:
                    self.fail('both length and chunked')
                request = {
                    'method': method, 'path': path, 'headers': headers, 'chunked': chunked, 'length': length, 'body': b'',
                    'complete': not chunked and not length, 'answered': False, 'part': False, 'wire': self,
                }
                requests.append(request)
                self.world.arrived.append(request)
                continue
            request = requests[-1]
            if request['chunked']:
                end = self.buffer.find(b'\r\n')
                if end == -1:
                    return
                size = int(self.buffer[:end], 16)
                if len(self.buffer) < end + 4 + size:
                    return
                request['body'] += self.buffer[end + 2 : end + 2 + size]
                if self.buffer[end + 2 + size : end + 4 + size] != b'\r\n':
                    self.fail(f'malformed chunk {self.buffer!r}')
                self.buffer = self.buffer[end + 4 + size :]
                if not size:
                    request['complete'] = True
            else:
                missing = request['length'] - len(request['body'])
                request['body'] += self.buffer[:missing]
                self.buffer = self.buffer[missing:]
                if len(request['body']) == request['length']:
                    request['complete'] = True

    def connection_lost(self, exception):
        if not self.lost:
            self.lost = True
            self.closing = True
            self.protocol.connection_lost(exception)

    def close(self):
        if not self.closing:
            self.closing = True
            self.world.loop.call_soon(self.connection_lost, None)

    def abort(self):
        self.closing = True
        self.aborted = True
        self.world.loop.call_soon(self.connection_lost, None)

    def get_extra_info(self, name, default = None):
        return default


class World:
    def __init__(self, loop):
        self.loop = loop
        self.connections = []
        self.arrived = []
        self.problems = []
        self.connecting = []
        self.slow = False
        loop.create_connection_to = self.create_connection_to

    async def create_connection_to(self, protocol_factory, host, port = None, **keyword_parameters):
        if self.slow:
            from scarletio import Future
            waiter = Future(self.loop)
            self.connecting.append(waiter)
            await waiter
        protocol = protocol_factory()
        wire = ServerWire(self, host, port)
        wire.protocol = protocol
        self.connections.append(wire)
        protocol.connection_made(wire)
        return protocol


def response(status, headers, body):
    return f'HTTP/1.1 {status} Whatever\r\n{"".join(f"{name}: {value}" + chr(13) + chr(10) for name, value in headers)}\r\n'.encode() + body


# what the server answers: name -> (status, headers, split)
ANSWERS = ('ok', 'chunked', 'part', 'head', 'no-content', 'not-modified', 'close', 'old', 'till-eof', 'short', 'max', 'more', 'bad', 'hanging', 'early')


def is_length_dirty(name):
    return name in ('close', 'old', 'till-eof', 'more', 'bad')


def case(names, stats, prune = lambda index: None, alphabet = None):
    def function(env):
        from scarletio import CancelledError, Task, Future
        from scarletio.http_client import HTTPClient
        from scarletio.web_common.exceptions import PayloadError

        loop = env.loop
        world = World(loop)
        client = HTTPClient(loop)
        position = [0]
        requests = []       # what the client started
        readers = []
        shut = False
        unsettled = False
        loose = False       # whether operations happened without letting the loop settle: the exact time of returning is not known

        def fail(message):
            raise Violation(f'{names[-1]}: {message[:60]}', f'{names}: {message}', names)

        def check_problems():
            if world.problems:
                fail(world.problems[0])

        def start(host, method = 'GET', upload = None, port = 80):
            number = len(requests)
            path = f'/{number}'
            entry = {
                'number': number, 'path': path, 'host': host, 'method': method, 'response': None, 'released': False, 'cancelled': False, 'upload': upload,
                'started': CLOCK.now, 'opened': len(world.connections), 'readable': True, 'shut': False, 'fed': b'', 'lost': False, 'waiter': None, 'port': port,
            }

            if upload == 'stream':
                async def feed():
                    while True:
                        entry['waiter'] = waiter = Future(loop)
                        piece = await waiter
                        if piece is None:
                            break
                        yield piece
                data = feed()
            elif upload == 'bytes':
                data = b'uploaded'
            else:
                data = None

            async def perform():
                entry['response'] = await client.request2(method, f'http://{host}{"" if port == 80 else ":" + str(port)}{path}', data = data)

            entry['task'] = Task(loop, perform())
            requests.append(entry)
            return entry

        def arrived_of(entry):
            for request in world.arrived:
                if request['path'] == entry['path']:
                    return request

        def open_requests():
            return [request for request in world.arrived if not request['answered'] and not request['wire'].closing]

        def reusable(host, port):
            # connections which have to be reused
            return [
                wire for wire in world.connections
                if wire.host == host and wire.port == port and not wire.closing and wire.dirty is None and wire.expires is not None and CLOCK.now < wire.expires
                and all(request['complete'] and request['answered'] for request in wire.requests) and wire.requests
            ]

        def entry_of(request):
            return requests[int(request['path'][1:])]

        def answer(request, name):
            """Returns whether it is possible."""
            wire = request['wire']
            entry = entry_of(request)
            tag = f'body of {request["path"]}'.encode()
            request['tag'] = tag
            status = 200
            headers = [('X-Path', request['path'])]
            length = [('Content-Length', len(tag))]
            rest = None
            eof = False
            head_only = request['method'] == 'HEAD'
            if request['part'] and name != 'rest':
                return False
            if (not request['complete']) != (name == 'early'):
                if not request['part']:
                    return False
            if head_only and name not in ('ok', 'close', 'no-content', 'chunked'):
                return False
            if name == 'ok' or name == 'early':
                data = response(status, headers + length, tag)
            elif name == 'chunked':
                data = response(status, headers + [('Transfer-Encoding', 'chunked')], b'%x\r\n%b\r\n0\r\n\r\n' % (len(tag), tag))
            elif name == 'part':
                data = response(status, headers + length, tag[:4])
                rest = tag[4:]
            elif name == 'head':
                data = response(status, headers + length, tag)
                rest = data[20:]
                data = data[:20]
            elif name == 'no-content':
                data = response(204, headers, b'')
                request['tag'] = None
            elif name == 'not-modified':
                data = response(304, headers + length, b'')
                request['tag'] = None
            elif name == 'close':
                data = response(status, headers + length + [('Connection', 'Close')], tag)
            elif name == 'old':
                data = response(status, headers + length, tag).replace(b'HTTP/1.1', b'HTTP/1.0')
            elif name == 'till-eof':
                data = response(status, headers + [('Connection', 'close')], tag)
                eof = True
            elif name == 'short':
                data = response(status, headers + length + [('Keep-Alive', 'timeout=2')], tag)
            elif name == 'max':
                data = response(status, headers + length + [('Keep-Alive', 'timeout=15, max=2')], tag)
            elif name == 'more':
                data = response(status, headers + length, tag + b'HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nevil')
            elif name == 'bad':
                data = b'HTTP/1.1 what\r\n\r\n'
            elif name == 'hanging':
                data = response(status, headers + [('Transfer-Encoding', 'chunked')], b'4\r\nbodyEVIL\r\n0\r\n\r\n')
            else:
                raise RuntimeError(name)

            if head_only:
                data = data[: data.index(b'\r\n\r\n') + 4]
                request['tag'] = None
            request['name'] = name
            if rest is not None:
                request['part'] = True
                request['rest'] = rest
            else:
                finish(request)
            wire.protocol.data_received(data)
            if eof:
                lose(wire, None)
            return True

        def finish(request):
            wire = request['wire']
            name = request['name']
            wire.served += 1
            request['answered'] = True
            entry = entry_of(request)
            if name in ('close', 'old', 'till-eof', 'more', 'bad', 'hanging', 'early'):
                wire.dirty = f'its last response was {name!r}'
            elif entry['released'] or entry['cancelled']:
                wire.dirty = 'its last request was given up before it was answered'
            elif name == 'max' and wire.served >= 2:
                wire.dirty = 'it served as many requests as it may'
            else:
                wire.expires = CLOCK.now + (2.0 if name == 'short' else KEEP_ALIVE)

        def lose(wire, exception):
            wire.dirty = 'it ended'
            for request in wire.requests:
                entry = entry_of(request)
                if not request['answered'] or (exception is not None and not entry['task'].is_done()):
                    entry['lost'] = True
            if exception is None:
                if not wire.protocol.eof_received():
                    wire.close()
            else:
                wire.connection_lost(exception)

        def expired_check():
            for wire in world.connections:
                if wire.dirty is None and wire.expires is not None and CLOCK.now > wire.expires and all(r['answered'] for r in wire.requests):
                    wire.dirty = 'its keep alive expired'

        def apply(op):
            nonlocal shut
            expired_check()
            if op in ('A', 'B', 'C', 'H', 'U', 'S'):
                if len(requests) >= 4:
                    return False
                host = '10.0.0.2' if op == 'B' else '10.0.0.1'
                port = 8080 if op == 'C' else 80
                clean = reusable(host, port)
                entry = start(
                    host, {'H': 'HEAD', 'U': 'POST', 'S': 'POST'}.get(op, 'GET'), {'U': 'bytes', 'S': 'stream'}.get(op), port,
                )
                entry['clean'] = None if shut or unsettled or loose or names[position[0]].endswith('~') else clean
                entry['shut'] = shut
                return True
            if op in ANSWERS:
                pending = open_requests()
                if not pending:
                    return False
                return answer(pending[0], op)
            if op == 'last':
                pending = open_requests()
                if len(pending) < 2:
                    return False
                return answer(pending[-1], 'ok')
            if op == 'rest':
                pending = [request for request in open_requests() if request['part']]
                if not pending:
                    return False
                request = pending[0]
                finish(request)
                request['wire'].protocol.data_received(request['rest'])
                return True
            if op in ('eof', 'reset', 'stray'):
                wires = [wire for wire in world.connections if not wire.closing]
                if not wires:
                    return False
                wire = wires[-1]
                if op == 'stray':
                    if not wire.requests or not all(request['answered'] for request in wire.requests):
                        return False
                    wire.dirty = 'it received something without being asked'
                    wire.protocol.data_received(b'HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nevil')
                else:
                    lose(wire, None if op == 'eof' else ConnectionResetError('reset'))
                return True
            if op in ('release', 'closed', 'read', 'drop'):
                entries = [entry for entry in requests if entry['response'] is not None]
                if not entries:
                    return False
                entry = entries[-1]
                request = arrived_of(entry)
                if op == 'read':
                    if not entry['readable'] or entry['released']:
                        return False
                    entry['readable'] = False
                    readers.append((entry, Task(loop, entry['response'].read())))
                    return True
                if entry['released']:
                    return False
                entry['released'] = True
                if request['answered'] is False:
                    request['wire'].dirty = 'its last response was given up'
                if op == 'release':
                    entry['response'].release()
                else:
                    entry['response'].close()
                return True
            if op == 'cancel':
                entries = [entry for entry in requests if not entry['task'].is_done()]
                if not entries:
                    return False
                entry = entries[-1]
                entry['cancelled'] = True
                request = arrived_of(entry)
                if request is not None:
                    request['wire'].dirty = 'its last request was cancelled'
                entry['task'].cancel()
                return True
            if op in ('piece', 'end'):
                entries = [entry for entry in requests if entry['upload'] == 'stream' and entry['waiter'] is not None and not entry['waiter'].is_done()]
                if not entries:
                    return False
                entry = entries[0]
                if op == 'piece':
                    entry['fed'] += b'piece'
                    entry['waiter'].set_result(b'piece')
                else:
                    entry['waiter'].set_result(None)
                return True
            if op == 'connect':
                waiters = [waiter for waiter in world.connecting if not waiter.is_done()]
                if not waiters:
                    return False
                waiters[0].set_result(None)
                return True
            if op == 'refuse':
                waiters = [waiter for waiter in world.connecting if not waiter.is_done()]
                if not waiters:
                    return False
                waiters[0].set_exception(ConnectionRefusedError('refused'))
                for entry in requests:
                    if not entry['task'].is_done():
                        entry['shut'] = True
                return True
            if op == 'slow':
                if world.slow:
                    return False
                world.slow = True
                return True
            if op == 'shut':
                if shut:
                    return False
                shut = True
                for wire in world.connections:
                    wire.dirty = 'the client was closed'
                for entry in requests:
                    request = arrived_of(entry)
                    if request is None:
                        entry['shut'] = True
                    elif not request['answered']:
                        entry['lost'] = True
                client.connector.close()
                return True
            raise RuntimeError(op)

        def check_state():
            """After the loop settled."""
            check_problems()
            expired_check()
            for entry in requests:
                task = entry['task']
                request = arrived_of(entry)
                outcome = outcome_of(task)
                label = f'request {entry["path"]}'
                if len([other for other in world.arrived if other['path'] == entry['path']]) > 1:
                    fail(f'{label} was sent twice')
                if request is not None and (request['wire'].host, request['wire'].port) != (entry['host'], entry['port']):
                    fail(f'{label} was sent to an other host')
                if request is not None and entry.get('clean') is not None:
                    # had to use one of the clean ones
                    if entry['clean'] and request['wire'] not in entry['clean'] and not any(len(wire.requests) and wire.requests[-1]['path'] > entry['path'] for wire in entry['clean']):
                        fail(f'{label} did not use any of {entry["clean"]}')
                    entry['clean'] = None
                if request is not None and entry['upload'] == 'bytes' and request['complete'] and request['body'] != b'uploaded':
                    fail(f'{label}: body {request["body"]!r}')
                if request is not None and entry['upload'] == 'stream' and request['body'] != entry['fed'][:len(request['body'])]:
                    fail(f'{label}: body {request["body"]!r} instead of {entry["fed"]!r}')
                if outcome[0] == 'result':
                    received = entry['response']
                    if received.headers.get('x-path') != entry['path']:
                        fail(f'{label} got the response of {received.headers.get("x-path")}')
                elif outcome[0] == 'exception':
                    allowed = entry['lost'] or entry['shut'] or (request is not None and request.get('name') == 'bad') or CLOCK.now >= entry['started'] + REQUEST_TIMEOUT
                    if not allowed or not isinstance(outcome[1], (OSError, PayloadError, EOFError)):
                        fail(f'{label} failed with {outcome[1]!r}')
                    # nobody asks for the response anymore
                    if request is not None and not request['wire'].closing:
                        fail(f'the connection of the failed {label} stayed open')
                elif outcome[0] == 'cancelled':
                    if not entry['cancelled']:
                        fail(f'{label} got cancelled')
                    if request is not None and not request['wire'].closing and not request['answered']:
                        fail(f'the connection of the cancelled {label} stayed open')
                else:
                    if entry['cancelled'] or entry['lost']:
                        fail(f'{label} did not end')
                    if request is not None and request['answered']:
                        fail(f'{label} did not get its response')
                    if CLOCK.now > entry['started'] + REQUEST_TIMEOUT:
                        fail(f'{label} did not time out')
            for entry, task in readers:
                request = arrived_of(entry)
                outcome = outcome_of(task)
                label = f'reading the response of {entry["path"]}'
                if outcome[0] == 'result':
                    value = outcome[1]
                    tag = request['tag']
                    if request['name'] == 'hanging' or not request['answered']:
                        fail(f'{label} gave {value!r}')
                    if (tag or None) != (None if value is None else bytes(value)) and (tag or b'') != value:
                        fail(f'{label} gave {value!r} instead of {tag!r}')
                elif outcome[0] == 'exception':
                    if not (entry['lost'] or entry['released'] or shut or request['name'] == 'hanging') or not isinstance(outcome[1], (OSError, PayloadError, EOFError)):
                        fail(f'{label} failed with {outcome[1]!r}')
                elif outcome[0] == 'cancelled':
                    fail(f'{label} got cancelled')
                elif request['answered'] or entry['lost'] or entry['released']:
                    fail(f'{label} did not end')
            for wire in world.connections:
                if wire.closing and not shut and wire.dirty is None and wire.expires is not None and CLOCK.now < wire.expires and all(
                    request['complete'] and request['answered'] and outcome_of(entry_of(request)['task'])[0] == 'result' for request in wire.requests
                ):
                    fail(f'{wire!r} is closed although it could be used again')
                if wire.lost or wire.closing:
                    continue
                if all(request['answered'] for request in wire.requests) and wire.requests and wire.dirty is not None:
                    if wire.dirty in ('its keep alive expired', 'it received something without being asked'):
                        continue
                    if wire.requests[-1].get('name') == 'hanging' and not entry_of(wire.requests[-1])['released']:
                        continue
                    if wire.requests[-1].get('name') == 'early':
                        continue
                    fail(f'{wire!r} stayed open although {wire.dirty}')

        try:
            for index, name in enumerate(names):
                position[0] = index
                op = name.rstrip('~')
                if op.startswith('+'):
                    loose = True
                    yield float(op[1:])
                    loose = False
                    check_state()
                    continue
                if not apply(op):
                    prune(index)
                    return
                stats.transitions += 1
                if name.endswith('~'):
                    unsettled = True
                    loose = True
                    continue
                unsettled = False
                yield
                if loose:
                    # may be used only a moment later
                    loose = False
                check_state()
            yield
            check_state()
            # nothing was lost: the client still works
            if not shut:
                world.slow = False
                for waiter in world.connecting:
                    if not waiter.is_done():
                        waiter.set_result(None)
                yield
                expired_check()
                entry = start('10.0.0.1')
                entry['clean'] = reusable('10.0.0.1', 80)
                yield
                check_state()
                request = arrived_of(entry)
                if request is None:
                    fail('the last request was not sent')
                for request in open_requests():
                    if not request['part'] and request['complete']:
                        answer(request, 'ok')
                        yield
                        check_state()
                if entry['response'] is None:
                    fail('the last request did not get its response')
                reader = Task(loop, entry['response'].read())
                yield
                outcome = outcome_of(reader)
                if outcome != ('result', f'body of {entry["path"]}'.encode()):
                    fail(f'reading the last response ended with {outcome}')
                check_state()
            # nothing leaks: everything ends on its own
            for entry in requests:
                if entry['response'] is not None and not entry['released']:
                    entry['released'] = True
                    entry['response'].release()
            yield REQUEST_TIMEOUT + 1.0
            check_state()
            yield KEEP_ALIVE + 1.0
            check_state()
            for wire in world.connections:
                if not wire.lost:
                    fail(f'{wire!r} is still open at the end (clean: {wire.dirty is None}, {wire.dirty})')
            if client.connector.protocols_by_host:
                fail(f'the client still has connections at the end: {client.connector.protocols_by_host}')
        finally:
            client.connector.close()
            del loop.create_connection_to
        stats.evaluations += 1
        stats.state(repr(names))
        stats.outcome((len(world.connections), tuple(outcome_of(entry['task'])[0] for entry in requests)))
    return function


GENERAL = (
    'A', 'B', 'H', 'ok', 'chunked', 'part', 'rest', 'head', 'no-content', 'not-modified', 'close', 'old', 'till-eof', 'short', 'max', 'more', 'bad', 'hanging', 'last',
    'eof', 'reset', 'stray', 'release', 'closed', 'read', 'cancel', '+2.5', '+14', '+16', '+61', 'shut',
)
RACES = ('A', 'ok', 'A~', 'ok~', 'part', 'rest~', 'eof~', 'reset~', 'stray~', 'cancel~', 'read~', 'closed~', 'release~', 'shut~')
UPLOADS = ('S', 'U', 'A', 'piece', 'end', 'early', 'ok', 'part', 'rest', 'read', 'eof', 'reset', 'cancel', 'closed', 'release', '+61', 'shut')
CONNECTING = ('A', 'A~', 'B', 'C', 'connect', 'connect~', 'refuse', 'refuse~', 'cancel', 'cancel~', 'ok', 'shut', 'shut~', '+61', 'read')


class ClientConnectionsCheck(Check):
    id = 'C22'
    rule = 'a state is a distinct sequence of requests, server and client actions and passing time'
    assumptions = [
        'connections are opened by a stand-in of the loop (`create_connection_to`), hosts are ip addresses',
        'the server answers requests only after they arrived',
    ]

    def setup(self):
        quiet_stderr()
        import scarletio.http_client
        gc.collect()
        gc.freeze()

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for first in ('A', 'H'):
            for second in GENERAL:
                jobs.append(('general', (first, second), 5 if quick else 6))
        for second in RACES:
            jobs.append(('races', ('A', second), 5 if quick else 6))
            jobs.append(('races', ('A~', second), 5 if quick else 6))
        for first in ('S', 'U'):
            for second in UPLOADS:
                jobs.append(('uploads', (first, second), 5 if quick else 6))
        for second in CONNECTING:
            jobs.append(('connecting', ('slow', second), 6 if quick else 7))
        return jobs

    def cases(self, job, stats):
        kind, prefix, depth = job
        alphabet = {'general': GENERAL, 'races': RACES, 'uploads': UPLOADS, 'connecting': ('slow', *CONNECTING)}[kind]
        sequences = Sequences(alphabet, depth, prefix)
        for names in sequences:
            yield case(names, stats, sequences.prune)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, stats), stats, job)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        run_one(case(tuple(artefact), stats), stats)


CHECK = ClientConnectionsCheck()
