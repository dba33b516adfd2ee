"""
C39: the http client reaches the right server the right way: resolving, trying the addresses, certificates, proxies; and nobody else gets anything.
"""
import errno, gc, socket as module_socket
from base64 import b64decode
from functools import partial
from itertools import product

from mc.base import CLOCK, Check, Violation
from mc import fakenet
from mc.tlspeer import Peer, context_for, fingerprint_of
from mc.vloop import quiet_stderr
from mc.wire import Sequences, outcome_of, run_cases, run_one

V4 = module_socket.AF_INET
V6 = module_socket.AF_INET6
STREAM = module_socket.SOCK_STREAM
TCP = module_socket.IPPROTO_TCP


def family_of(address):
    return V6 if ':' in address else V4


class HttpEnd:
    """The http server at the end of a path. Answers every request at once."""
    def __init__(self, world, path):
        self.world = world
        self.path = path
        self.buffer = b''
        self.out = b''
        self.closing = False

    def feed(self, data):
        if self.closing:
            self.world.problems.append(f'{data[:40]} sent to a closed connection')
            return
        self.buffer += data
        while True:
            end = self.buffer.find(b'\r\n\r\n')
            if end == -1:
                return
            lines = self.buffer[:end].decode('latin-1').split('\r\n')
            self.buffer = self.buffer[end + 4:]
            headers = [tuple(line.split(': ', 1)) for line in lines[1:]]
            self.world.log.append(('request', self.path, lines[0], headers))
            body = str(len(self.world.log)).encode()
            keep_alive = self.world.keep_alive
            self.out += b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n%s\r\n%s' % (len(body), b'' if keep_alive else b'Connection: close\r\n', body)
            self.closing = not keep_alive

    def take(self):
        data = self.out
        self.out = b''
        return data

    def rest(self):
        return self.buffer


class TlsEnd:
    """
    A ssl server, what is inside of it is made by `inner`.

    mode : good / other (certificate), drop (ends during the handshake), garbage
    """
    def __init__(self, world, path, mode, inner):
        self.world = world
        self.mode = mode
        self.peer = Peer(context_for(True, other = (mode == 'other')), True)
        self.path = (*path, mode)
        self.factory = inner
        self.inner = None
        self.given = 0
        self.seen = b''
        self.out = b''
        self.closing = False
        self.name = None

    def feed(self, data):
        self.seen += data
        mode = self.mode
        if mode == 'drop':
            self.closing = True
            return
        if mode == 'garbage':
            self.out = b'HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n'
            self.closing = True
            return
        self.peer.feed(data)
        self.move()
        if self.peer.got_close:
            # answer it
            self.peer.close()

    def move(self):
        peer = self.peer
        if not peer.done or self.mode in ('drop', 'garbage'):
            return
        received = bytes(peer.received[self.given:])
        self.given = len(peer.received)
        if self.inner is None:
            self.inner = self.factory(self.path)
        if received:
            self.inner.feed(received)
        data = self.inner.take()
        if data:
            peer.write(data)
        if self.inner.closing:
            peer.close()

    def take(self):
        if self.out:
            data = self.out
            self.out = b''
            return data
        self.move()
        return self.peer.take()

    def rest(self):
        return b'' if self.inner is None else self.inner.rest()


ANSWERS = {
    'ok': b'HTTP/1.1 200 Connection established\r\n\r\n',
    'ok-plain': b'HTTP/1.1 200\r\n\r\n',
    'ok-length': b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n',
    'ok-old': b'HTTP/1.0 200 Connection established\r\nProxy-Agent: x\r\n\r\n',
    '407': b'HTTP/1.1 407 Proxy Authentication Required\r\nContent-Length: 4\r\nProxy-Authenticate: Basic\r\n\r\nbody',
    '403-chunked': b'HTTP/1.1 403 Forbidden\r\nTransfer-Encoding: chunked\r\n\r\n4\r\nbody\r\n0\r\n\r\n',
    '500-long': b'HTTP/1.1 500 Broken\r\nContent-Length: 4000\r\n\r\nbody',
    '502': b'HTTP/1.1 502\r\nContent-Length: 0\r\n\r\n',
    '599': b'HTTP/1.1 599\r\n\r\n',
    '204': b'HTTP/1.1 204 No Content\r\n\r\n',
    '301': b'HTTP/1.1 301 Moved\r\nLocation: http://bad.example/\r\nContent-Length: 0\r\n\r\n',
    'garbage': b'SSH-2.0-x\r\n\r\n',
    'eof': None,
    'silent': b'',
}


class ProxyEnd:
    def __init__(self, world, path, answer):
        self.world = world
        self.path = path
        self.answer = answer
        self.buffer = b''
        self.out = b''
        self.inner = None
        self.answered = False
        self.closing = False

    def feed(self, data):
        if self.inner is not None:
            self.inner.feed(data)
            return
        self.buffer += data
        if self.answered:
            return
        end = self.buffer.find(b'\r\n\r\n')
        if end == -1:
            return
        lines = self.buffer[:end].decode('latin-1').split('\r\n')
        self.buffer = self.buffer[end + 4:]
        headers = [tuple(line.split(': ', 1)) for line in lines[1:]]
        self.world.log.append(('connect', self.path, lines[0], headers))
        self.answered = True
        answer = ANSWERS[self.answer]
        if answer is None:
            self.closing = True
            return
        self.out += answer
        if self.answer.startswith('ok'):
            target = lines[0].split(' ')[1]
            self.inner = self.world.open(target, self.path)
            if self.buffer:
                # nothing may be sent before it is answered
                self.world.problems.append(f'{self.buffer[:60]} sent before the tunnel is there')

    def take(self):
        data = self.out
        self.out = b''
        if self.inner is not None:
            data += self.inner.take()
            if self.inner.closing:
                self.closing = True
        return data

    def rest(self):
        return self.buffer if self.inner is None else self.inner.rest()


class World(fakenet.Net):
    """
    names : {name: [addresses]}
    places : {(address, port): spec}; spec: (outcome of connecting, *layers); layers: ('tls', mode), ('proxy', answer), ('http',)
    targets : {'host:port': layers} what is at the end of the tunnels
    """
    def __init__(self, names, places, targets):
        fakenet.Net.__init__(self)
        self.names = names
        self.places = places
        self.targets = targets
        self.log = []
        self.ends = {}
        self.resolving = []
        self.resolve_calls = []
        self.resolve_mode = 'now'
        self.attempts = []
        self.resolve_undo = None
        self.delivery = 'whole'
        self.keep_alive = True

    def begin(self, env):
        from scarletio.dns_query.requests import get_address_info_async
        self.original = get_address_info_async
        self.resolve_undo = fakenet.patch_everywhere(get_address_info_async, self.resolve)
        return self.enter(env)

    def end(self):
        if self.resolve_undo is not None:
            self.resolve_undo()
        self.leave()

    async def resolve(self, event_loop, host, port, *positional, **keyword):
        if host not in self.names:
            return await self.original(event_loop, host, port, *positional, **keyword)
        self.resolve_calls.append((host, port))
        mode = self.resolve_mode
        if mode == 'later':
            waiter = self.env.future()
            self.resolving.append((host, port, waiter))
            mode = await waiter
        if mode == 'error':
            raise module_socket.gaierror(-2, 'Name or service not known')
        if mode == 'crash':
            raise RuntimeError('resolving crashed')
        if mode == 'empty':
            return []
        return [(family_of(address), STREAM, TCP, '', (address, port, 0, 0) if ':' in address else (address, port)) for address in self.names[host]]

    def on_connect(self, socket, address):
        key = address[:2]
        self.attempts.append(key)
        if key not in self.places:
            self.problems.append(f'connecting to {address}')
            return OSError(errno.EINVAL, 'Invalid argument')
        if socket.fake_family != family_of(address[0]):
            self.problems.append(f'socket of an other family for {address}')
        outcome = self.places[key][0]
        if outcome == 'refuse':
            return ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if outcome == 'ok':
            return 'now'
        return 'later'

    def proceed(self):
        for socket in self.open_sockets():
            if socket.state == 'connecting':
                outcome = self.places[socket.remote[:2]][0]
                if outcome == 'late':
                    self.finish(socket)
                    return True
                if outcome == 'late-refuse':
                    self.finish(socket, errno.ECONNREFUSED)
                    return True
        return False

    def build(self, layers, path):
        kind = layers[0]
        if kind == 'http':
            return HttpEnd(self, path)
        if kind == 'tls':
            return TlsEnd(self, path, layers[1], lambda path: self.build(layers[2:], path))
        if kind == 'proxy':
            return ProxyEnd(self, path, layers[1])
        raise RuntimeError(layers)

    def open(self, target, path):
        try:
            layers = self.targets[target]
        except KeyError:
            self.problems.append(f'tunnel asked to {target}')
            layers = ('http',)
        return self.build(layers, (*path, target))

    def end_of(self, socket):
        try:
            return self.ends[socket]
        except KeyError:
            end = self.build(self.places[socket.remote[:2]][1:], (socket.remote[0],))
            end.ended = False
            end.dead = False
            end.wire = b''
            self.ends[socket] = end
            return end

    def pump(self):
        """Moves what is sent to the far sides, and what they answer back."""
        progress = False
        for socket in self.sockets:
            if socket.fake_type != STREAM or socket.state not in ('connected', 'closed') or socket.remote is None or socket.remote[:2] not in self.places:
                continue
            end = self.end_of(socket)
            data = bytes(socket.sent)
            if data:
                socket.sent.clear()
                end.feed(data)
                progress = True
            if socket.state == 'closed' or end.dead:
                continue
            end.wire += end.take()
            if end.wire:
                amount = 1 if self.delivery == 'single' else len(end.wire)
                socket.incoming.append(end.wire[:amount])
                end.wire = end.wire[amount:]
                progress = True
            elif end.closing and not end.ended:
                end.ended = True
                socket.incoming.append(b'')
                progress = True
        return progress

    def step(self):
        """One step of the outside world."""
        if self.pump():
            return True
        if self.resolving:
            host, port, waiter = self.resolving.pop(0)
            waiter.set_result_if_pending('now')
            return True
        return self.proceed()

    def settle(self):
        yield
        while self.step():
            yield


# ---- what a request asks for

HOSTS = {
    # url host: (names / address to connect to)
    'good.example': 'good.example',
    'two.example': 'two.example',
    '10.0.0.1': '10.0.0.1',
    '[fe80::2]': 'fe80::2',
}
PORTS = {'http': 80, 'https': 443}
DEMANDS = ('none', 'print', 'wrong-print', 'verify', 'untrusted')
PROXIES = {
    # name : (secure, authorization, demand)
    'plain': (False, False, 'none'),
    'plain-auth': (False, True, 'none'),
    'secure': (True, False, 'none'),
    'secure-print': (True, True, 'print'),
    'secure-wrong': (True, True, 'wrong-print'),
    'secure-verify': (True, False, 'verify'),
}


def demand_parameters(demand):
    from scarletio.http_client.ssl_fingerprint import SSLFingerprint
    if demand == 'print':
        return {'ssl_fingerprint': SSLFingerprint(fingerprint_of())}
    if demand == 'wrong-print':
        return {'ssl_fingerprint': SSLFingerprint(fingerprint_of(True))}
    if demand == 'verify':
        return {'ssl_context': context_for(False, verify = True)}
    if demand == 'untrusted':
        return {'ssl_context': context_for(False, verify = True, trusted = False)}
    return {}


def make_proxy(name):
    if name is None:
        return None
    from scarletio.http_client.proxy import Proxy
    from scarletio.web_common import BasicAuthorization
    secure, authorization, demand = PROXIES[name]
    return Proxy(
        'https://proxy.example:3129' if secure else 'http://proxy.example:3128',
        headers = {'X-Proxy': name},
        authorization = BasicAuthorization('me', 'pass') if authorization else None,
        **demand_parameters(demand),
    )


def tls_outcome(mode, demand, host = 'good.example'):
    """What comes of a handshake: 'ok', 'ssl' (SSLError), 'os' (OSError)"""
    if mode == 'drop':
        return 'os'
    if mode == 'garbage':
        return 'ssl'
    if demand == 'untrusted':
        return 'ssl'
    if demand == 'verify':
        return 'ok' if mode == 'good' and host in ('good.example', 'proxy.example', '10.0.0.1') else 'ssl'
    if demand == 'print':
        return 'ok' if mode == 'good' else 'os'
    if demand == 'wrong-print':
        return 'ok' if mode == 'other' else 'os'
    return 'ok'


class Expected:
    """
    attempts : the addresses to be tried
    log : what the far sides should get
    outcome : 'ok', 'os', 'ssl', 'payload', ('proxy', status), 'pending'
    """
    def __init__(self, request, places, order, answer, tunnel):
        scheme, host, demand, proxy = request
        secure = scheme == 'https'
        port = PORTS[scheme]
        self.attempts = []
        self.log = []
        self.outcome = 'os'
        if proxy is None:
            hop_secure, hop_demand, hop_port, hop_host = secure, demand, port, host
        else:
            hop_secure, authorization, hop_demand = PROXIES[proxy]
            hop_port = 3129 if hop_secure else 3128
            hop_host = 'proxy.example'
        path = None
        for address in order:
            self.attempts.append((address, hop_port))
            connecting, *layers = places[address, hop_port]
            if connecting == 'never':
                self.outcome = 'pending'
                return
            if connecting in ('refuse', 'late-refuse'):
                continue
            if hop_secure:
                outcome = tls_outcome(layers[1], hop_demand, hop_host)
                if outcome == 'os':
                    continue
                if outcome == 'ssl':
                    self.outcome = 'ssl'
                    return
                path = (address, layers[1])
            else:
                path = (address,)
            break
        else:
            return
        if proxy is not None:
            target = f'{host}:{port}'
            self.log.append(('connect', path, f'CONNECT {target} HTTP/1.1', authorization, proxy))
            if answer == 'silent':
                self.outcome = 'pending'
                return
            if not answer.startswith('ok'):
                if answer in ('garbage', 'eof'):
                    self.outcome = 'payload'
                else:
                    self.outcome = ('proxy', int(answer.split('-')[0]))
                return
            path = (*path, target)
            if secure:
                outcome = tls_outcome(tunnel, demand, host)
                if outcome != 'ok':
                    self.outcome = outcome
                    return
                path = (*path, tunnel)
        self.log.append(('request', path, 'GET /x HTTP/1.1', host))
        self.outcome = 'ok'


def judge_log(log, expected, fail):
    if len(log) != len(expected):
        fail('what arrived', f'arrived: {log}; expected: {expected}')
    for got, wanted in zip(log, expected):
        if got[:3] != wanted[:3]:
            fail('what arrived', f'arrived: {got[:3]}; expected: {wanted[:3]}')
        headers = got[3]
        names = [name.lower() for name, value in headers]
        if len({*names}) != len(names):
            fail('headers repeated', f'{headers}')
        headers = {name.lower(): value for name, value in headers}
        if got[0] == 'connect':
            for name in ('authorization', 'cookie', 'x-target'):
                if name in headers:
                    fail('leaked to the proxy', f'{name} sent to the proxy: {headers}')
            if headers.get('x-proxy') != wanted[4]:
                fail('proxy headers', f'headers of the proxy: {headers}')
            value = headers.get('proxy-authorization')
            if (value is not None) != wanted[3] or (value is not None and b64decode(value.removeprefix('Basic ')) != b'me:pass'):
                fail('proxy authorization', f'proxy authorization: {value!r}')
        else:
            for name in ('proxy-authorization', 'x-proxy'):
                if name in headers:
                    fail('leaked to the target', f'{name} sent to the target: {headers}')
            if headers.get('host') != wanted[3]:
                fail('host header', f'host header {headers.get("host")!r}; expected {wanted[3]!r}')
            if headers.get('authorization') != 'secret' or headers.get('x-target') != 'yes':
                fail('headers lost', f'{headers}')


def judge_outcome(outcome, wanted, fail):
    from scarletio.web_common.exceptions import PayloadError, ProxyError
    import ssl
    kind = outcome[0]
    value = outcome[1] if len(outcome) > 1 else None
    if wanted == 'pending':
        good = kind == 'pending'
    elif wanted == 'ok':
        good = kind == 'result' and value[0] == 200
    elif kind != 'exception':
        good = False
    elif wanted == 'os':
        good = isinstance(value, OSError) and not isinstance(value, ssl.SSLError)
    elif wanted == 'ssl':
        good = isinstance(value, ssl.SSLError)
    elif wanted == 'payload':
        good = isinstance(value, (PayloadError, OSError))
    else:
        good = isinstance(value, ProxyError) and value.code == wanted[1]
    if not good:
        fail(f'request ended differently: {wanted} {kind}', f'request ended with {outcome}; expected: {wanted}')


def client_request(client, request, **parameters):
    scheme, host, demand, proxy = request

    async def perform():
        async with client.request2(
            'GET', f'{scheme}://{host}/x', {'Authorization': 'secret', 'X-Target': 'yes'}, proxy = make_proxy(proxy), **demand_parameters(demand), **parameters
        ) as response:
            return response.status, await response.read()
    return perform()


NAMES = {
    'good.example': ('10.0.0.1', 'fe80::2', '10.0.0.3'),
    'proxy.example': ('10.0.0.8', '10.0.0.9'),
}


def world_of(request, hops, answer, tunnel):
    """hops : outcome of each address of the first hop: 'ok', 'late', 'refuse', .., or a tls mode"""
    scheme, host, demand, proxy = request
    names = {'good.example': [], 'proxy.example': []}
    places = {}
    targets = {}
    target = ('tls', tunnel, 'http') if scheme == 'https' else ('http',)
    if proxy is None:
        secure = scheme == 'https'
        port = PORTS[scheme]
        addresses = NAMES['good.example'] if host == 'good.example' else (HOSTS[host],)
        order = addresses[:len(hops)]
        names['good.example'] = order
        inner = ('http',)
    else:
        secure = PROXIES[proxy][0]
        port = 3129 if secure else 3128
        order = NAMES['proxy.example'][:len(hops)]
        names['proxy.example'] = order
        inner = ('proxy', answer)
        targets[f'{host}:{PORTS[scheme]}'] = target
    for address, hop in zip(order, hops):
        if hop in ('good', 'other', 'drop', 'garbage'):
            connecting = 'ok'
            mode = hop
        else:
            connecting = hop
            mode = 'good'
        places[address, port] = (connecting, 'tls', mode, *inner) if secure else (connecting, *inner)
    return World(names, places, targets), order


EVENTS = ('cancel', 'shut', 'eof', 'reset', '+61')


def single(spec, stats):
    """
    One request.

    spec : (request, hops, answer, tunnel, delivery, event, at)
    delivery : how the bytes of the far side come: whole, single (byte by byte)
    event : what happens at the `at`th step
    """
    def function(env):
        from scarletio import Task
        from scarletio.http_client import HTTPClient
        request, hops, answer, tunnel, delivery, event, at = spec
        request = tuple(request)

        def fail(key, message):
            raise Violation(key, f'{spec}: {message}', ['single', list(spec)])

        world, order = world_of(request, hops, answer, tunnel)
        expected = Expected(request, world.places, order, answer, tunnel)
        world.begin(env)
        world.delivery = delivery
        if event is not None:
            world.resolve_mode = 'later'
        happened = False
        try:
            client = HTTPClient(env.loop)
            task = Task(env.loop, client_request(client, request))
            steps = 0
            while True:
                if event is not None and steps == at:
                    if task.is_done():
                        stats.count('too late')
                        client.close()
                        yield from world.settle()
                        return
                    happened = True
                    if event == 'cancel':
                        task.cancel()
                    elif event == 'shut':
                        client.close()
                    elif event in ('eof', 'reset'):
                        sockets = [socket for socket in world.open_sockets() if socket.state == 'connected']
                        if not sockets:
                            stats.count('not connected yet')
                            task.cancel()
                            client.close()
                            yield from world.settle()
                            return
                        for socket in sockets:
                            world.end_of(socket).dead = True
                            socket.incoming.append(b'' if event == 'eof' else ConnectionResetError(errno.ECONNRESET, 'reset'))
                    else:
                        yield 61.0
                    break
                if steps:
                    yield
                    if not world.step():
                        break
                steps += 1
            stats.evaluations += 1
            stats.transitions += steps
            if not happened and event is not None:
                stats.count('not reached')
            if not happened:
                yield from world.settle()
                outcome = outcome_of(task)
                judge_log(world.log, expected.log, fail)
                judge_outcome(outcome, expected.outcome, fail)
                if world.attempts != expected.attempts:
                    fail('attempts', f'addresses tried: {world.attempts}; expected: {expected.attempts}')
                open_ = world.open_sockets()
                if len(open_) != (expected.outcome in ('ok', 'pending')):
                    fail('sockets left open', f'{open_} after {outcome}')
                if expected.outcome == 'pending':
                    task.cancel()
                stats.outcome((outcome[0], str(expected.outcome)))
                stats.nontrivial += expected.outcome == 'ok'
            else:
                yield from world.settle()
                outcome = outcome_of(task)
                if outcome[0] == 'pending' and event == 'shut':
                    # it is not told to those which are connecting, they end at latest when their time is over
                    yield 61.0
                    yield from world.settle()
                    outcome = outcome_of(task)
                if outcome[0] == 'pending':
                    fail(f'{event}: request never ends', f'the request does not end after {event} at {at}')
                if event == 'cancel' and outcome[0] != 'cancelled':
                    fail('cancelled', f'cancelled request ended with {outcome}')
                if event == '+61' and not (outcome[0] == 'exception' and isinstance(outcome[1], TimeoutError)):
                    # the answer might be there already
                    judge_outcome(outcome, expected.outcome, fail)
                if event in ('eof', 'reset'):
                    # an other address may be tried
                    allowed = []
                    for address in order:
                        allowed.extend(Expected(request, world.places, (address,), answer, tunnel).log)
                    allowed = {entry[:3] for entry in allowed}
                    for entry in world.log:
                        if entry[:3] not in allowed:
                            fail('what arrived', f'arrived: {entry[:3]}; allowed: {allowed}')
                else:
                    judge_log(world.log, expected.log[:len(world.log)], fail)
                stats.outcome((event, outcome[0], type(outcome[1]).__name__ if outcome[0] == 'exception' else None))
                stats.nontrivial += 1
                if outcome[0] != 'result' and world.open_sockets():
                    fail('sockets left open', f'{world.open_sockets()} after {event} at {at}: {outcome}')
            client.close()
            yield from world.settle()
            if world.open_sockets():
                fail('sockets left open', f'{world.open_sockets()} after closing the client')
            if world.registered():
                fail('sockets left registered', f'{world.registered()}')
            for problem in world.problems:
                fail(problem[:30], problem)
            del client
            stats.state(repr(spec))
        finally:
            world.end()
    return function


REUSE = (
    ('http', 'good.example', 'none', None), ('https', 'good.example', 'none', None), ('https', 'good.example', 'print', None),
    ('https', 'good.example', 'wrong-print', None), ('https', 'good.example', 'verify', None), ('https', 'good.example', 'untrusted', None),
    ('http', 'good.example', 'none', 'plain'), ('http', 'good.example', 'none', 'plain-auth'), ('https', 'good.example', 'none', 'plain'),
    ('https', 'good.example', 'print', 'secure-print'), ('https', 'good.example', 'wrong-print', 'plain'), ('https', 'good.example', 'verify', 'plain'),
    ('http', 'good.example', 'none', 'secure-wrong'), ('http', '10.0.0.1', 'none', None), ('http', '10.0.0.1', 'none', 'plain'), ('https', '10.0.0.1', 'none', 'plain'),
)


def reuse(spec, stats):
    """
    Several requests after each other, by what they demand. Whatever the connections of the earlier ones are, they are answered or refused like
    the first ones would be, and the connections to the same place with the same demands are used again.
    """
    def function(env):
        from scarletio import Task
        from scarletio.http_client import HTTPClient
        kinds = [REUSE[index] for index in spec]

        def fail(key, message):
            raise Violation(key, f'{kinds}: {message}', ['reuse', list(spec)])

        places = {
            ('10.0.0.1', 80): ('ok', 'http'),
            ('10.0.0.1', 443): ('ok', 'tls', 'good', 'http'),
            ('10.0.0.8', 3128): ('ok', 'proxy', 'ok'),
            ('10.0.0.8', 3129): ('ok', 'tls', 'good', 'proxy', 'ok'),
        }
        targets = {f'{host}:{port}': ('http',) if port == 80 else ('tls', 'good', 'http') for host in ('good.example', '10.0.0.1') for port in (80, 443)}
        world = World({'good.example': ('10.0.0.1',), 'proxy.example': ('10.0.0.8',)}, places, targets)
        world.begin(env)
        try:
            client = HTTPClient(env.loop)
            kept = set()
            for kind in kinds:
                del world.log[:], world.attempts[:]
                task = Task(env.loop, client_request(client, kind))
                yield from world.settle()
                expected = Expected(kind, places, ('10.0.0.1',) if kind[3] is None else ('10.0.0.8',), 'ok', 'good')
                log, attempts = expected.log, expected.attempts
                if kind in kept:
                    log = log[-1:]
                    attempts = []
                judge_log(world.log, log, fail)
                judge_outcome(outcome_of(task), expected.outcome, fail)
                if world.attempts != attempts:
                    fail('attempts', f'addresses tried for {kind}: {world.attempts}; expected: {attempts}')
                if expected.outcome == 'ok':
                    kept.add(kind)
                stats.transitions += 1
            stats.evaluations += 1
            stats.nontrivial += len(kept) > 1
            stats.state(repr(spec))
            stats.outcome(('reuse', len(kept)))
            if len(world.open_sockets()) != len(kept):
                fail('sockets left open', f'{world.open_sockets()}; expected: {len(kept)}')
            client.close()
            yield from world.settle()
            if world.open_sockets():
                fail('sockets left open', f'{world.open_sockets()} after closing the client')
            for problem in world.problems:
                fail(problem[:30], problem)
        finally:
            world.end()
    return function


SHORT_NAMES = {
    'old': ('10.0.0.1', '10.0.0.2', '10.0.0.3'),
    'new': ('10.0.0.2', '10.0.0.4'),
}
RESOLVING = ('A', 'B', 'S', 'ok', 'error', 'crash', 'empty', 'move', 'down', 'up', '+6', '+11', 'cancel', 'shut')
CACHE_TIME = 10.0
TIGHT = (*RESOLVING, *(f'{name}@{cycles}' for name in ('shut', 'cancel') for cycles in range(1, 7)))


def resolving(names, tight, stats, prune = lambda index: None):
    """
    Requests to a few hosts, whose resolving and addresses change.

    A / B / S : a request to good.example, two.example, and over ssl to good.example
    ok / error / crash / empty : outcome of the oldest resolving
    move : the name has other addresses from now on; down / up : 10.0.0.1 and 10.0.0.2 refuse connecting / not
    """
    def function(env):
        from scarletio import Task
        from scarletio.http_client import HTTPClient
        artefact = ['resolving', list(names), tight]

        def fail(key, message):
            raise Violation(key, f'{names}: {message}', artefact)

        places = {}
        for address in {*SHORT_NAMES['old'], *SHORT_NAMES['new']}:
            places[address, 80] = ('ok', 'http')
            places[address, 443] = ('ok', 'tls', 'good', 'http')
        world = World({'good.example': SHORT_NAMES['old'], 'two.example': SHORT_NAMES['old']}, places, {})
        world.keep_alive = False
        world.resolve_mode = 'later'
        world.begin(env)
        cache = {}          # (host, port): [addresses, expires, rotation]
        busy = set()
        requests = []       # [task, key, state, tried]; state: waiting / ok / failed ..
        attempts = []
        calls = []
        down = False
        shut = False

        def usable(address):
            return not (down and address in ('10.0.0.1', '10.0.0.2'))

        def rotate(key):
            entry = cache[key]
            addresses, expires, rotation = entry
            if not addresses:
                return ()
            entry[2] = (rotation + 1) % len(addresses)
            return (*addresses[rotation:], *addresses[:rotation])

        def attempt(key, addresses):
            for address in addresses:
                attempts.append((address, key[1]))
                if usable(address):
                    return True
            return False

        def start(kind):
            host = 'two.example' if kind == 'B' else 'good.example'
            scheme = 'https' if kind == 'S' else 'http'
            key = (host, PORTS[scheme])
            task = Task(env.loop, client_request(client, (scheme, host, 'none', None), timeout = 1000.0))
            request = [task, key, 'waiting', ()]
            requests.append(request)
            entry = cache.get(key)
            if entry is None or entry[1] < CLOCK.now:
                if key not in busy:
                    busy.add(key)
                    calls.append(key)
            if entry is not None:
                expired = entry[1] < CLOCK.now
                order = rotate(key)
                request[3] = order
                if attempt(key, order):
                    request[2] = 'ok'
                elif not expired:
                    request[2] = 'os'

        def finish(key, mode):
            busy.discard(key)
            if mode in ('now', 'empty'):
                cache[key] = [world.names[key[0]] if mode == 'now' else (), CLOCK.now + CACHE_TIME, 0]
            for request in requests:
                if request[1] == key and request[2] == 'waiting':
                    if mode == 'error':
                        request[2] = 'os'
                    elif mode == 'crash':
                        request[2] = 'crash'
                    else:
                        order = [address for address in rotate(key) if address not in request[3]]
                        request[2] = 'ok' if attempt(key, order) else 'os'

        def check():
            for task, key, state, _ in requests:
                outcome = outcome_of(task)
                if state == 'crash':
                    if outcome[0] != 'exception' or not isinstance(outcome[1], RuntimeError):
                        fail('crash', f'request ended with {outcome}; expected: RuntimeError')
                elif state == 'shut':
                    if outcome[0] != 'exception' or not isinstance(outcome[1], OSError):
                        fail('shut', f'request ended with {outcome} after closing the client')
                elif state == 'cancelled':
                    if outcome[0] != 'cancelled':
                        fail('cancelled', f'cancelled request ended with {outcome}')
                else:
                    judge_outcome(outcome, {'waiting': 'pending'}.get(state, state), fail)
            if world.resolve_calls != calls:
                fail('resolving', f'resolved: {world.resolve_calls}; expected: {calls}')
            if sorted(world.attempts) != sorted(attempts) or (world.attempts != attempts and len({*attempts}) == len(attempts)):
                fail('attempts', f'tried: {world.attempts}; expected: {attempts}')

        def settle():
            yield
            while world.pump():
                yield

        def check_unique():
            pending = [(host, port) for host, port, waiter in world.resolving if waiter.is_pending()]
            if len({*pending}) != len(pending):
                fail('resolving', f'resolved more times at once: {pending}')

        try:
            client = HTTPClient(env.loop)
            possible = True
            for index, name in enumerate(names):
                if name in ('A', 'B', 'S'):
                    if shut:
                        possible = False
                        break
                    start(name)
                elif name in ('ok', 'error', 'crash', 'empty'):
                    pending = [item for item in world.resolving if item[2].is_pending()]
                    if not pending:
                        possible = False
                        break
                    host, port, waiter = pending[0]
                    mode = 'now' if name == 'ok' else name
                    waiter.set_result_if_pending(mode)
                    if not shut:
                        finish((host, port), mode)
                elif name == 'move':
                    if world.names['good.example'] is SHORT_NAMES['new']:
                        possible = False
                        break
                    world.names['good.example'] = SHORT_NAMES['new']
                elif name in ('down', 'up'):
                    if down == (name == 'down'):
                        possible = False
                        break
                    down = not down
                    for address in ('10.0.0.1', '10.0.0.2'):
                        for port in (80, 443):
                            places[address, port] = ('refuse' if down else 'ok', *places[address, port][1:])
                elif name.startswith('+'):
                    if index and names[index - 1].startswith('+'):
                        possible = False
                        break
                    yield float(name)
                    yield from settle()
                elif name == 'cancel':
                    waiting = [request for request in requests if request[2] == 'waiting' or (tight and not request[0].is_done())]
                    if not waiting:
                        possible = False
                        break
                    waiting[0][0].cancel()
                    waiting[0][2] = 'cancelled'
                elif '@' in name:
                    # after that many further cycles of the loop
                    if shut or not requests:
                        possible = False
                        break
                    name, cycles = name.split('@')
                    if name == 'shut':
                        shut = True
                        function = client.close
                    else:
                        function = requests[0][0].cancel
                    for _ in range(int(cycles)):
                        function = partial(env.loop.call_soon, function)
                    function()
                elif name == 'shut':
                    if shut:
                        possible = False
                        break
                    shut = True
                    client.close()
                    for request in requests:
                        if request[2] == 'waiting':
                            request[2] = 'shut'
                    busy.clear()
                stats.transitions += 1
                if not tight:
                    yield from settle()
                    check()
                check_unique()
            if not possible:
                prune(index)
                client.close()
                for request in requests:
                    request[0].cancel()
                yield from settle()
                return
            yield from settle()
            check_unique()
            stats.evaluations += 1
            stats.state(repr((names, tight)))
            # end it
            while True:
                pending = [item for item in world.resolving if item[2].is_pending()]
                if not pending:
                    break
                host, port, waiter = pending[0]
                waiter.set_result_if_pending('now')
                if not shut:
                    finish((host, port), 'now')
                yield from settle()
                if not tight:
                    check()
            for task, key, state, _ in requests:
                if not task.is_done():
                    fail('request never ends', f'the request to {key} never ends')
                stats.outcome((tight, state, outcome_of(task)[0]))
            stats.nontrivial += bool(requests)
            if not shut:
                client.close()
            yield from settle()
            if world.open_sockets():
                fail('sockets left open', f'{world.open_sockets()}')
            for problem in world.problems:
                fail(problem[:30], problem)
        finally:
            world.end()
    return function


def addresses_of(secure, length):
    outcomes = ['ok', 'late', 'refuse', 'late-refuse']
    if secure:
        outcomes += ['other', 'drop', 'garbage']
    return product(outcomes, repeat = length)


class ConnectingCheck(Check):
    id = 'C39'
    rule = 'the request was answered, or something happened to it while it was connecting'
    assumptions = [
        'sockets, resolving and the far sides are stand-ins; the far sides of ssl connections are the ssl module of python',
    ]
    job_timeout = {'quick': 300.0, 'thorough': 2700.0}

    def setup(self):
        quiet_stderr()
        import scarletio.http_client
        gc.collect()
        gc.freeze()

    def jobs(self, tier):
        jobs = []
        for scheme in ('http', 'https'):
            for demand in (DEMANDS if scheme == 'https' else ('none',)):
                jobs.append(('direct', scheme, demand, tier))
                for proxy in PROXIES:
                    jobs.append(('proxy', scheme, demand, proxy, tier))
        for first in range(len(REUSE)):
            jobs.append(('reuse', first, 3 if tier == 'quick' else 4))
        for first in ('A', 'S', 'move', 'down'):
            for second in RESOLVING:
                if first != second:
                    jobs.append(('resolving', (first, second), 5 if tier == 'quick' else 7, False))
        for second in TIGHT:
            jobs.append(('resolving', ('A', second), 4 if tier == 'quick' else 5, True))
        return jobs

    def cases(self, job, stats):
        kind = job[0]
        tier = job[-1]
        specs = []
        if kind == 'reuse':
            _, first, depth = job
            for rest in product(range(len(REUSE)), repeat = depth - 1):
                yield reuse((first, *rest), stats)
            return
        if kind == 'resolving':
            _, prefix, depth, tight = job
            sequences = Sequences(TIGHT if tight else RESOLVING, depth, prefix)
            for names in sequences:
                yield resolving(names, tight, stats, sequences.prune)
            return
        if kind == 'direct':
            _, scheme, demand, tier = job
            for length in (1, 2, 3):
                for hops in addresses_of(scheme == 'https', length):
                    specs.append(((scheme, 'good.example', demand, None), hops, 'ok', 'good', 'whole', None, 0))
            for host in ('10.0.0.1', '[fe80::2]'):
                for hops in addresses_of(scheme == 'https', 1):
                    specs.append(((scheme, host, demand, None), hops, 'ok', 'good', 'whole', None, 0))
            eventful = [((scheme, 'good.example', demand, None), hops, 'ok', 'good') for hops in (('late',), ('late-refuse', 'late'), ('other', 'late'), ('never',)) if scheme == 'https' or 'other' not in hops]
        else:
            _, scheme, demand, proxy, tier = job
            secure = PROXIES[proxy][0]
            tunnels = ('good', 'other', 'drop', 'garbage') if scheme == 'https' else ('good',)
            for length in (1, 2):
                for hops in addresses_of(secure, length):
                    for tunnel in tunnels:
                        specs.append(((scheme, 'good.example', demand, proxy), hops, 'ok', tunnel, 'whole', None, 0))
            for answer in ANSWERS:
                for host in ('good.example', '10.0.0.1', '[fe80::2]'):
                    specs.append(((scheme, host, demand, proxy), ('ok',), answer, 'good', 'whole', None, 0))
                specs.append(((scheme, 'good.example', demand, proxy), ('ok',), answer, 'good', 'single', None, 0))
            eventful = [((scheme, 'good.example', demand, proxy), ('late',), answer, tunnel) for answer in ('ok', '407', 'silent') for tunnel in tunnels[:2]]
        for base in eventful:
            for event in EVENTS:
                for at in range(14):
                    specs.append((*base, 'whole', event, at))
        for spec in specs:
            yield single(spec, stats)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, stats), stats, job)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        kind, spec, *rest = artefact
        function = {'single': single, 'reuse': reuse}.get(kind)
        run_one(resolving(tuple(spec), rest[0], stats) if function is None else function(tuple(spec), stats), stats)


CHECK = ConnectingCheck()
