"""
C18: request and response heads mean the same on both ends.
"""
import re
from itertools import permutations, product

from mc.base import Check, Violation
from mc.vloop import quiet_stderr
from mc.wire import Wire, cuts, outcome_of, run_cases, run_one, single_bytes


METHODS = ('GET', 'POST', 'OPTIONS', 'PROPFIND')
PATHS = ('/', '/a/b?c=d&e=%20#', '*', 'example.com:443')
VERSIONS = ((1, 0), (1, 1))
STATUSES = ((200, 'OK'), (101, 'Switching Protocols'), (204, 'No Content'), (404, 'Not Found'), (418, "I'm a Teapot"), (500, 'Internal Server Error'))
HEADERS = (
    (),
    (('Host', 'example.com'),),
    (('a', ''),),
    (('X-a', '1'), ('X-b', '2'), ('x-A', '3')),
    (('Set-Cookie', 'a=b; path=/'), ('Set-Cookie', 'c=d, e'), ('Content-Length', '0')),
    (('A', 'x:y'), ('B', 'k\u00e9zm\u0171'), ('A-', ':')),
    (('Long', 'x' * 30 + ' ' + 'y' * 10), ('T', '"q;u\\"oted"')),
)
FOLLOWERS = (b'', b'\r\n', b'body\r\n\r\nbody', b'HTTP/1.1 200 OK\r\n\r\n')


def make_headers(pairs):
    from scarletio.utils import IgnoreCaseMultiValueDictionary
    headers = IgnoreCaseMultiValueDictionary()
    for key, value in pairs:
        headers[key] = value
    return headers


def expected_headers(pairs):
    """name (casefolded) -> values in order."""
    result = {}
    for key, value in pairs:
        result.setdefault(key.casefold(), []).append(value)
    return result


def seen_headers(headers, names):
    result = {}
    for key in headers.keys():
        result[str(key).casefold()] = list(headers.get_all(key))
    for name in names:
        # any casing has to find it
        for variation in (name.upper(), name.lower(), name):
            if headers.get_all(variation) != headers.get_all(name):
                return f'{variation!r} is not the same as {name!r}'
    return result


def strict_head(data, request):
    """Independent parser of a well formed head. Returns (first line fields, header pairs, rest)."""
    head, separator, rest = data.partition(b'\r\n\r\n')
    if not separator:
        return None
    lines = head.split(b'\r\n')
    first = lines[0].decode()
    if request:
        matched = re.fullmatch(r'(\S+) (\S+) HTTP/(\d)\.(\d)', first)
    else:
        matched = re.fullmatch(r'HTTP/(\d)\.(\d) (\d{3}) (.*)', first)
    if matched is None:
        return None
    pairs = []
    for line in lines[1:]:
        matched_header = re.fullmatch(r"([!#$%&'*+.^_`|~0-9A-Za-z-]+):[ \t]*(.*?)[ \t]*", line.decode())
        if matched_header is None:
            return None
        pairs.append(matched_header.groups())
    return matched.groups(), pairs, rest


def message_fields(message, request):
    if request:
        return (message.method, message.path, message.version[0], message.version[1])
    return (message.version[0], message.version[1], message.status, message.reason)


def write(loop, request, fields, pairs):
    """Lets the code write the head."""
    from http import HTTPStatus
    from scarletio.web_common import HttpVersion
    from scarletio.web_common.http_protocol import HttpReadWriteProtocol
    protocol = HttpReadWriteProtocol(loop)
    wire = Wire()
    protocol.connection_made(wire)
    headers = make_headers(pairs)
    if request:
        method, path, major, minor = fields
        protocol.write_http_request(method, path, headers, HttpVersion(major, minor))
    else:
        major, minor, status, reason = fields
        protocol.write_http_response(HTTPStatus(status), headers, HttpVersion(major, minor))
    return wire.take()


def round_case(request, fields, header_index, follower, chunks, early, ending, stats):
    def case(env):
        from scarletio import Task
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        loop = env.loop
        pairs = HEADERS[header_index]
        what = f'request={request} fields={fields} headers={pairs} follower={follower} cut={[len(chunk) for chunk in chunks] if chunks else None} early={early}'
        artefact = ['round', request, list(fields), header_index, follower.decode('latin-1'),
            None if chunks is None else [chunk.decode('latin-1') for chunk in chunks], early, ending]

        def fail(message):
            raise Violation(f'head:{what}', f'{message}; {what}', artefact)

        if chunks is None:
            data = write(loop, request, fields, pairs)
            parsed = strict_head(data, request)
            if parsed is None:
                fail(f'wrote a malformed head {data!r}')
            groups, written_pairs, rest = parsed
            if request:
                written = (groups[0], groups[1], int(groups[2]), int(groups[3]))
            else:
                written = (int(groups[0]), int(groups[1]), int(groups[2]), groups[3])
            if written[:3] != tuple(fields)[:3] or (written != tuple(fields)):
                fail(f'wrote {written} instead of {fields}')
            if expected_headers(written_pairs) != expected_headers(pairs):
                fail(f'wrote the headers {written_pairs}')
            if rest:
                fail(f'wrote {rest!r} after the head')
            pieces = (data + follower,)
        else:
            pieces = chunks

        protocol = HttpReadWriteProtocol(loop)
        protocol.connection_made(Wire())
        pieces = list(pieces)
        amount = early
        while pieces and amount:
            amount -= 1
            protocol.data_received(pieces.pop(0))
        task = Task(loop, protocol.read_http_request() if request else protocol.read_http_response())
        yield
        while pieces:
            protocol.data_received(pieces.pop(0))
            yield
            stats.transitions += 1
        outcome = outcome_of(task)
        if outcome[0] != 'result':
            fail(f'reading the head ended with {outcome}')
        message = outcome[1]
        if message_fields(message, request) != tuple(fields):
            fail(f'read {message_fields(message, request)}')
        seen = seen_headers(message.headers, [key for key, value in pairs])
        if seen != expected_headers(pairs):
            fail(f'read the headers {seen}')
        rest = Task(loop, protocol.read(-1))
        yield
        if ending == 'eof':
            protocol.eof_received()
        else:
            protocol.connection_lost(None)
        yield
        if outcome_of(rest) != ('result', follower):
            fail(f'after the head {outcome_of(rest)} was left instead of {follower!r}')
        stats.evaluations += 1
        stats.state(what)
        stats.outcome(fields)
    return case


def truncated_case(request, data, size, ending, stats):
    def case(env):
        from scarletio import Task
        from scarletio.web_common import PayloadError
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        loop = env.loop
        what = f'truncated request={request} {data[:size]!r} ending={ending}'
        protocol = HttpReadWriteProtocol(loop)
        protocol.connection_made(Wire())
        if size:
            protocol.data_received(data[:size])
        task = Task(loop, protocol.read_http_request() if request else protocol.read_http_response())
        yield
        if task.is_done():
            raise Violation(f'cut:{what}', f'reading ended early with {outcome_of(task)}; {what}', ['truncated', request, data.decode('latin-1'), size, ending])
        if ending == 'eof':
            protocol.eof_received()
        elif ending == 'lost':
            protocol.connection_lost(None)
        else:
            protocol.connection_lost(ConnectionResetError())
        yield
        outcome = outcome_of(task)
        stats.transitions += 1
        stats.evaluations += 1
        stats.state(what)
        if outcome[0] != 'exception' or not isinstance(outcome[1], (PayloadError, ConnectionError)):
            raise Violation(f'cut:{what}', f'reading ended with {outcome}; {what}', ['truncated', request, data.decode('latin-1'), size, ending])
    return case


# --- malformed first lines and headers, straight on the parsers

STATUS_TOKENS = (b'HTTP/', b'http/', b'1', b'.', b' ', b'\t', b'200', b'20', b'OK', b'\xff', b'/')
REQUEST_TOKENS = (b'HTTP/', b'1', b'.', b' ', b'\t', b'GET', b'/', b'\xff', b':')
HEADER_TOKENS = (b'a', b'B', b':', b' ', b'\t', b'\r\n', b'\xc3\xa9', b'\xff', b',')

STATUS_LENIENT = re.compile(br'[ \t]*HTTP/([0-9]+)\.([0-9]+)[ \t]+([0-9]{3})(?:[ \t]+(.*?))?[ \t]*', re.S)
REQUEST_LENIENT = re.compile(br'[ \t]*([^ \t]+)[ \t]+([^ \t]+)[ \t]+HTTP/([0-9]+)\.([0-9]+)[ \t]*', re.S)


def decode(value):
    return value.decode('utf-8', 'surrogateescape')


def reference_headers(data):
    """
    Returns (headers as casefolded name -> values, or None if malformed; whether the result is exactly specified)
    """
    lines = data.split(b'\r\n')
    result = {}
    strict = True
    index = 0
    while index < len(lines):
        line = lines[index]
        index += 1
        if not line:
            break
        name, separator, value = line.partition(b':')
        if not separator or not name:
            return None, True
        if name.strip(b' \t') != name or b' ' in name or b'\t' in name or name.find(b'\xff') != -1 or b',' in name or b'\xc3' in name:
            strict = False
        values = [value.strip(b' \t')]
        while index < len(lines) and lines[index][:1] in (b' ', b'\t'):
            values.append(lines[index].strip(b' \t'))
            index += 1
        if len(values) > 1 and not all(values):
            # how an empty line is folded is not specified
            strict = False
        # a multi value dictionary holds equal values once
        known = result.setdefault(decode(name).casefold(), [])
        value = decode(b' '.join(values))
        if value not in known:
            known.append(value)
    return result, strict


def line_job(kind, prefix, depth, stats):
    from scarletio.web_common import PayloadError
    from scarletio.web_common.helpers import parse_http_request, parse_http_response
    tokens = STATUS_TOKENS if kind == 'status' else REQUEST_TOKENS
    function = parse_http_response if kind == 'status' else parse_http_request
    pattern = STATUS_LENIENT if kind == 'status' else REQUEST_LENIENT
    for length in range(0, depth + 1):
        for rest in product(tokens, repeat = length):
            line = b''.join((*prefix, *rest))
            matched = pattern.fullmatch(line)
            for suffix, headers in ((b'', {}), (b'\r\na: b', {'a': ['b']})):
                stats.evaluations += 1
                data = line + suffix
                try:
                    message = function(data)
                except PayloadError:
                    if matched is not None:
                        raise Violation(f'line:{data!r}', f'a valid {kind} line is refused: {data!r}', None)
                    continue
                except Exception as exception:
                    raise Violation(f'line:{data!r}', f'parsing {data!r} failed with {exception!r}', None)
                if matched is None:
                    raise Violation(f'line:{data!r}', f'an invalid {kind} line is accepted: {data!r} as {message!r}', None)
                groups = matched.groups()
                if kind == 'status':
                    wanted = (int(groups[0]), int(groups[1]), int(groups[2]), decode(groups[3]) if groups[3] else None)
                else:
                    wanted = (decode(groups[0]).upper(), decode(groups[1]), int(groups[2]), int(groups[3]))
                seen = message_fields(message, kind != 'status')
                if seen != wanted or seen_headers(message.headers, ()) != headers:
                    raise Violation(f'line:{data!r}', f'{data!r} was parsed as {seen} with {message.headers} instead of {wanted}', None)
                stats.outcome(wanted)
            stats.transitions += 1
            stats.state(line)


def header_job(prefix, depth, stats):
    from scarletio.web_common import PayloadError
    from scarletio.web_common.helpers import parse_http_response
    for length in range(0, depth + 1):
        for rest in product(HEADER_TOKENS, repeat = length):
            block = b''.join((*prefix, *rest))
            if b'\r\n\r\n' in block or block.endswith(b'\r\n') or block.startswith(b'\r\n'):
                continue
            data = b'HTTP/1.1 200 OK\r\n' + block
            wanted, strict = reference_headers(block)
            stats.evaluations += 1
            stats.transitions += 1
            stats.state(block)
            if block[:1] in (b' ', b'\t'):
                strict = False
            try:
                message = parse_http_response(data)
            except PayloadError:
                if wanted is not None and strict:
                    raise Violation(f'headers:{block!r}', f'valid headers are refused: {block!r}', None)
                continue
            except Exception as exception:
                raise Violation(f'headers:{block!r}', f'parsing {block!r} failed with {exception!r}', None)
            if not strict:
                continue
            if wanted is None:
                raise Violation(f'headers:{block!r}', f'malformed headers are accepted: {block!r} as {message.headers!r}', None)
            seen = seen_headers(message.headers, ())
            if seen != wanted:
                raise Violation(f'headers:{block!r}', f'{block!r} was parsed as {seen} instead of {wanted}', None)


# --- what a head says about the connection and the body

CONNECTIONS = (None, 'close', 'Close', 'keep-alive', 'Keep-Alive', 'upgrade', 'Upgrade')
KEEP_ALIVES = (
    (None, 15.0, 0), ('timeout=5', 5.0, 0), ('timeout=5, max=10', 5.0, 10), ('MAX=3 ,Timeout = 7', 7.0, 3), ('garbage', 15.0, 0),
    ('timeout=x, max=4', 15.0, 4), ('max=,timeout=2', None, None),
)
UPGRADES = (None, 'websocket', '')
TRANSFER = ((None, False), ('chunked', True), ('Chunked', True), ('gzip, chunked', True), ('identity', False))
ENCODINGS = ((None, None), ('gzip', 'gzip'), ('GZip', 'gzip'))
FIELDS = ('upgraded', 'chunked', 'encoding', 'keep_alive')


def derived_job(request, version, stats):
    from scarletio.web_common.helpers import parse_http_request, parse_http_response
    for connection, (keep_alive, timeout, maximum), upgrade, (transfer, chunked), (encoding, encoding_wanted) in product(
        CONNECTIONS, KEEP_ALIVES, UPGRADES, TRANSFER, ENCODINGS
    ):
        lines = [f'GET / HTTP/{version}' if request else f'HTTP/{version} 200 OK']
        for name, value in (
            ('Connection', connection), ('keep-alive', keep_alive), ('Upgrade', upgrade), ('transfer-ENCODING', transfer), ('content-encoding', encoding),
        ):
            if value is not None:
                lines.append(f'{name}: {value}')
        data = '\r\n'.join(lines).encode()
        wanted = {
            'upgraded': bool(upgrade) and connection is not None and connection.casefold() == 'upgrade',
            'chunked': chunked,
            'encoding': encoding_wanted,
        }
        if connection is None:
            persistent = version == '1.1'
        else:
            persistent = connection.casefold() != 'close'
        if connection is not None and connection.casefold() == 'upgrade' and version == '1.0':
            persistent = None # not specified
        for order in permutations(FIELDS):
            message = (parse_http_request if request else parse_http_response)(data)
            stats.evaluations += 1
            for round_ in range(2):
                for name in order:
                    value = getattr(message, name)
                    stats.transitions += 1
                    if name == 'keep_alive':
                        if persistent is None:
                            continue
                        if (value is not None) is not persistent:
                            raise Violation(f'derived:{data!r}', f'keep alive of {data!r} is {value!r}', None)
                        if value is not None and timeout is not None and (value.connection_timeout, value.max_requests) != (timeout, maximum):
                            raise Violation(f'derived:{data!r}', f'keep alive of {data!r} is {value!r}', None)
                    elif value != wanted[name]:
                        raise Violation(f'derived:{data!r}', f'{name} of {data!r} is {value!r} instead of {wanted[name]!r} (asked in the order {order})', None)
        stats.state(data)
        stats.outcome((wanted['upgraded'], chunked, persistent))


def keep_alive_job(stats):
    from scarletio.web_common.keep_alive_info import KeepAliveInfo
    for timeout, maximum in product((0.0, 1.0, 15.0, 60.0, 3600.0), (0, 1, 5, 1000)):
        info = KeepAliveInfo(timeout, maximum)
        value = info.to_header_value()
        other = KeepAliveInfo.from_header_value(value)
        stats.evaluations += 1
        stats.state(repr((timeout, maximum)))
        if (other.connection_timeout, other.max_requests) != (timeout, maximum) or other != info or hash(other) != hash(info):
            raise Violation(f'keep-alive:{timeout}:{maximum}', f'keep alive info {timeout}, {maximum} is written as {value!r}, which is {other!r}', None)


class HeadsCheck(Check):
    id = 'C18'
    rule = (
        'a state is a distinct case: message, follow up and way of cutting it; a distinct malformed first line or header block over the alphabet; or a distinct '
        'combination of connection headers'
    )
    assumptions = ['the value of a header has no surrounding whitespace and no bare CR or LF']

    def setup(self):
        quiet_stderr()

    def heads(self, request):
        if request:
            return list(product(METHODS, PATHS, *zip(*VERSIONS)))
        return [(*version, *status) for version in VERSIONS for status in STATUSES]

    def jobs(self, tier):
        jobs = []
        for request in (True, False):
            if request:
                fields = [(method, path, *version) for method in METHODS for path in PATHS for version in VERSIONS]
            else:
                fields = [(*version, *status) for version in VERSIONS for status in STATUSES]
            for item in fields:
                jobs.append(('round', request, item))
        for kind, tokens in (('status', STATUS_TOKENS), ('request', REQUEST_TOKENS)):
            for first in product(tokens, repeat = 2):
                jobs.append(('line', kind, first))
        for first in product(HEADER_TOKENS, repeat = 2):
            jobs.append(('headers', first))
        for request in (True, False):
            for version in ('1.0', '1.1'):
                jobs.append(('derived', request, version))
        jobs.append(('keep_alive',))
        return jobs

    def run_job(self, job, stats, tier):
        quick = tier == 'quick'
        kind = job[0]
        if kind == 'line':
            prefixes = [job[2]]
            if job[1] == 'status':
                if job[2] == (b'HTTP/', b'1'):
                    # and deep from the start of a good one
                    prefixes.append((b'HTTP/', b'1', b'.', b'1', b' ', b'200'))
                    prefixes.append((b'HTTP/', b'1', b'.', b'1'))
            elif job[2] == (b'GET', b' '):
                prefixes.append((b'GET', b' ', b'/', b' ', b'HTTP/', b'1'))
                prefixes.append((b'GET', b' ', b'/'))
            for prefix in prefixes:
                line_job(job[1], prefix, 3 if quick else 4, stats)
        elif kind == 'headers':
            header_job(job[1], 4 if quick else 5, stats)
        elif kind == 'derived':
            derived_job(job[1], job[2], stats)
        elif kind == 'keep_alive':
            keep_alive_job(stats)
        else:
            run_cases(self.cases(job[1], tuple(job[2]), tier, stats), stats, job)
        stats.sample(repr(job))

    def cases(self, request, fields, tier, stats):
        quick = tier == 'quick'
        for header_index in range(len(HEADERS)):
            for follower_index, follower in enumerate(FOLLOWERS):
                yield round_case(request, fields, header_index, follower, None, 0, 'eof', stats)
                yield round_case(request, fields, header_index, follower, None, 99, 'lost', stats)
            # the cutting is done on the bytes the code should write
            if request:
                line = f'{fields[0]} {fields[1]} HTTP/{fields[2]}.{fields[3]}\r\n'
            else:
                line = f'HTTP/{fields[0]}.{fields[1]} {fields[2]} {fields[3]}\r\n'
            head = (line + ''.join(f'{key}: {value}\r\n' for key, value in HEADERS[header_index]) + '\r\n').encode()
            for follower in FOLLOWERS:
                data = head + follower
                deep = (not quick or (header_index in (0, 1) and (len(fields[1]) == 1 if request else fields[2] == 200)))
                for chunks in cuts(data, 2 if deep else 1):
                    yield round_case(request, fields, header_index, follower, chunks, 0, 'eof', stats)
                    yield round_case(request, fields, header_index, follower, chunks, len(chunks) // 2, 'lost', stats)
                yield round_case(request, fields, header_index, follower, single_bytes(data), 0, 'eof', stats)
            for size in range(0, len(head)):
                for ending in ('eof', 'lost', 'error'):
                    yield truncated_case(request, head, size, ending, stats)

    def replay(self, job, artefact, stats):
        if artefact is None:
            self.run_job(job, stats, 'quick')
        elif artefact[0] == 'truncated':
            run_one(truncated_case(artefact[1], artefact[2].encode('latin-1'), artefact[3], artefact[4], stats), stats)
        else:
            _, request, fields, header_index, follower, chunks, early, ending = artefact
            run_one(round_case(
                request, tuple(fields), header_index, follower.encode('latin-1'),
                None if chunks is None else tuple(chunk.encode('latin-1') for chunk in chunks), early, ending, stats
            ), stats)


CHECK = HeadsCheck()
