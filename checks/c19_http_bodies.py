"""
C19: bodies arrive byte for byte, exactly as long as they are, or fail.
"""
import gzip, zlib
from itertools import product

from mc.base import Check, Violation
from mc.vloop import quiet_stderr
from mc.wire import Wire, cuts, outcome_of, run_cases, run_one, single_bytes
from checks.c18_http_heads import make_headers

NEXT = b'HTTP/1.1 201 Created\r\nContent-Length: 3\r\n\r\nxyz'
NEXT_REQUEST = b'POST /n HTTP/1.1\r\nContent-Length: 3\r\n\r\nxyz'

BODIES = (b'', b'a', b'ab\r\n0\r\n\r\ncd', b'0123456789abcdefXYZ')


def raw_deflate(data):
    compressor = zlib.compressobj(wbits = -15)
    return compressor.compress(data) + compressor.flush()


ENCODERS = {
    None: lambda data: data,
    'identity': lambda data: data,
    'gzip': lambda data: gzip.compress(data, mtime = 0),
    'deflate': zlib.compress,
    'raw-deflate': raw_deflate,
}


def decode(encoding, data):
    """The oracle's decoding."""
    if encoding in (None, 'identity'):
        return data
    if encoding == 'gzip':
        return gzip.decompress(data)
    return zlib.decompress(data)


def dechunk(data):
    """Strict parser of the chunked format; returns (body, rest) or None."""
    body = []
    while True:
        line, separator, data = data.partition(b'\r\n')
        if not separator or not line or not all(character in b'0123456789abcdefABCDEF' for character in line):
            return None
        size = int(line, 16)
        if not size:
            if not data.startswith(b'\r\n'):
                return None
            return b''.join(body), data[2:]
        if len(data) < size + 2 or data[size : size + 2] != b'\r\n':
            return None
        body.append(data[:size])
        data = data[size + 2:]


def chunk_wire(pieces, style):
    """Reference encoder, in a few allowed notations."""
    result = []
    for piece in pieces:
        if not piece:
            continue
        size = format(len(piece), 'x')
        if style == 'upper':
            size = size.upper()
        elif style == 'zeros':
            size = '00' + size
        elif style == 'extension':
            size += ';name=value;other="x y"'
        elif style == 'space':
            size += ' ;a'
        result.append(size.encode() + b'\r\n' + piece + b'\r\n')
    result.append({'zeros': b'000', 'extension': b'0;last'}.get(style, b'0') + b'\r\n\r\n')
    return b''.join(result)


def head_of(request, status, headers):
    first = b'POST / HTTP/1.1\r\n' if request else f'HTTP/1.1 {status} X\r\n'.encode()
    return first + b''.join(f'{key}: {value}\r\n'.encode() for key, value in headers) + b'\r\n'


async def consume(protocol, request, mode):
    """
    Reads a message: returns (has payload, body).

    mode : whole / iterate
    """
    message = await (protocol.read_http_request() if request else protocol.read_http_response())
    reader = protocol.get_payload_reader_task(message)
    if reader is None:
        return message, None
    stream = protocol.set_payload_reader(reader)
    if mode == 'whole':
        return message, bytes(await stream)
    chunks = []
    async for chunk in stream:
        chunks.append(bytes(chunk))
    return message, b''.join(chunks)


def read_case(request, head, wire, body, to_eof, chunks, early, mode, ending, name, stats):
    """
    The bytes `chunks` start with the message `head` + `wire`; reading has to give `body`.

    body : the expected body, `None` for no body at all.
    to_eof : whether the body ends with the stream.
    """
    def case(env):
        from scarletio import Task
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        loop = env.loop
        what = f'{name} cut={[len(chunk) for chunk in chunks]} early={early} mode={mode} ending={ending}'
        artefact = ['read', request, head.decode('latin-1'), wire.decode('latin-1'), None if body is None else body.decode('latin-1'), to_eof,
            [chunk.decode('latin-1') for chunk in chunks], early, mode, ending, name]

        def fail(message):
            raise Violation(f'body:{what}', f'{message}; {what}; data={b"".join(chunks)!r}', artefact)

        protocol = HttpReadWriteProtocol(loop)
        protocol.connection_made(Wire())
        pieces = list(chunks)
        amount = early
        while pieces and amount:
            amount -= 1
            protocol.data_received(pieces.pop(0))
        task = Task(loop, consume(protocol, request, mode))
        yield
        total = len(head) + len(wire)
        given = sum(len(chunk) for chunk in chunks) - sum(len(chunk) for chunk in pieces)
        while True:
            stats.transitions += 1
            if task.is_done():
                if given < total and body is not None and (to_eof or given < len(head) + len(wire.rstrip(b'\r\n'))):
                    if outcome_of(task)[0] == 'result' and not to_eof:
                        # the end of a compressed stream may not need its last byte to be known, but framing does
                        fail(f'the body is complete after {given} bytes of {total}')
            elif given >= total and not to_eof:
                fail(f'the body is still read after {given} bytes of {total}')
            if not pieces:
                break
            piece = pieces.pop(0)
            given += len(piece)
            protocol.data_received(piece)
            yield
        if to_eof:
            if task.is_done():
                fail(f'reading till the end ended early with {outcome_of(task)}')
            if ending == 'eof':
                protocol.eof_received()
            else:
                protocol.connection_lost(None)
            yield
        outcome = outcome_of(task)
        if outcome[0] != 'result':
            fail(f'reading ended with {outcome}')
        if (outcome[1][1] or b'') != (body or b''):
            fail(f'the body is {outcome[1][1]!r} instead of {body!r}')
        if not to_eof:
            # the next one is intact
            task = Task(loop, consume(protocol, request, mode))
            yield
            if not task.is_done():
                fail('the next message is not readable')
            outcome = outcome_of(task)
            if outcome[0] != 'result' or outcome[1][1] != b'xyz':
                fail(f'the next message is {outcome}')
            if protocol.get_size():
                fail(f'{protocol.get_size()} bytes are left')
        stats.evaluations += 1
        stats.state(what)
        stats.outcome((name, mode))
    return case


def broken_case(request, data, size, ending, mode, name, allowed, stats):
    """
    The stream ends after `size` bytes: the reader has to fail (or what is in `allowed`).
    """
    def case(env):
        from scarletio import Task
        from scarletio.web_common import PayloadError
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        loop = env.loop
        what = f'broken {name} after {size} ending={ending} mode={mode}'

        def fail(message):
            raise Violation(
                f'broken:{what}', f'{message}; {what}; data={data[:size]!r}', ['broken', request, data.decode('latin-1'), size, ending, mode, name,
                None if allowed is None else allowed.decode('latin-1')]
            )

        protocol = HttpReadWriteProtocol(loop)
        protocol.connection_made(Wire())
        task = Task(loop, consume(protocol, request, mode))
        yield
        if size:
            protocol.data_received(data[:size])
        yield
        if ending == 'eof':
            protocol.eof_received()
        elif ending == 'lost':
            protocol.connection_lost(None)
        elif ending == 'error':
            protocol.connection_lost(ConnectionResetError())
        yield
        outcome = outcome_of(task)
        stats.transitions += 1
        stats.evaluations += 1
        stats.state(what)
        if outcome[0] == 'pending':
            fail('reading never ends')
        if outcome[0] == 'result':
            if allowed is None or outcome[1][1] != allowed:
                fail(f'reading succeeded with {outcome[1][1]!r}')
        elif outcome[0] != 'exception' or not isinstance(outcome[1], (PayloadError, ConnectionError)):
            fail(f'reading ended with {outcome}')
        if outcome[0] == 'exception' and not protocol.should_close() and not protocol.is_at_eof():
            fail('the protocol would be kept for an other message')
    return case


def malformed_case(request, data, mode, name, stats):
    """Reading must fail without any end of the stream (and is allowed to wait for more if it is not complete)."""
    def case(env):
        from scarletio import Task
        from scarletio.web_common import PayloadError
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        loop = env.loop
        for chunks in ((data,), single_bytes(data)):
            protocol = HttpReadWriteProtocol(loop)
            protocol.connection_made(Wire())
            task = Task(loop, consume(protocol, request, mode))
            yield
            for chunk in chunks:
                protocol.data_received(chunk)
                yield
            if not task.is_done():
                protocol.eof_received()
                yield
            outcome = outcome_of(task)
            stats.transitions += 1
            stats.evaluations += 1
            stats.state(name + repr(data))
            if outcome[0] != 'exception' or not isinstance(outcome[1], (PayloadError, ConnectionError)):
                raise Violation(
                    f'malformed:{data!r}', f'{name}: {data!r} ended with {outcome}', ['malformed', request, data.decode('latin-1'), mode, name]
                )
    return case


# --- writing

def splits(data):
    """Ways an application may write a body."""
    yield (data,)
    yield single_bytes(data)
    yield (b'', data, b'')
    if len(data) > 2:
        yield (data[:1], data[1:])
        yield (data[:-2], b'', data[-2:])


def write_case(request, encoding, chunked, pieces, last, limit, stats):
    """
    The code writes, the oracle reads; then the code reads that too.

    last : how much of the end is given to `write_eof`: None or True
    """
    def case(env):
        from http import HTTPStatus
        from scarletio import Task
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        from scarletio.web_common.http_stream_writer import HTTPStreamWriter
        loop = env.loop
        body = b''.join(pieces)
        what = f'write encoding={encoding} chunked={chunked} pieces={[len(piece) for piece in pieces]} last={last} request={request} body={body[:30]!r}'
        artefact = ['write', request, encoding, chunked, [piece.decode('latin-1') for piece in pieces], last]

        def fail(message):
            raise Violation(f'write:{what}', f'{message}; {what}', artefact)

        protocol = HttpReadWriteProtocol(loop)
        wire = Wire()
        protocol.connection_made(wire)
        writer = HTTPStreamWriter(protocol, encoding, chunked)

        async def run():
            queue = list(pieces)
            final = queue.pop() if (last and queue) else b''
            for piece in queue:
                await writer.write(piece)
            await writer.write_eof(final)
            await writer.write_eof()

        task = Task(loop, run())
        yield
        if outcome_of(task)[0] != 'result':
            fail(f'writing ended with {outcome_of(task)}')
        data = wire.take()
        if chunked:
            parsed = dechunk(data)
            if parsed is None or parsed[1]:
                fail(f'malformed chunks were written: {data!r}')
            encoded = parsed[0]
        else:
            encoded = data
        try:
            decoded = decode(encoding, encoded)
        except Exception as exception:
            fail(f'{data!r} was written, which cannot be decoded: {exception!r}')
        if decoded != body:
            fail(f'{decoded!r} was written')
        stats.transitions += 1
        stats.evaluations += 1
        stats.state(what)

        headers = []
        if encoding is not None:
            headers.append(('Content-Encoding', encoding))
        if chunked:
            headers.append(('Transfer-Encoding', 'chunked'))
        else:
            headers.append(('Content-Length', str(len(data))))
        head = head_of(request, 200, headers)
        stream = head + data + (NEXT_REQUEST if request else NEXT)
        name = f'own encoding={encoding} chunked={chunked} body={body[:30]!r}'
        whole = (stream,)
        ways = [whole, single_bytes(stream)]
        if last:
            ways.extend(way for way in cuts(stream, 1) if len(way) > 1)
        for chunks in ways:
            for mode in ('whole', 'iterate'):
                yield from read_case(request, head, data, body if data else None, False, chunks, len(chunks) // 2, mode, 'eof', name, stats)(env)
    return case


def big_write_case(amounts, chunked, encoding, stats):
    """Writing waits exactly while the transport has too much."""
    def case(env):
        from scarletio import Task
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        from scarletio.web_common.http_stream_writer import HTTPStreamWriter
        loop = env.loop
        what = f'big write {amounts} chunked={chunked} encoding={encoding}'

        def fail(message):
            raise Violation(f'big:{what}', f'{message}; {what}', ['big', list(amounts), chunked, encoding])

        protocol = HttpReadWriteProtocol(loop)
        wire = Wire()
        protocol.connection_made(wire)
        writer = HTTPStreamWriter(protocol, encoding, chunked)
        written = []
        data = bytes(range(256)) * 512

        async def run():
            for amount in amounts:
                await writer.write(data[:amount])
                written.append(amount)
            await writer.write_eof()

        protocol.pause_writing()
        task = Task(loop, run())
        yield
        if task.is_done():
            fail('writing ended while the transport had too much')
        if encoding is None and len(b''.join(wire.written)) > 65536 + max(amounts) + 100:
            fail('writing did not wait for the transport')
        for _ in range(len(amounts) + 2):
            protocol.resume_writing()
            yield
        if not task.is_done():
            fail('writing is stuck')
        if outcome_of(task)[0] != 'result':
            fail(f'writing ended with {outcome_of(task)}')
        out = wire.take()
        if chunked:
            parsed = dechunk(out)
            if parsed is None or parsed[1]:
                fail('malformed chunks were written')
            out = parsed[0]
        if decode(encoding, out) != b''.join(data[:amount] for amount in amounts):
            fail('wrong data was written')
        stats.evaluations += 1
        stats.transitions += len(amounts)
        stats.state(what)
    return case


def closed_write_case(encoding, chunked, when, stats):
    """Writing to a closing transport is refused."""
    def case(env):
        from scarletio import Task
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        from scarletio.web_common.http_stream_writer import HTTPStreamWriter
        loop = env.loop
        protocol = HttpReadWriteProtocol(loop)
        wire = Wire()
        protocol.connection_made(wire)
        writer = HTTPStreamWriter(protocol, encoding, chunked)

        async def run():
            if when:
                await writer.write(b'x' * 10)
            wire.closing = True
            # big enough for the compressor to give something
            import os
            for index in range(20):
                await writer.write(bytes((index * 7 + other * other) & 255 for other in range(10000)))
            await writer.write_eof(b'end')

        task = Task(loop, run())
        yield
        outcome = outcome_of(task)
        stats.evaluations += 1
        stats.transitions += 1
        stats.state(f'closed {encoding} {chunked} {when}')
        if outcome[0] != 'exception' or not isinstance(outcome[1], ConnectionError):
            raise Violation(f'closed:{encoding}:{chunked}:{when}', f'writing to a closing transport ended with {outcome}', ['closed', encoding, chunked, when])
    return case


def response_case(request_, status, body, stats):
    """`write_http_response` with a body."""
    def case(env):
        from http import HTTPStatus
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        loop = env.loop
        protocol = HttpReadWriteProtocol(loop)
        wire = Wire()
        protocol.connection_made(wire)
        headers = make_headers([('Content-Length', str(len(body)))])
        protocol.write_http_response(HTTPStatus(status), headers, body = body)
        data = wire.take()
        head, separator, rest = data.partition(b'\r\n\r\n')
        if rest != body:
            raise Violation(f'response:{status}:{body!r}', f'the response {data!r} was written for the body {body!r}', ['response', status, body.decode('latin-1')])
        head += separator
        stream = data + NEXT
        for chunks in cuts(stream, 1):
            for mode in ('whole', 'iterate'):
                yield from read_case(False, head, rest, body if body else None, False, chunks, 0, mode, 'eof', f'response {status} {body!r}', stats)(env)
    return case


SIZE_TOKENS = ('0', '1', 'a', 'F', 'g', '-', '+', '_', 'x', ' ', ';', '\t')
LENGTH_TOKENS = ('0', '3', '-', '+', ' ', 'a', '_', '.', ',', '\u0663', '\u00b2')


class BodiesCheck(Check):
    id = 'C19'
    rule = (
        'a state is a distinct case: message, framing, encoding, way of cutting the stream and of reading it; a distinct point of truncation; or a distinct malformed framing'
    )
    assumptions = [
        'trailer fields after the last chunk are not in the table (they are refused)',
        'compressed data which ends too early inside of a complete framing is not covered',
    ]

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        jobs = []
        for request in (False, True):
            for encoding in ENCODERS:
                for framing in ('length', 'plain', 'upper', 'zeros', 'extension', 'space', 'eof'):
                    if framing == 'eof' and request:
                        continue
                    for index in range(len(BODIES)):
                        jobs.append(('read', request, encoding, framing, index))
            for status in (200, 100, 101, 103, 199, 204, 304, 404):
                if not request:
                    jobs.append(('empty', status))
        for encoding in (None, 'gzip', 'deflate'):
            for chunked in (False, True):
                for index in range(len(BODIES)):
                    for request in (False, True):
                        jobs.append(('write', encoding, chunked, index, request))
                jobs.append(('big', encoding, chunked))
        for first in SIZE_TOKENS:
            jobs.append(('sizes', first))
        jobs.append(('terminators',))
        for first in LENGTH_TOKENS:
            jobs.append(('lengths', first))
        jobs.append(('responses',))
        return jobs

    def messages(self, job, quick):
        _, request, encoding, framing, index = job
        body = BODIES[index]
        encoded = ENCODERS[encoding](body)
        headers = []
        if encoding is not None:
            headers.append(('Content-Encoding', 'deflate' if encoding == 'raw-deflate' else encoding))
        if framing == 'length':
            headers.append(('Content-Length', str(len(encoded))))
            yield headers, encoded, body if encoded else None, False
        elif framing == 'eof':
            yield headers, encoded, body, True
        else:
            headers.append(('Transfer-Encoding', 'chunked'))
            if framing == 'upper':
                # the content length has to be ignored
                headers.append(('Content-Length', '1'))
            for number, pieces in enumerate(splits(encoded)):
                if quick and number not in (0, 4) and not (framing == 'plain' and encoding in (None, 'gzip')) and index:
                    continue
                yield headers, chunk_wire(pieces, framing), body, False

    def cases(self, job, tier, stats):
        quick = tier == 'quick'
        kind = job[0]
        if kind == 'read':
            _, request, encoding, framing, index = job
            for headers, wire, body, to_eof in self.messages(job, quick):
                head = head_of(request, 200, headers)
                stream = head + wire
                if not to_eof:
                    stream += NEXT_REQUEST if request else NEXT
                name = f'request={request} encoding={encoding} framing={framing} body={index}'
                focus = stream[len(head) - 6 : len(head) + len(wire) + 3]
                before = stream[: len(head) - 6]
                after = stream[len(head) + len(wire) + 3 :]
                ways = list(cuts(stream, 1))
                if len(focus) <= (60 if quick else 200):
                    for chunks in cuts(focus, 2):
                        if len(chunks) == 3:
                            ways.append((before + chunks[0], chunks[1], chunks[2] + after))
                if len(focus) <= (20 if quick else 36):
                    for chunks in cuts(focus, 3):
                        if len(chunks) == 4:
                            ways.append((before + chunks[0], chunks[1], chunks[2], chunks[3] + after))
                ways.append(single_bytes(stream))
                for number, chunks in enumerate(ways):
                    modes = ('whole', 'iterate') if len(chunks) <= 2 else (('whole', 'iterate')[number % 2],)
                    for mode in modes:
                        for early in ((0, 1, 2) if len(chunks) <= 2 else (number % 3,)):
                            yield read_case(request, head, wire, body, to_eof, chunks, early, mode, ('eof', 'lost')[number % 2], name, stats)
                if not to_eof and body is not None:
                    for size in range(0, len(head) + len(wire)):
                        for ending in ('eof', 'lost', 'error'):
                            yield broken_case(request, stream, size, ending, ('whole', 'iterate')[size % 2], name, None, stats)
                if not request:
                    # offering upgrade makes no difference
                    for connection, status in product(('Upgrade', 'Upgrade, Keep-Alive'), (200, 426)):
                        offering = head_of(False, status, (*headers, ('Upgrade', 'h2'), ('Connection', connection)))
                        for chunks in ((offering + stream[len(head):],), (offering, stream[len(head):])):
                            yield read_case(request, offering, wire, body, to_eof, chunks, 0, 'whole', 'eof', f'{name} offering {status}', stats)
                if to_eof:
                    for size in range(len(head), len(head) + len(wire)):
                        yield broken_case(request, stream, size, 'error', ('whole', 'iterate')[size % 2], name, None, stats)
        elif kind == 'empty':
            status = job[1]
            for headers in ((), (('Content-Length', '0'),), (('Content-Length', '5'),), (('Transfer-Encoding', 'chunked'),)):
                head = head_of(False, status, headers)
                if status in (200, 404) and headers != (('Content-Length', '0'),):
                    continue
                stream = head + NEXT
                for chunks in cuts(stream, 1):
                    for mode in ('whole', 'iterate'):
                        yield read_case(False, head, b'', None, False, chunks, 0, mode, 'eof', f'empty {status} {headers}', stats)
        elif kind == 'write':
            _, encoding, chunked, index, request = job
            for pieces in splits(BODIES[index]):
                for last in (False, True):
                    yield write_case(request, encoding, chunked, pieces, last, None, stats)
        elif kind == 'big':
            _, encoding, chunked = job
            for amounts in product((1, 40000, 65536, 65537, 131072), repeat = 2 if quick else 3):
                if sum(amounts) > 65600:
                    yield big_write_case(amounts, chunked, encoding, stats)
            for when in (False, True):
                yield closed_write_case(encoding, chunked, when, stats)
        elif kind == 'sizes':
            for length in range(0, 3 if quick else 4):
                for rest in product(SIZE_TOKENS, repeat = length):
                    line = job[1] + ''.join(rest)
                    core = line.partition(';')[0]
                    stripped = core.strip(' \t')
                    valid = bool(stripped) and all(character in '0123456789abcdefABCDEF' for character in stripped)
                    if valid:
                        size = int(stripped, 16)
                        if size > 200:
                            continue
                        # with blanks around it is up to the reader
                        if core != stripped:
                            continue
                        head = head_of(False, 200, (('Transfer-Encoding', 'chunked'),))
                        body = b'x' * size
                        if size:
                            wire = line.encode() + b'\r\n' + body + b'\r\n0\r\n\r\n'
                        else:
                            wire = line.encode() + b'\r\n\r\n'
                        stream = head + wire + NEXT
                        yield read_case(False, head, wire, body, False, (stream,), 0, 'whole', 'eof', f'size {line!r}', stats)
                        yield read_case(False, head, wire, body, False, single_bytes(stream), 0, 'iterate', 'eof', f'size {line!r}', stats)
                    else:
                        head = head_of(False, 200, (('Transfer-Encoding', 'chunked'),))
                        for size in (0, 1, 2, 10, 11):
                            data = head + line.encode() + b'\r\n' + b'x' * size + b'\r\n0\r\n\r\n' + NEXT
                            yield malformed_case(False, data, 'whole', f'chunk size {line!r}', stats)
        elif kind == 'terminators':
            head = head_of(False, 200, (('Transfer-Encoding', 'chunked'),))
            for end in product(b'\r\nx0', repeat = 2):
                end = bytes(end)
                if end == b'\r\n':
                    continue
                for mode in ('whole', 'iterate'):
                    yield malformed_case(False, head + b'2\r\nab' + end + b'0\r\n\r\n' + NEXT, mode, 'chunk end', stats)
                    yield malformed_case(False, head + b'2\r\nab\r\n0\r\n' + end + NEXT, mode, 'last chunk end', stats)
            for encoding in ('gzip', 'deflate'):
                compressed = ENCODERS[encoding](BODIES[-1])
                # damaged at its start, in the middle and in the checksum
                for data in (
                    b'not compressed', b'\xff' + compressed[1:], compressed[:12] + b'\xff\xff\xff\xff' + compressed[16:],
                    compressed[:-5] + bytes((compressed[-5] ^ 1,)) + compressed[-4:] if encoding == 'gzip' else compressed[:-1] + bytes((compressed[-1] ^ 1,)),
                ):
                    for framing in ('length', 'chunked'):
                        if framing == 'length':
                            stream = head_of(False, 200, (('Content-Encoding', encoding), ('Content-Length', str(len(data))))) + data
                        else:
                            stream = head_of(False, 200, (('Content-Encoding', encoding), ('Transfer-Encoding', 'chunked'))) + chunk_wire((data,), 'plain')
                        for mode in ('whole', 'iterate'):
                            yield malformed_case(False, stream + NEXT, mode, f'bad {encoding} {framing}', stats)
        elif kind == 'lengths':
            for length in range(0, 3 if quick else 4):
                for rest in product(LENGTH_TOKENS, repeat = length):
                    value = job[1] + ''.join(rest)
                    stripped = value.strip()
                    for request in (False, True):
                        head = head_of(request, 200, (('Content-Length', value),))
                        if stripped and stripped.isascii() and stripped.isdigit():
                            size = int(stripped)
                            if size > 100:
                                continue
                            body = b'x' * size
                            stream = head + body + (NEXT_REQUEST if request else NEXT)
                            yield read_case(request, head, body, body if size else None, False, (stream,), 0, 'whole', 'eof', f'length {value!r}', stats)
                        else:
                            yield malformed_case(request, head + b'abcdefgh' + NEXT, 'whole', f'length {value!r}', stats)
        elif kind == 'responses':
            for status in (200, 404):
                for body in BODIES:
                    yield response_case(False, status, body, stats)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, tier, stats), stats, job)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        kind = artefact[0]
        if kind == 'read':
            _, request, head, wire, body, to_eof, chunks, early, mode, ending, name = artefact
            run_one(read_case(
                request, head.encode('latin-1'), wire.encode('latin-1'), None if body is None else body.encode('latin-1'), to_eof,
                tuple(chunk.encode('latin-1') for chunk in chunks), early, mode, ending, name, stats
            ), stats)
        elif kind == 'broken':
            _, request, data, size, ending, mode, name, allowed = artefact
            run_one(broken_case(request, data.encode('latin-1'), size, ending, mode, name, None if allowed is None else allowed.encode('latin-1'), stats), stats)
        elif kind == 'malformed':
            run_one(malformed_case(artefact[1], artefact[2].encode('latin-1'), artefact[3], artefact[4], stats), stats)
        elif kind == 'write':
            _, request, encoding, chunked, pieces, last = artefact
            run_one(write_case(request, encoding, chunked, tuple(piece.encode('latin-1') for piece in pieces), last, None, stats), stats)
        elif kind == 'big':
            run_one(big_write_case(tuple(artefact[1]), artefact[2], artefact[3], stats), stats)
        elif kind == 'closed':
            run_one(closed_write_case(*artefact[1:], stats), stats)
        else:
            self.run_job(job, stats, 'quick')


CHECK = BodiesCheck()
