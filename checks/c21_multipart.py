"""
C21: forms and multipart bodies carry exactly what was put into them.
"""
import base64, gzip, io, os, quopri, re, shutil, tempfile, zlib
from itertools import product
from urllib.parse import parse_qsl, unquote

from mc.base import Check, Violation
from mc.vloop import quiet_stderr
from mc.wire import Wire, cuts, outcome_of, run_cases, run_one, single_bytes
from checks.c18_http_heads import make_headers


class Recorder:
    """What payloads are written into."""
    def __init__(self):
        self.chunks = []

    async def write(self, data):
        self.chunks.append(bytes(data))


class Broken(Exception):
    pass


def split_header(value):
    """Independent parser of `a/b; c="d"; e*=utf-8''f`. Returns (head, parameters)."""
    match = re.match(r'[^;]*', value)
    head = match.group().strip()
    parameters = {}
    position = match.end()
    pattern = re.compile(r';\s*([^=;"\s]+)=("((?:[^"\\]|\\.)*)"|[^;"]*)', re.S)
    while position < len(value):
        match = pattern.match(value, position)
        if match is None:
            raise Broken(f'malformed header value {value!r}')
        position = match.end()
        key = match.group(1)
        if key in parameters:
            raise Broken(f'repeated parameter in {value!r}')
        if match.group(3) is not None:
            got = re.sub(r'\\(.)', r'\1', match.group(3), flags = re.S)
        else:
            got = match.group(2).strip()
        if key.endswith('*'):
            encoding, _, got = got.split("'", 2)
            got = unquote(got, encoding, 'strict')
            key = key[:-1]
        parameters[key.casefold()] = got
    return head, parameters


def split_multipart(data, boundary):
    """Strict, independent multipart parser: list of (headers, raw body)."""
    delimiter = b'\r\n--' + boundary
    data = b'\r\n' + data
    parts = data.split(delimiter)
    if parts[0]:
        raise Broken(f'data before the first boundary: {parts[0]!r}')
    if len(parts) < 2 or parts[-1] != b'--\r\n':
        raise Broken('no closing boundary')
    result = []
    for part in parts[1:-1]:
        if not part.startswith(b'\r\n'):
            raise Broken(f'malformed boundary line {part[:20]!r}')
        part = part[2:]
        if part.startswith(b'\r\n'):
            head, body = b'', part[2:]
        else:
            head, separator, body = part.partition(b'\r\n\r\n')
            if not separator:
                raise Broken(f'headers without end {part!r}')
        headers = []
        for line in head.split(b'\r\n') if head else ():
            key, separator, value = line.decode('utf-8').partition(': ')
            if not separator or not re.fullmatch(r'[-!#$%&\'*+.^_`|~0-9a-zA-Z]+', key) or '\r' in value or '\n' in value:
                raise Broken(f'malformed header line {line!r}')
            headers.append((key.casefold(), value))
        result.append((headers, body))
    return result


def single(headers, name):
    values = [value for key, value in headers if key == name]
    if len(values) > 1:
        raise Broken(f'{name} is repeated: {values}')
    return values[0] if values else None


def decode_part(headers, body):
    transfer = (single(headers, 'content-transfer-encoding') or '').casefold()
    if transfer == 'base64':
        body = base64.b64decode(body, validate = True)
    elif transfer == 'quoted-printable':
        body = quopri.decodestring(body)
    elif transfer not in ('', 'binary'):
        raise Broken(f'transfer encoding {transfer!r}')
    content = (single(headers, 'content-encoding') or '').casefold()
    if content == 'gzip':
        body = gzip.decompress(body)
    elif content == 'deflate':
        body = zlib.decompress(body, wbits = 15 if body[0] & 15 == 8 else -15)
    elif content not in ('', 'identity'):
        raise Broken(f'content encoding {content!r}')
    length = single(headers, 'content-length')
    if length is not None and int(length) != len(body):
        raise Broken(f'content length is {length} instead of {len(body)}')
    return body


async def pieces_iterator(pieces):
    for piece in pieces:
        yield piece


class Source:
    """Builds the value of a field; `text` tells whether the encoding of the field applies."""
    def __init__(self, directory):
        self.directory = directory
        self.opened = []

    def make(self, kind, content):
        if kind == 'str':
            return content
        if kind == 'stringio':
            return io.StringIO(content)
        if kind == 'bytes':
            return content
        if kind == 'bytearray':
            return bytearray(content)
        if kind == 'memoryview':
            return memoryview(content)
        if kind == 'bytesio':
            return io.BytesIO(content)
        if kind == 'bytesio-offset':
            value = io.BytesIO(b'skipped' + content)
            value.seek(7)
            return value
        if kind == 'pieces':
            return pieces_iterator(content)
        path = os.path.join(self.directory, f'file{len(self.opened)}')
        with open(path, 'wb') as file:
            file.write(content)
        mode = {'file': 'rb', 'raw': 'rb', 'text': 'r', 'text-latin': 'r', 'text-crlf': 'r', 'file-offset': 'rb', 'random': 'r+b'}[kind]
        keywords = {}
        if kind == 'raw':
            keywords['buffering'] = 0
        elif kind == 'text-latin':
            keywords['encoding'] = 'latin-1'
        elif mode == 'r':
            keywords['encoding'] = 'utf-8'
        value = open(path, mode, **keywords)
        if kind == 'file-offset':
            value.read(2)
        self.opened.append(value)
        return value

    def close(self):
        for value in self.opened:
            value.close()
        self.opened.clear()


BINARY = bytes(range(256))
TEXT = 'k\u0151 "x"\r\n--y\n'

# kind, content, what it is as bytes (a callable of the encoding for texts)
VALUES = (
    ('str', '', lambda encoding: b''),
    ('str', TEXT, lambda encoding: TEXT.encode(encoding)),
    ('stringio', 'a=b\r\n', lambda encoding: 'a=b\r\n'.encode(encoding)),
    ('bytes', b'', b''),
    ('bytes', BINARY, BINARY),
    ('bytearray', b'\r\n--\r\n', b'\r\n--\r\n'),
    ('memoryview', b'x \r\ny\t\n =3D', b'x \r\ny\t\n =3D'),
    ('bytesio', BINARY * 2, BINARY * 2),
    ('bytesio-offset', b'abc', b'abc'),
    ('file', BINARY, BINARY),
    ('file-offset', b'0123', b'23'),
    ('random', b'0123', b'0123'),
    ('raw', b'abc\n', b'abc\n'),
    ('text', TEXT.encode(), lambda encoding: TEXT.replace('\r\n', '\n').encode(encoding)),
    ('text-latin', b'\xe1\xe9', lambda encoding: '\xe1\xe9'.encode(encoding)),
    ('text-crlf', b'a\r\nb', lambda encoding: b'a\nb'),
    ('pieces', (b'ab', b'', b'c\r', b'\n'), b'abc\r\n'),
    ('json', {'a': [1, 'k\u0151']}, None),
)
NAMES = ('a', 'b c', 'q"\\;=\'*', 'k\u0151\r\nx', '')
CONTENT_TYPES = (None, 'text/plain', 'text/plain; charset=iso-8859-2', 'image/png')
FILE_NAMES = (None, 'f.txt', '\u0151"; x=.png')
TRANSFERS = (None, 'base64', 'quoted-printable', 'binary')

SMALL_FIELDS = (
    ('a', 0, None, None, None),
    ('a', 1, 'text/plain', None, None),
    ('b', 3, None, 'f', None),
    ('b', 4, 'image/png', 'f', 'base64'),
    ('c', 6, None, None, 'quoted-printable'),
    ('c', 9, None, None, None),
    ('d', 13, None, None, None),
    ('e', 16, 'x/y', None, None),
    ('f', 17, None, None, None),
)


def expected_value(index, content_type, encoding):
    kind, content, expected = VALUES[index]
    if kind == 'json':
        import json
        return json.dumps(content, separators = (',', ':')).encode(), True
    if callable(expected):
        if content_type is not None:
            declared = split_header(content_type)[1].get('charset')
            if declared is not None:
                encoding = declared
        return expected(encoding), False
    return expected, False


def same(got, expected, is_json):
    if is_json:
        import json
        return json.loads(got) == json.loads(expected)
    return got == expected


async def read_all(protocol, headers, collected):
    async for item in protocol.read_multipart(headers):
        collected.append(item)


def form_case(fields, quote, encoding, source, stats, read):
    """A form of `fields` ((name, value index, content type, file name, transfer encoding), ...)."""
    def case(env):
        from scarletio import Task
        from scarletio.web_common import FormData
        loop = env.loop
        artefact = ['form', [list(field) for field in fields], quote, encoding]

        def fail(message):
            raise Violation(f'form:{fields!r}:{quote}:{encoding}', f'{message}; fields = {fields!r}, quote = {quote}, encoding = {encoding}', artefact)

        form = FormData(quote)
        expected = []
        multipart = False
        for name, index, content_type, file_name, transfer in fields:
            kind, content, _ = VALUES[index]
            if kind == 'json':
                form.add_json(name, content)
                multipart = True
                content_type = 'application/json'
                file_name = None
                transfer = None
            else:
                form.add_field(name, source.make(kind, content), content_type, file_name, transfer)
                if kind not in ('str', 'pieces') or content_type is not None or file_name is not None or transfer is not None:
                    multipart = True
            value, is_json = expected_value(index, content_type, encoding)
            expected.append((name, value, is_json, content_type, file_name, transfer, kind))

        if not multipart:
            if any(VALUES[index][0] == 'pieces' for _, index, *_ in fields):
                return
            try:
                payload = form.generate_form(encoding)
            except Exception as exception:
                fail(f'generating the form failed with {exception!r}')
            recorder = Recorder()
            task = Task(loop, payload.write(recorder))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result':
                fail(f'writing ended with {outcome}')
            data = b''.join(recorder.chunks)
            if payload.size != len(data):
                fail(f'size is {payload.size} instead of {len(data)}')
            head, parameters = split_header(payload.content_type)
            if head != 'application/x-www-form-urlencoded' or parameters.get('charset', 'utf-8') != encoding:
                fail(f'content type is {payload.content_type!r}')
            got = parse_qsl(data.decode('ascii'), keep_blank_values = True, strict_parsing = bool(data), encoding = encoding, errors = 'strict')
            if got != [(name, value.decode(encoding)) for name, value, *_ in expected]:
                fail(f'got {got}')
            stats.evaluations += 1
            stats.state(repr(artefact))
            return

        if not quote and any(set('\r\n') & set(f'{name}{file_name}') for name, _, _, _, file_name, _, _ in expected):
            return
        try:
            payload = form.generate_form(encoding)
        except Exception as exception:
            fail(f'generating the form failed with {exception!r}, {exception.__cause__!r}')
        recorder = Recorder()
        size = payload.size
        task = Task(loop, payload.write(recorder))
        yield
        outcome = outcome_of(task)
        if outcome[0] != 'result':
            fail(f'writing ended with {outcome}')
        data = b''.join(recorder.chunks)
        stats.transitions += len(recorder.chunks)
        if size is not None and size != len(data):
            fail(f'size is {size}, but {len(data)} bytes were written')
        try:
            head, parameters = split_header(payload.content_type)
            if head != 'multipart/form-data':
                fail(f'content type is {payload.content_type!r}')
            parts = split_multipart(data, parameters['boundary'].encode())
            if len(parts) != len(expected):
                fail(f'{len(parts)} fields arrived instead of {len(expected)}')
            for (headers, body), (name, value, is_json, content_type, file_name, transfer, kind) in zip(parts, expected):
                disposition, parameters = split_header(single(headers, 'content-disposition') or '')
                if disposition != 'form-data':
                    fail(f'disposition is {disposition!r}')
                if parameters.get('name') != name:
                    fail(f'name is {parameters.get("name")!r} instead of {name!r}')
                if file_name is not None and parameters.get('filename') != file_name:
                    fail(f'file name is {parameters.get("filename")!r} instead of {file_name!r}')
                if content_type is not None and single(headers, 'content-type') != content_type:
                    fail(f'content type is {single(headers, "content-type")!r} instead of {content_type!r}')
                if transfer is not None and single(headers, 'content-transfer-encoding') != transfer:
                    fail('transfer encoding is lost')
                if content_type is None and kind in ('str', 'stringio', 'text', 'text-latin'):
                    declared = split_header(single(headers, 'content-type'))[1].get('charset', encoding)
                    if declared != encoding:
                        fail(f'declared encoding is {declared!r} instead of {encoding!r}')
                got = decode_part(headers, body)
                if not same(got, value, is_json):
                    fail(f'value of {name!r} is {got[:60]!r} instead of {value[:60]!r}')
        except Broken as exception:
            fail(f'{exception}; data = {data[:2000]!r}')

        # and the library reads it back
        for chunks in read(data):
            collected = []
            task, protocol = start_reading(loop, payload.content_type, collected)
            for chunk in chunks:
                protocol.data_received(chunk)
                yield
            if not task.is_done():
                fail('reading it is not finished')
            outcome = outcome_of(task)
            if outcome[0] != 'result':
                fail(f'reading it ended with {outcome}; cut = {[len(chunk) for chunk in chunks]}')
            if len(collected) != len(expected):
                fail(f'{len(collected)} fields are read instead of {len(expected)}')
            for (got_headers, got), (name, value, is_json, content_type, file_name, transfer, kind), (headers, _) in zip(collected, expected, parts):
                if not same(bytes(got), value, is_json):
                    fail(f'value of {name!r} read is {bytes(got)[:60]!r} instead of {value[:60]!r}; cut = {[len(chunk) for chunk in chunks]}')
                for key, header_value in headers:
                    if got_headers.get_all(key) != [header_value]:
                        fail(f'header {key!r} read is {got_headers.get_all(key)} instead of {header_value!r}')
            stats.transitions += len(chunks)
        stats.evaluations += 1
        stats.state(repr(artefact))
        stats.outcome(tuple(sorted({kind for *_, kind in expected})))
    return case


def start_reading(loop, content_type, collected):
    from scarletio import Task
    from scarletio.web_common.http_protocol import HttpReadWriteProtocol
    protocol = HttpReadWriteProtocol(loop)
    protocol.connection_made(Wire())
    headers = make_headers((('Content-Type', content_type),))
    return Task(loop, read_all(protocol, headers, collected)), protocol


def encoding_case(pieces, content, transfer, stats, read):
    """A field written in `pieces` with the given encodings."""
    def case(env):
        from scarletio import Task
        from scarletio.web_common.multipart import MultipartWriter
        loop = env.loop
        body = b''.join(pieces)
        artefact = ['encoding', [piece.decode('latin-1') for piece in pieces], content, transfer]

        def fail(message):
            raise Violation(f'encoding:{artefact!r}', f'{message}; pieces = {pieces!r}, content encoding = {content}, transfer encoding = {transfer}', artefact)

        writer = MultipartWriter('mixed', 'bo')
        headers = []
        if content is not None:
            headers.append(('Content-Encoding', content))
        if transfer is not None:
            headers.append(('Content-Transfer-Encoding', transfer))
        writer.append(pieces_iterator(pieces), make_headers(headers))
        writer.append(b'end')
        recorder = Recorder()
        task = Task(loop, writer.write(recorder))
        yield
        outcome = outcome_of(task)
        if outcome[0] != 'result':
            fail(f'writing ended with {outcome}')
        data = b''.join(recorder.chunks)
        if writer.size is not None:
            fail('the size can not be known')
        try:
            parts = split_multipart(data, b'bo')
            if len(parts) != 2:
                fail(f'{len(parts)} parts were written')
            if decode_part(*parts[0]) != body:
                fail(f'the body is {decode_part(*parts[0])!r}')
            if decode_part(*parts[1]) != b'end':
                fail('the next body is affected')
        except (Broken, ValueError, zlib.error, OSError, EOFError) as exception:
            fail(f'{exception!r}; data = {data!r}')
        for chunks in read(data):
            collected = []
            task, protocol = start_reading(loop, writer.content_type, collected)
            for chunk in chunks:
                protocol.data_received(chunk)
                yield
            outcome = outcome_of(task)
            if outcome[0] != 'result' or [bytes(got) for _, got in collected] != [body, b'end']:
                fail(f'reading it ended with {outcome}, {collected}')
        stats.transitions += 1
        stats.evaluations += 1
        stats.state(repr(artefact))
    return case


BOUNDARIES = ('b', 'a.b-c', 'with space', 'q"\\', "'()+_,-./:=?", 'x' * 70)
SUBTYPES = ('mixed', 'related', 'form-data')
# kinds of body parts
PARTS = ('bytes', 'str', 'json', 'form', 'nested', 'empty-nested', 'payload', 'headers', 'gzip', 'base64', 'file', 'pieces')


def writer_case(kinds, subtype, boundary, source, stats):
    def case(env):
        from scarletio import Task
        from scarletio.web_common.multipart import MultipartWriter, create_payload
        loop = env.loop
        artefact = ['writer', list(kinds), subtype, boundary]

        def fail(message):
            raise Violation(f'writer:{artefact!r}', f'{message}; parts = {kinds}, subtype = {subtype}, boundary = {boundary!r}', artefact)

        def fill(writer, kinds, depth):
            expected = []
            for kind in kinds:
                if kind == 'bytes':
                    writer.append(b'a\r\n')
                    expected.append((None, b'a\r\n'))
                elif kind == 'str':
                    writer.append('k\u0151')
                    expected.append(('text/plain', 'k\u0151'.encode()))
                elif kind == 'json':
                    writer.append_json({'a': 'k\u0151'})
                    expected.append(('application/json', {'a': 'k\u0151'}))
                elif kind == 'form':
                    writer.append_form({'a': 'b c', 'd': ['e', '&=']})
                    expected.append(('application/x-www-form-urlencoded', b'a=b+c&d=e&d=%26%3D'))
                elif kind in ('nested', 'empty-nested'):
                    inner = MultipartWriter('mixed', 'inner' + 'x' * depth)
                    # a nested one can not change after it was added
                    inner_expected = fill(inner, ('bytes', 'str') if kind == 'nested' else (), depth + 1)
                    writer.append(inner)
                    expected.append(('multipart/mixed', inner_expected))
                elif kind == 'payload':
                    writer.append(create_payload(b'xyz', {'content_type': 'a/b'}), make_headers((('X-a', '1'),)))
                    expected.append(('a/b', b'xyz', ('x-a', '1')))
                elif kind == 'headers':
                    writer.append(b'xyz', make_headers((('X-a', '1'), ('X-a', '2'))))
                    expected.append((None, b'xyz', ('x-a', '1'), ('x-a', '2')))
                elif kind == 'gzip':
                    writer.append(b'xyz' * 10, make_headers((('Content-Encoding', 'gzip'),)))
                    expected.append((None, b'xyz' * 10))
                elif kind == 'base64':
                    writer.append(b'xyza', make_headers((('Content-Transfer-Encoding', 'Base64'),)))
                    expected.append((None, b'xyza'))
                elif kind == 'file':
                    writer.append(source.make('file', b'content'))
                    expected.append((None, b'content'))
                elif kind == 'pieces':
                    writer.append(pieces_iterator((b'1', b'2')))
                    expected.append((None, b'12'))
            return expected

        def compare(content_type, data, expected):
            head, parameters = split_header(content_type)
            if parameters['boundary'].encode() == b'':
                fail('empty boundary')
            if expected:
                parts = split_multipart(data, parameters['boundary'].encode())
            else:
                parts = []
                if data != b'--' + parameters['boundary'].encode() + b'--\r\n':
                    fail(f'empty writer wrote {data!r}')
            if len(parts) != len(expected):
                fail(f'{len(parts)} parts arrived instead of {len(expected)}')
            for (headers, body), (part_type, wanted, *wanted_headers) in zip(parts, expected):
                got = decode_part(headers, body)
                if part_type is not None and split_header(single(headers, 'content-type') or '')[0] != part_type:
                    fail(f'type of part is {single(headers, "content-type")!r} instead of {part_type!r}')
                if isinstance(wanted, list):
                    compare(single(headers, 'content-type'), got, wanted)
                elif isinstance(wanted, dict):
                    import json
                    if json.loads(got) != wanted:
                        fail(f'part is {got!r} instead of {wanted!r}')
                elif got != wanted:
                    fail(f'part is {got!r} instead of {wanted!r}')
                for header in wanted_headers:
                    if header not in headers:
                        fail(f'header {header} is missing: {headers}')

        try:
            writer = MultipartWriter(subtype, boundary)
        except ValueError as exception:
            fail(f'boundary refused: {exception!r}')
        expected = fill(writer, kinds, 0)
        if split_header(writer.content_type) != (f'multipart/{subtype}', {'boundary': boundary}):
            fail(f'content type is {writer.content_type!r}')
        recorder = Recorder()
        size = writer.size
        task = Task(loop, writer.write(recorder))
        yield
        outcome = outcome_of(task)
        if outcome[0] != 'result':
            fail(f'writing ended with {outcome}')
        data = b''.join(recorder.chunks)
        if size is not None and size != len(data):
            fail(f'size is {size} instead of {len(data)}')
        if size is None and expected and not set(kinds) & {'gzip', 'base64', 'pieces', 'empty-nested'}:
            fail('the size could be known')
        try:
            compare(writer.content_type, data, expected)
        except Broken as exception:
            fail(f'{exception}; data = {data!r}')
        stats.transitions += 1
        stats.evaluations += 1
        stats.state(repr(artefact))
    return case


STREAM = (
    b'preamble\r\n--b\r\n\r\nno headers\r\n--b\r\nContent-Length: 4\r\nX-A: 1\r\n\r\n\r\n--\r\n--b\r\n'
    b'Content-Type: a/b\r\nContent-Transfer-Encoding: base64\r\n\r\nYWJj\r\n--b\r\nA: b\r\n\r\n\r\n--b--\r\nafter'
)
STREAM_PARTS = [
    ([], b'no headers'),
    ([('Content-Length', '4'), ('X-A', '1')], b'\r\n--'),
    ([('Content-Type', 'a/b'), ('Content-Transfer-Encoding', 'base64')], b'abc'),
    ([('A', 'b')], b''),
]


def stream_case(chunks, size, ending, stats):
    """A hand made multipart stream, cut to `chunks`, or truncated at `size`."""
    def case(env):
        from scarletio import Task
        from scarletio.web_common import PayloadError
        loop = env.loop
        artefact = ['stream', [chunk.decode('latin-1') for chunk in chunks], size, ending]

        def fail(message):
            raise Violation(f'stream:{artefact!r}', f'{message}; cut = {[len(chunk) for chunk in chunks]}, truncated at {size}, ending = {ending}', artefact)

        collected = []
        task, protocol = start_reading(loop, 'multipart/mixed; boundary=b', collected)
        for chunk in chunks:
            protocol.data_received(chunk)
            yield
            stats.transitions += 1
        if size is not None:
            if ending == 'eof':
                protocol.eof_received()
            elif ending == 'lost':
                protocol.connection_lost(None)
            else:
                protocol.connection_lost(OSError('lost'))
            yield
        outcome = outcome_of(task)
        got = [(sorted((str(key), value) for key, value in headers.items()), bytes(data)) for headers, data in collected]
        wanted = [(sorted(headers), data) for headers, data in STREAM_PARTS]
        if size is None:
            if outcome[0] != 'result':
                fail(f'reading ended with {outcome}')
            if got != wanted:
                fail(f'got {got}')
            task = Task(loop, protocol.read_exactly(5))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result' or bytes(outcome[1]) != b'after':
                fail(f'reading what follows ended with {outcome}')
        else:
            if outcome[0] == 'result':
                # ended right after a boundary
                if not STREAM[:size].endswith((b'--b', b'--b--')):
                    fail('reading a truncated stream succeeded')
            elif outcome[0] != 'exception' or not isinstance(outcome[1], (PayloadError, ConnectionError, OSError if ending == 'error' else PayloadError)):
                fail(f'reading ended with {outcome}')
            if got != wanted[:len(got)]:
                fail(f'got {got}')
        stats.evaluations += 1
        stats.state(repr(artefact))
    return case


TOKENS = (
    b'--b', b'--', b'\r\n', b'x', b'X: y\r\n', b'Content-Length: 1\r\n', b'Content-Length: x\r\n', b'Content-Transfer-Encoding: base64\r\n',
    b'Content-Transfer-Encoding: zip\r\n', b'Content-Encoding: gzip\r\n',
)


def reference_stream(data):
    """
    Reference of reading: list of (headers, raw body) and whether it ended well.
    """
    result = []
    position = data.find(b'--b')
    if position == -1:
        return result, False
    position += 3
    while True:
        end = data[position : position + 2]
        if end == b'':
            return result, True
        if end == b'--':
            return result, data[position + 2 : position + 4] in (b'', b'\r\n')
        if end != b'\r\n':
            return result, False
        position += 2
        headers = []
        while True:
            index = data.find(b'\r\n', position)
            if index == -1:
                return result, False
            line = data[position : index]
            position = index + 2
            if not line:
                break
            headers.append(line)
        for line in headers:
            if b':' not in line or line.startswith(b':'):
                return result, False
        pairs = [tuple(part.strip().lower() for part in line.split(b':', 1)) for line in headers]
        lengths = [value for key, value in pairs if key == b'content-length']
        if lengths:
            if not lengths[0].isdigit():
                return result, False
            body = data[position : position + int(lengths[0])]
            position += int(lengths[0])
            if len(body) != int(lengths[0]) or data[position : position + 5] != b'\r\n--b':
                return result, False
            position += 5
        else:
            index = data.find(b'\r\n--b', position)
            if index == -1:
                return result, False
            body = data[position : index]
            position = index + 5
        end = data[position : position + 4]
        if not (end in (b'', b'--', b'--\r\n') or end[:2] == b'\r\n'):
            return result, False
        for key, value in pairs:
            if key == b'content-transfer-encoding':
                if value == b'base64':
                    try:
                        body = base64.b64decode(body)
                    except ValueError:
                        return result, False
                else:
                    return result, False
                break
        for key, value in pairs:
            if key == b'content-encoding':
                # nothing in the table is valid gzip, an incomplete one is not covered
                if body:
                    return result, False
        result.append(body)


def tokens_case(tokens, single_byte, stats):
    def case(env):
        from scarletio.web_common import PayloadError
        loop = env.loop
        data = b''.join(tokens)
        artefact = ['tokens', [token.decode('latin-1') for token in tokens], single_byte]

        def fail(message):
            raise Violation(f'tokens:{data!r}', f'{message}; data = {data!r}, by byte = {single_byte}', artefact)

        collected = []
        task, protocol = start_reading(loop, 'multipart/mixed; boundary=b', collected)
        if single_byte:
            for byte in single_bytes(data):
                protocol.data_received(byte)
                yield
        elif data:
            protocol.data_received(data)
            yield
        protocol.eof_received()
        yield
        outcome = outcome_of(task)
        wanted, good = reference_stream(data)
        got = [bytes(part) for _, part in collected]
        if outcome[0] == 'result':
            if not good:
                fail(f'malformed data was read as {got}')
        elif outcome[0] != 'exception' or not isinstance(outcome[1], (PayloadError, ConnectionError)):
            fail(f'reading ended with {outcome}')
        elif good:
            fail(f'reading ended with {outcome}')
        if got != wanted:
            fail(f'got {got} instead of {wanted}')
        stats.transitions += 1
        stats.evaluations += 1
        stats.state(repr(artefact))
        stats.outcome((good, len(wanted)))
    return case


PIECES = (b'a=b \r\n.\tc\n\xff=\r', b'', b'\r\n\r\n', b'xyz' * 40, b'abcd')

URL_NAMES = ('', 'a', 'k\u0151', 'a b', '&=+%', '\u20ac')


class MultipartCheck(Check):
    id = 'C21'
    rule = 'a state is a distinct form (its fields with all their options), multipart writer, hand made or token stream together with how it is cut'
    assumptions = [
        'boundaries given explicitly do not occur in the data; sub-classes of payloads are not used',
        'names with line breaks are only used with quoting on',
        'an incomplete compressed part is not covered',
    ]

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        jobs = []
        for index in range(len(VALUES)):
            for quote in (True, False):
                jobs.append(('single', index, quote))
        for first in range(len(SMALL_FIELDS)):
            for second in range(len(SMALL_FIELDS)):
                jobs.append(('several', first, second))
        for index in range(len(PIECES)):
            for content in (None, 'gzip', 'deflate', 'identity'):
                jobs.append(('encoding', index, content))
        for first in PARTS:
            jobs.append(('writer', first))
        jobs.append(('boundaries',))
        for ending in ('eof', 'lost', 'error'):
            jobs.append(('truncated', ending))
        for index in range(8):
            jobs.append(('stream', index))
        for first in TOKENS[:3]:
            for second in TOKENS:
                jobs.append(('tokens', first.decode(), second.decode()))
        jobs.append(('urlencoded',))
        return jobs

    def cases(self, job, quick, stats, source):
        kind = job[0]
        whole = lambda data: ((data,),)
        if kind == 'single':
            _, index, quote = job
            for name, content_type, file_name, transfer in product(NAMES, CONTENT_TYPES, FILE_NAMES, TRANSFERS):
                for encoding in ('utf-8', 'utf-16-le') if index < 3 or index in (13, 14) else ('utf-8',):
                    if encoding == 'utf-16-le' and quick and (name != 'a' or file_name is not None):
                        continue
                    field = (name, index, content_type, file_name, transfer)
                    yield form_case((field,), quote, encoding, source, stats, lambda data: ((data,), single_bytes(data)) if len(data) < 600 else ((data,),))
        elif kind == 'several':
            fields = (SMALL_FIELDS[job[1]], SMALL_FIELDS[job[2]])
            yield form_case(fields, True, 'utf-8', source, stats, lambda data: cuts(data, 1))
            for third in SMALL_FIELDS:
                yield form_case((*fields, third), True, 'utf-8', source, stats, lambda data: ((data,), single_bytes(data)))
        elif kind == 'encoding':
            _, index, content = job
            for transfer in TRANSFERS:
                amount = (3 if len(PIECES[index]) < 20 else 1) if quick else (4 if len(PIECES[index]) < 20 else 2)
                for pieces in cuts(PIECES[index], amount):
                    yield encoding_case(pieces, content, transfer, stats, whole)
                if PIECES[index]:
                    yield encoding_case(single_bytes(PIECES[index]), content, transfer, stats, whole)
                yield encoding_case((b'', PIECES[index], b''), content, transfer, stats, lambda data: (*cuts(data, 1), single_bytes(data)))
        elif kind == 'writer':
            for rest in ((), *product(PARTS, repeat = 1), *product(PARTS, repeat = 2), *(() if quick else product(PARTS, repeat = 3))):
                yield writer_case((job[1], *rest), 'mixed', 'b', source, stats)
        elif kind == 'boundaries':
            for subtype in SUBTYPES:
                for boundary in BOUNDARIES:
                    for kinds in ((), ('bytes',), ('bytes', 'nested', 'str'), ('gzip', 'form')):
                        yield writer_case(kinds, subtype, boundary, source, stats)
        elif kind == 'truncated':
            for size in range(len(STREAM) - 7):
                for early in (0, 1, 3, 8):
                    data = STREAM[:size]
                    chunks = (data[: size - early], data[size - early :]) if 0 < early < size else (data,)
                    yield stream_case(tuple(chunk for chunk in chunks if chunk), size, job[1], stats)
        elif kind == 'stream':
            for number, chunks in enumerate(cuts(STREAM, 2 if quick else 3)):
                if number % 8 == job[1]:
                    yield stream_case(chunks, None, None, stats)
            if not job[1]:
                yield stream_case(single_bytes(STREAM), None, None, stats)
        elif kind == 'tokens':
            prefix = (job[1].encode(), job[2].encode())
            for length in range(0, 4 if quick else 6):
                for rest in product(TOKENS, repeat = length):
                    tokens = (*prefix, *rest)
                    yield tokens_case(tokens, False, stats)
                    if length < 3:
                        yield tokens_case(tokens, True, stats)
            # deeper after a well formed start
            if prefix == (b'--b', b'\r\n'):
                for length in range(0, 5 if quick else 6):
                    for rest in product(TOKENS, repeat = length):
                        yield tokens_case((*prefix, b'\r\n', b'x', b'\r\n', b'--b', *rest), False, stats)
        elif kind == 'urlencoded':
            fields = [(name, index, None, None, None) for name in URL_NAMES for index in (0, 1)]
            for encoding in ('utf-8', 'utf-16-le'):
                for length in (1, 2):
                    for chosen in product(fields, repeat = length):
                        yield form_case(chosen, True, encoding, source, stats, whole)

    def run_job(self, job, stats, tier):
        directory = tempfile.mkdtemp(prefix = 'verif-c21-')
        source = Source(directory)

        def closing(cases):
            for case in cases:
                yield case
                source.close()

        try:
            run_cases(closing(self.cases(job, tier == 'quick', stats, source)), stats, job)
        finally:
            source.close()
            shutil.rmtree(directory, ignore_errors = True)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        directory = tempfile.mkdtemp(prefix = 'verif-c21-')
        source = Source(directory)
        kind = artefact[0]
        read = lambda data: ((data,), single_bytes(data), *cuts(data, 1))
        try:
            if kind == 'form':
                case = form_case(tuple(tuple(field) for field in artefact[1]), artefact[2], artefact[3], source, stats, read)
            elif kind == 'encoding':
                case = encoding_case(tuple(piece.encode('latin-1') for piece in artefact[1]), artefact[2], artefact[3], stats, read)
            elif kind == 'writer':
                case = writer_case(tuple(artefact[1]), artefact[2], artefact[3], source, stats)
            elif kind == 'stream':
                case = stream_case(tuple(chunk.encode('latin-1') for chunk in artefact[1]), artefact[2], artefact[3], stats)
            else:
                case = tokens_case(tuple(token.encode('latin-1') for token in artefact[1]), artefact[2], stats)
            run_one(case, stats)
        finally:
            source.close()
            shutil.rmtree(directory, ignore_errors = True)


CHECK = MultipartCheck()
