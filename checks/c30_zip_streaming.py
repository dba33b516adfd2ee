"""
C30: a streamed zip archive contains exactly the given files, whatever they are called and however their content arrives.
"""
import io, mmap, struct, zipfile, zlib
from datetime import datetime as DateTime, timedelta as TimeDelta, timezone as TimeZone
from itertools import product

from mc.base import Check, Violation
from mc.vloop import quiet_stderr


# --- driving

class Pause:
    def __await__(self):
        yield 'pause'


class SourceError(Exception):
    pass


class Source:
    """Content of a file; can be read more times."""
    def __init__(self, chunks, log = None, index = 0, pauses = False, fail_at = None):
        self.chunks = chunks
        self.log = log
        self.index = index
        self.pauses = pauses
        self.fail_at = fail_at

    async def __aiter__(self):
        for position, chunk in enumerate(self.chunks):
            if self.log is not None:
                self.log.append((self.index, position))
            if self.pauses:
                await Pause()
            if self.fail_at == position:
                raise SourceError(self.index)
            yield chunk
        if self.log is not None:
            self.log.append((self.index, None))
        if self.pauses:
            await Pause()
        if self.fail_at is not None and self.fail_at == len(self.chunks):
            raise SourceError(self.index)


class Reader:
    """Steps an asynchronous iterator by hand."""
    def __init__(self, resource):
        self.iterator = resource.__aiter__()
        self.step_of = None
        self.ended = False
        self.pieces = []

    def step(self):
        """Returns whether a piece was received."""
        if self.step_of is None:
            self.step_of = self.iterator.__anext__()
        try:
            self.step_of.send(None)
        except StopIteration as exception:
            self.step_of = None
            self.pieces.append(exception.value)
            return True
        except StopAsyncIteration:
            self.step_of = None
            self.ended = True
            return False
        return False

    def all(self):
        while not self.ended:
            self.step()
        return self.pieces


def guarded(function, stats, *parameters):
    try:
        function(*parameters)
    except Violation as violation:
        stats.violate(violation.key, violation.message, violation.artefact)


# --- independent reader

class Pieces:
    """Read only, seekable file over pieces. Big pieces are not copied."""
    def __init__(self, pieces):
        self.pieces = []
        position = 0
        for piece in pieces:
            if len(piece):
                self.pieces.append((position, piece))
                position += len(piece)
        self.size = position
        self.position = 0

    def seekable(self):
        return True

    def seek(self, offset, whence = 0):
        self.position = offset + (0, self.position, self.size)[whence]
        return self.position

    def tell(self):
        return self.position

    def read(self, amount = -1):
        if amount is None or amount < 0:
            amount = self.size - self.position
        amount = max(0, min(amount, self.size - self.position))
        low = 0
        high = len(self.pieces)
        while high - low > 1:
            middle = (low + high) // 2
            if self.pieces[middle][0] <= self.position:
                low = middle
            else:
                high = middle
        result = []
        while amount:
            start, piece = self.pieces[low]
            from_ = self.position - start
            part = bytes(piece[from_ : from_ + amount])
            result.append(part)
            amount -= len(part)
            self.position += len(part)
            low += 1
        return b''.join(result)


def need(condition, key, message):
    if not condition:
        raise Violation(key, message)


def read_archive(key, data, with_content = True):
    """
    Reads an archive strictly by its specification, every byte has to be accounted for.
    Returns a list of (name, flags, method, (date, time), crc, size, content | None).
    """
    def at(position, amount):
        data.seek(position)
        part = data.read(amount)
        need(len(part) == amount and position >= 0, key, f'the archive is cut at {position}')
        return part

    size = data.size
    end = struct.unpack('<4sHHHHLLH', at(size - 22, 22))
    need(end[0] == b'PK\x05\x06' and end[7] == 0, key, f'the end record is {end}')
    locator = struct.unpack('<4sLQL', at(size - 42, 20))
    need(locator[0] == b'PK\x06\x07' and locator[1] == 0 and locator[3] == 1, key, f'the end locator is {locator}')
    record_position = locator[2]
    need(record_position == size - 98, key, f'the end locator points to {record_position} in an archive of {size}')
    record = struct.unpack('<4sQHHIIQQQQ', at(record_position, 56))
    need(record[0] == b'PK\x06\x06' and record[1] == 44 and record[4:6] == (0, 0), key, f'the zip64 end record is {record}')
    need(record[3] <= 45, key, f'version {record[3]} is required to extract')
    count, total, directory_size, directory_position = record[6:]
    need(count == total, key, f'{count} of {total} files are on this disk')
    need(end[1] == end[2] == 0, key, f'the end record is {end}')
    need(end[3] == end[4] == min(count, 0xffff), key, f'the end record tells {end[3]} of {end[4]} files, there are {count}')
    need(end[5] in (0xffffffff, directory_size) and end[6] in (0xffffffff, directory_position), key, f'the end record is {end}')
    need(directory_position + directory_size == record_position, key, f'the directory is told to be from {directory_position}, {directory_size} long; the end record is at {record_position}')
    directory = at(directory_position, directory_size)
    position = 0
    files = []
    expected_offset = 0
    for index in range(count):
        need(position + 46 <= directory_size, key, f'the directory is cut at file {index}')
        header = struct.unpack_from('<4sHHHHHHLLLHHHHHLL', directory, position)
        position += 46
        need(header[0] == b'PK\x01\x02' and header[2] <= 45 and header[13] == 0, key, f'the directory header is {header}')
        flags, method, time, date, crc = header[3:8]
        name = directory[position : position + header[10]]
        position += header[10]
        extra = directory[position : position + header[11]]
        position += header[11]
        need(header[12] == 0, key, 'there is a comment')
        compressed, uncompressed, offset = header[8], header[9], header[16]
        extras = {}
        extra_position = 0
        while extra_position < len(extra):
            tag, length = struct.unpack_from('<HH', extra, extra_position)
            extras[tag] = extra[extra_position + 4 : extra_position + 4 + length]
            extra_position += 4 + length
        need(extra_position == len(extra), key, f'the extra field {extra} is broken')
        zip64 = extras.get(1, b'')
        values = list(struct.unpack(f'<{len(zip64) // 8}Q', zip64))
        if uncompressed == 0xffffffff:
            uncompressed = values.pop(0)
        if compressed == 0xffffffff:
            compressed = values.pop(0)
        if offset == 0xffffffff:
            offset = values.pop(0)
        need(not values, key, f'the extra field {extra} is broken')
        need(offset == expected_offset, key, f'file {index} is told to be at {offset}, the one before it ends at {expected_offset}')
        # local header
        local = struct.unpack('<4sHHHHHLLLHH', at(offset, 30))
        need(local[0] == b'PK\x03\x04' and local[1] <= 45, key, f'the header of file {index} is {local}')
        need(local[2:6] == (flags, method, time, date), key, f'the header of file {index} is {local}, it is told to be {header} in the directory')
        need(flags & ~(1 << 3 | 1 << 11) == 0, key, f'the flags of file {index} are {flags}')
        need(at(offset + 30, local[9]) == name, key, f'the name of file {index} is different in the directory')
        need(local[10] == 0, key, f'the header of file {index} has an extra field')
        content_position = offset + 30 + len(name)
        content = None
        if with_content:
            content = at(content_position, compressed)
            if method == 8:
                decompressor = zlib.decompressobj(-15)
                content = decompressor.decompress(content) + decompressor.flush()
                need(decompressor.eof and not decompressor.unused_data, key, f'the content of file {index} is cut, or there is more')
            else:
                need(method == 0, key, f'the compression method of file {index} is {method}')
            need(len(content) == uncompressed, key, f'file {index} is told to be {uncompressed} long, it is {len(content)}')
            need(zlib.crc32(content) == crc, key, f'the check sum of file {index} is wrong')
        expected_offset = content_position + compressed
        if flags & (1 << 3):
            need(local[6:9] == (0, 0, 0), key, f'the header of file {index} tells sizes with a data descriptor')
            descriptor = struct.unpack('<4sLQQ', at(expected_offset, 24))
            need(descriptor == (b'PK\x07\x08', crc, compressed, uncompressed), key, f'the data descriptor of file {index} is {descriptor}, it is told to be {(crc, compressed, uncompressed)} in the directory')
            expected_offset += 24
        text = name.decode('utf-8') if flags & (1 << 11) else name.decode('cp437')
        files.append((text, method, (date, time), crc, uncompressed, content))
    need(position == directory_size, key, f'the directory is {directory_size} long, its files take {position}')
    need(expected_offset == directory_position, key, f'there are {directory_position - expected_offset} unused bytes')
    return files


def stamp(moment):
    """The nearest date and time which can be told in an archive."""
    if moment.year < 1980:
        return (1980, 1, 1, 0, 0, 0)
    if moment.year > 2107:
        return (2107, 12, 31, 23, 59, 58)
    return (moment.year, moment.month, moment.day, moment.hour, moment.minute, moment.second // 2 * 2)


def read_stamp(value):
    date, time = value
    return ((date >> 9) + 1980, date >> 5 & 15, date & 31, time >> 11, time >> 5 & 63, (time & 31) * 2)


def check_archive(key, pieces, wanted, library = True):
    """wanted : list of (name, method, moment, content)"""
    need(all(isinstance(piece, (bytes, bytearray, memoryview)) for piece in pieces), key, 'something else than bytes is streamed')
    data = Pieces(pieces)
    try:
        files = read_archive(key, data)
    except (struct.error, UnicodeDecodeError, zlib.error, IndexError) as exception:
        raise Violation(key, f'the archive can not be read: {exception!r}')
    seen = [(name, method, read_stamp(moment), content) for name, method, moment, crc, size, content in files]
    wanted = [(name, method, stamp(moment), content) for name, method, moment, content in wanted]
    for index, (left, right) in enumerate(zip(seen, wanted)):
        for what, a, b in zip(('name', 'compression method', 'date', 'content'), left, right):
            need(a == b, key, f'the {what} of file {index} is {a!r:.200} instead of {b!r:.200}')
    need(len(seen) == len(wanted), key, f'there are {len(seen)} files instead of {len(wanted)}')
    if not library:
        return
    try:
        archive = zipfile.ZipFile(data)
        infos = archive.infolist()
        contents = [archive.read(info) for info in infos]
    except Exception as exception:
        raise Violation(key, f'the `zipfile` module can not read the archive: {exception!r}')
    for index, (info, content) in enumerate(zip(infos, contents)):
        need(info.orig_filename == wanted[index][0], key, f'the `zipfile` module reads the name {info.orig_filename!r} instead of {wanted[index][0]!r}')
        need(content == wanted[index][3], key, f'the `zipfile` module reads other content of file {index}')
        need(info.date_time == wanted[index][2], key, f'the `zipfile` module reads {info.date_time} instead of {wanted[index][2]}')
    need(len(infos) == len(wanted), key, f'the `zipfile` module reads {len(infos)} files instead of {len(wanted)}')


# --- names

NAMES = (
    'a', 'a (1)', 'a (2)', 'a (1) (1)', 'a.b', 'a (1).b', 'd/a', 'd/a (1).b', '', ' (1)', '.b', 'a (0)', 'a (01)', 'a\n', 'a\n (1)', 'a.b.c', 'a (1).b.c', 'a.b (1).c',
    'a ()', 'a(1)', 'a.', 'a (1).', 'd.e/a', 'd.e (1)/a', '\u0171', '\u0171 (1)', 'a (\u0661)', 'a (9999999999)',
)
MORE_NAMES = ('a', 'a (1)', 'a (2)', 'a (1) (1)', 'a (0)', 'a\n', 'a (01)', '')


def deduplicate(names):
    from scarletio.streaming.zip_streaming import name_deduplicator_default
    from scarletio.streaming.zip_streaming.name_deduplication import (
        NAME_DEDUPLICATOR_REGEX_PATTERN_DEFAULT, name_deduplicator_name_reconstructor_default
    )
    deduplicator = name_deduplicator_default(NAME_DEDUPLICATOR_REGEX_PATTERN_DEFAULT, name_deduplicator_name_reconstructor_default)
    deduplicator.send(None)
    return [deduplicator.send(name) for name in names]


def split(name):
    """What stays the same of a name: everything except its index."""
    directory, slash, base = name.rpartition('/')
    return directory, base.replace('(', ' ').split(' ')[0].partition('.')[0].partition('\n')[0]


def names_case(names, stats):
    stats.evaluations += 1
    stats.transitions += len(names)
    key = f'names:{names!r}'
    stats.state(key)
    try:
        seen = deduplicate(names)
    except Exception as exception:
        raise Violation(key, f'deduplicating {names!r} failed with {exception!r}')
    if len(set(seen)) != len(names):
        raise Violation(key, f'the names {names!r} become {seen!r}, which are not distinct')
    for index, name in enumerate(names):
        if name not in seen[:index] and seen[index] != name:
            raise Violation(key, f'the names {names!r} become {seen!r}, {name!r} is changed, but it would not repeat any before it')
        if name.endswith(('.b', '.c')) and seen[index][-2:] != name[-2:]:
            raise Violation(key, f'the names {names!r} become {seen!r}, the extension of {name!r} is changed')
        if split(name) != split(seen[index]):
            raise Violation(key, f'the names {names!r} become {seen!r}, {name!r} is changed too much')
    stats.outcome(tuple(seen[index] == names[index] for index in range(len(names))))


def names_job(alphabet, first, depth, stats):
    for length in range(0, depth):
        for rest in product(alphabet, repeat = length):
            guarded(names_case, stats, (first, *rest), stats)


# --- contents

NOISE = bytes((index * index * 7 + index // 3 + (index >> 5) * 13) & 255 for index in range(1, 3000))
CONTENTS = {
    'nothing': (),
    'empty': (b'',),
    'short': (b'hello',),
    'split': (b'he', b'', b'l', b'lo'),
    'views': (bytearray(b'array'), memoryview(b'view'), b'!'),
    'signatures': (b'PK\x03\x04PK\x01\x02', b'PK\x05\x06PK\x07\x08'),
    'noise': (NOISE, NOISE[::-1]),
    'repeated': (b'x' * 70000, b'x' * 70000, b'y'),
}
MOMENTS = (
    DateTime(2016, 5, 14, 5, 4, 23, tzinfo = TimeZone.utc), DateTime(1980, 1, 1), DateTime(2107, 12, 31, 23, 59, 59), DateTime(1979, 12, 31, 23, 59, 59),
    DateTime(2108, 1, 1), DateTime(2000, 12, 31, 0, 0, 1, tzinfo = TimeZone(TimeDelta(hours = 5))), DateTime(1, 1, 1), DateTime(9999, 12, 31, 23, 59, 59),
    DateTime(2044, 2, 29, 12, 30, 30),
)
FILE_NAMES = ('a', 'd/b.txt', '\u0171.txt', 'a b\n', '', 'x' * 300, '\U0001f600', 'a' * 0xffff, '\xe9' * 10)


def build(files, log = None, pauses = False, fail_at = None):
    """files : list of (name, content name, method, moment)"""
    from scarletio.streaming.zip_streaming import ZipStreamFile
    return [
        ZipStreamFile(
            name, Source(CONTENTS[content], log, index, pauses, None if fail_at is None or fail_at[0] != index else fail_at[1]),
            compression_method = method, modified_at = moment,
        ) for index, (name, content, method, moment) in enumerate(files)
    ]


def wanted_of(files):
    # (the names used together with each other are distinct)
    return [(name, method, moment, b''.join(CONTENTS[content])) for name, content, method, moment in files]


def describe(files):
    return [(name if len(name) < 20 else f'{name[0]} * {len(name)}', content, method, moment.isoformat()) for name, content, method, moment in files]


def archive_case(files, keyword_parameters, stats):
    from scarletio.streaming.zip_streaming import create_zip_stream_resource
    key = f'archive:{describe(files)}:{sorted(keyword_parameters)}'
    stats.evaluations += 1
    stats.state(key)
    log = []
    resource = create_zip_stream_resource(build(files, log, True), **keyword_parameters)
    wanted = wanted_of(files)
    for time in range(2):
        del log[:]
        reader = Reader(resource)
        given = 0
        try:
            while not reader.ended:
                stats.transitions += 1
                if reader.step():
                    # everything asked for before the last one has to be streamed already, if it is not compressed
                    given += len(reader.pieces[-1])
                    asked = 0
                    for index, position in log[:-1]:
                        if position is not None and files[index][2] == 0:
                            asked += len(CONTENTS[files[index][1]][position])
                    if given < asked:
                        raise Violation(key, f'only {given} bytes are streamed when {asked} are already read')
        except Violation:
            raise
        except Exception as exception:
            raise Violation(key, f'streaming {describe(files)} failed with {exception!r}')
        every = [(index, position) for index, file in enumerate(files) for position in (*range(len(CONTENTS[file[1]])), None)]
        if log != every:
            raise Violation(key, f'the contents are read in the order of {log} instead of {every}')
        check_archive(key, reader.pieces, wanted)
    stats.outcome((len(files), tuple(file[2] for file in files)))


def single_job(first, stats):
    for content, method, moment in product(CONTENTS, (0, 8), MOMENTS):
        for keyword_parameters in ({}, {'name_deduplicator': None}):
            guarded(archive_case, stats, [(first, content, method, moment)], keyword_parameters, stats)


def several_job(first, count, stats):
    moment = MOMENTS[0]
    options = [(content, method) for content in CONTENTS for method in (0, 8)]
    if count == 3:
        options = [option for option in options if option[0] in ('nothing', 'split', 'noise', 'views')]
    names = ('\u0171', 'a', 'b/c')
    for rest in product(options, repeat = count - 1):
        files = [(name, *option, moment) for name, option in zip(names, (first, *rest))]
        guarded(archive_case, stats, files, {}, stats)


def duplicate_archive_case(names, stats):
    """The names are deduplicated, except when asked not to."""
    from scarletio.streaming.zip_streaming import ZipStreamFile, stream_zip
    stats.evaluations += 1
    key = f'archive names:{names!r}'
    stats.state(key)
    moment = MOMENTS[0]

    def files():
        return [ZipStreamFile(name, Source((name.encode(), b'%d' % index)), modified_at = moment) for index, name in enumerate(names)]

    def own_deduplicator():
        index = 0
        name = yield
        while True:
            name = yield f'{index}-{name}'
            index += 1

    for what, keyword_parameters, wanted in (
        ('default', {}, deduplicate(names)),
        ('none', {'name_deduplicator': None}, names),
        ('own', {'name_deduplicator': own_deduplicator()}, [f'{index}-{name}' for index, name in enumerate(names)]),
    ):
        stats.transitions += 1
        for given in (files(), iter(files())):
            try:
                pieces = Reader(stream_zip(given, **keyword_parameters)).all()
            except Exception as exception:
                raise Violation(key, f'streaming the names {names!r} with {what} deduplicator failed with {exception!r}')
            check_archive(key, pieces, [(name, 0, moment, names[index].encode() + b'%d' % index) for index, name in enumerate(wanted)], what != 'none')
            if what == 'own':
                break


def archive_names_job(first, stats):
    for length in range(0, 3):
        for rest in product(MORE_NAMES, repeat = length):
            guarded(duplicate_archive_case, stats, (first, *rest), stats)


def moments_job(stats):
    """Every field of the date and of the time on its own."""
    moments = [DateTime(year, 1, 1) for year in range(1970, 2120)]
    moments.extend(DateTime(2020, month, 1) for month in range(1, 13))
    moments.extend(DateTime(2020, 1, day) for day in range(1, 32))
    moments.extend(DateTime(2020, 1, 1, hour) for hour in range(24))
    moments.extend(DateTime(2020, 1, 1, 0, minute) for minute in range(60))
    moments.extend(DateTime(2020, 1, 1, 0, 0, second, 999999) for second in range(60))
    for moment in moments:
        guarded(archive_case, stats, [('a', 'short', 0, moment)], {}, stats)


# --- more readers of the same resource at the same time

def readers_case(order, stats):
    from scarletio.streaming.zip_streaming import create_zip_stream_resource
    key = f'readers:{order}'
    stats.evaluations += 1
    stats.state(key)
    files = [('a', 'split', 0, MOMENTS[0]), ('b', 'short', 8, MOMENTS[0])]
    resource = create_zip_stream_resource(build(files, None, True))
    readers = [Reader(resource), None]
    try:
        for index in order:
            stats.transitions += 1
            if readers[index] is None:
                readers[index] = Reader(resource)
            if not readers[index].ended:
                readers[index].step()
        for reader in readers:
            if reader is not None:
                check_archive(key, reader.all(), wanted_of(files))
    except Violation:
        raise
    except Exception as exception:
        raise Violation(key, f'streaming to two at the same time failed with {exception!r}')
    stats.outcome(tuple(order[:3]))


def readers_job(first, depth, stats):
    for rest in product((0, 1), repeat = depth - len(first)):
        guarded(readers_case, stats, (*first, *rest), stats)


# --- failing sources & abandoning

def failing_case(files, fail_at, stats):
    from scarletio.streaming.zip_streaming import create_zip_stream_resource
    key = f'failing:{describe(files)}:{fail_at}'
    stats.evaluations += 1
    stats.state(key)
    good = Reader(create_zip_stream_resource(build(files))).all()
    good = b''.join(bytes(piece) for piece in good)
    reader = Reader(create_zip_stream_resource(build(files, None, True, fail_at)))
    try:
        reader.all()
    except SourceError as exception:
        if exception.args != (fail_at[0],):
            raise Violation(key, f'the error of another file is raised')
    except Exception as exception:
        raise Violation(key, f'{exception!r} is raised instead of the error of the content')
    else:
        raise Violation(key, f'the archive ends well, however reading the content of file {fail_at[0]} failed')
    stats.transitions += len(reader.pieces)
    if not good.startswith(b''.join(bytes(piece) for piece in reader.pieces)):
        raise Violation(key, 'what was streamed before the error is not the start of the archive')
    if zipfile.is_zipfile(io.BytesIO(b''.join(bytes(piece) for piece in reader.pieces))):
        raise Violation(key, 'what was streamed before the error is a complete archive')
    # abandoned at every point
    index = 0
    while True:
        reader = Reader(create_zip_stream_resource(build(files)))
        while len(reader.pieces) < index and not reader.ended:
            reader.step()
        if reader.ended:
            break
        closing = reader.iterator.aclose()
        try:
            closing.send(None)
        except StopIteration:
            pass
        except BaseException as exception:
            raise Violation(key, f'closing the stream after {index} pieces failed with {exception!r}')
        else:
            raise Violation(key, f'closing the stream after {index} pieces does not end')
        stats.transitions += 1
        index += 1
    stats.outcome(len(files))


def failing_job(stats):
    contents = ('nothing', 'split', 'noise')
    for count in (1, 2, 3):
        for combination in product(contents, (0, 8), repeat = count):
            files = [(f'f{index}', combination[index * 2], combination[index * 2 + 1], MOMENTS[0]) for index in range(count)]
            for index in range(count):
                for position in range(len(CONTENTS[files[index][1]]) + 1):
                    guarded(failing_case, stats, files, (index, position), stats)


# --- big ones

def many_files_job(count, stats):
    from scarletio.streaming.zip_streaming import ZipStreamFile, stream_zip
    key = f'many files:{count}'
    stats.evaluations += 1
    stats.state(key)
    moment = MOMENTS[0]
    try:
        pieces = Reader(stream_zip([ZipStreamFile('a', Source((b'%d' % index,)), modified_at = moment) for index in range(count)])).all()
    except Exception as exception:
        raise Violation(key, f'streaming {count} files failed with {exception!r}')
    stats.transitions += len(pieces)
    names = ['a', *(f'a ({index})' for index in range(1, count))][:count]
    check_archive(key, pieces, [(name, 0, moment, b'%d' % index) for index, name in enumerate(names)])


def big_file_job(sizes, methods, stats):
    """Sizes (in gigabytes) over the limit of 32 bits. The content is zeros, which do not take up memory till they are not written."""
    from scarletio.streaming.zip_streaming import ZipStreamFile, stream_zip
    key = f'big file:{sizes}:{methods}'
    stats.evaluations += 1
    stats.state(key)
    moment = MOMENTS[0]
    zeros = memoryview(mmap.mmap(-1, 1 << 30, flags = mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, prot = mmap.PROT_READ))
    files = []
    for index, (size, method) in enumerate(zip(sizes, methods)):
        whole, part = divmod(int(size * (1 << 30)), 1 << 30)
        files.append(ZipStreamFile(f'big{index}', Source((*(zeros,) * whole, zeros[:part], b'end')), modified_at = moment, compression_method = method))
    try:
        pieces = Reader(stream_zip(files)).all()
    except Exception as exception:
        raise Violation(key, f'streaming failed with {exception!r}')
    stats.transitions += len(pieces)
    data = Pieces(pieces)
    seen = [(name, method, size) for name, method, moment, crc, size, content in read_archive(key, data, False)]
    wanted = [(f'big{index}', methods[index], int(size * (1 << 30)) + 3) for index, size in enumerate(sizes)]
    need(seen == wanted, key, f'the files are {seen} instead of {wanted}')
    # other readers understand it too
    archive = zipfile.ZipFile(data)
    need([info.file_size for info in archive.infolist()] == [item[2] for item in wanted], key, 'the `zipfile` module reads other sizes')
    need(archive.read(archive.infolist()[-1])[-3:] == b'end', key, 'the `zipfile` module reads other content')


class ZipStreamingCheck(Check):
    id = 'C30'
    rule = 'a state is a distinct list of names, a distinct list of files (with the content, date and compression of each) or a distinct order of reading'
    assumptions = [
        'names are at most 65535 bytes long (longer ones can not be told in a zip archive)',
        'archives are read by their central directory, as by the `zipfile` module',
    ]

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = [('names', 'all', first, 3 if quick else 4) for first in NAMES]
        jobs.extend(('names', 'more', first, 6 if quick else 7) for first in MORE_NAMES)
        jobs.extend(('single', name) for name in FILE_NAMES)
        jobs.extend(('several', (content, method), count) for count in (2, 3) for content in CONTENTS for method in (0, 8))
        jobs.extend(('archive names', name) for name in MORE_NAMES)
        jobs.extend(('readers', first, 10 if quick else 14) for first in product((0, 1), repeat = 3))
        jobs.extend((('many files', 0), ('many files', 0xfffe), ('many files', 0xffff), ('many files', 0x10000), ('moments',), ('failing',)))
        jobs.append(('big file', (4.5, 0), (0, 0)))
        if not quick:
            jobs.extend((('big file', (3, 3, 0), (0, 0, 8)), ('big file', (4.5, 0), (8, 8)), ('many files', 200000)))
        return jobs

    def run_job(self, job, stats, tier):
        kind, *parameters = job
        try:
            if kind == 'names':
                names_job(NAMES if parameters[0] == 'all' else MORE_NAMES, *parameters[1:], stats)
            elif kind == 'single':
                single_job(*parameters, stats)
            elif kind == 'several':
                several_job(*parameters, stats)
            elif kind == 'archive names':
                archive_names_job(*parameters, stats)
            elif kind == 'readers':
                readers_job(*parameters, stats)
            elif kind == 'failing':
                failing_job(stats)
            elif kind == 'moments':
                moments_job(stats)
            elif kind == 'many files':
                many_files_job(*parameters, stats)
            else:
                big_file_job(*parameters, stats)
        except Violation as violation:
            stats.violate(violation.key, violation.message, violation.artefact)
        stats.sample(repr(job))


CHECK = ZipStreamingCheck()
