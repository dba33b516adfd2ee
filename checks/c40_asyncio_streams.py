"""
C40: asyncio compatible stream readers, writers and their protocol act as those of the standard library.

See `mc/twins.py`: the same programs are run on `scarletio.ext.asyncio` and on the asyncio of the standard library, over stand-in transports.
"""
from mc.twins import IMPOSSIBLE, TwinCheck, World


class Transport:
    def __init__(self, closing = False):
        self.calls = []
        self.closing = closing

    def pause_reading(self):
        self.calls.append('pause')

    def resume_reading(self):
        self.calls.append('resume')

    def write(self, data):
        self.calls.append(('write', bytes(data)))

    def writelines(self, lines):
        self.calls.append(('write', b''.join(lines)))

    def write_eof(self):
        self.calls.append('write eof')

    def can_write_eof(self):
        return True

    lost = False

    def close(self):
        self.closing = True
        if not self.lost:
            # a collected writer may close it again
            self.calls.append('close')

    def abort(self):
        self.closing = True
        self.calls.append('abort')

    def is_closing(self):
        return self.closing

    def get_extra_info(self, name, default = None):
        return default

    def __repr__(self):
        return '<transport>'


class Silent(Transport):
    """Cannot be paused."""
    def pause_reading(self):
        raise NotImplementedError


class ReaderWorld(World):
    users_limit = 2

    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        self.limit, transport = configuration
        self.reader = self.aio.StreamReader(limit = self.limit, loop = side.loop)
        self.transport = None
        if transport != 'none':
            self.transport = (Silent if transport == 'silent' else Transport)()
            self.reader.set_transport(self.transport)

    async def failing(self, coroutine):
        """Tells everything of the exceptions of the readers."""
        try:
            return await coroutine
        except self.aio.IncompleteReadError as exception:
            return 'incomplete', exception.partial, exception.expected
        except self.aio.LimitOverrunError as exception:
            return 'overrun', exception.consumed

    async def read_user(self, index, size):
        return await self.failing(self.reader.read(size))

    async def line_user(self, index):
        return await self.failing(self.reader.readline())

    async def until_user(self, index, separator):
        return await self.failing(self.reader.readuntil(separator))

    async def exactly_user(self, index, size):
        return await self.failing(self.reader.readexactly(size))

    async def iterate_user(self, index):
        async for line in self.reader:
            self.log.append((index, line))
        return 'over'

    def read(self, size):
        return self.start(self.read_user, size)

    def line(self):
        return self.start(self.line_user)

    def until(self, separator):
        return self.start(self.until_user, separator)

    def exactly(self, size):
        return self.start(self.exactly_user, size)

    def iterate(self):
        return self.start(self.iterate_user)

    def feed(self, data):
        if self.over:
            return IMPOSSIBLE
        self.reader.feed_data(data)

    over = False

    def eof(self):
        if self.over:
            return IMPOSSIBLE
        self.over = True
        self.reader.feed_eof()

    def fail(self):
        if self.reader.exception() is not None:
            return IMPOSSIBLE
        self.reader.set_exception(ValueError(5))

    def view(self):
        repr(self.reader)
        return (
            self.reader.at_eof(), type(self.reader.exception()).__name__, None if self.transport is None else tuple(self.transport.calls),
        )


class ConnectionWorld(World):
    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        self.reader = self.aio.StreamReader(limit = 4, loop = side.loop)
        self.kept = None
        self.served = []
        callback = None
        if configuration == 'callback':
            callback = self.connected
        elif configuration == 'coroutine':
            callback = self.connected_coroutine
        self.protocol = self.aio.StreamReaderProtocol(self.reader, callback, loop = side.loop)
        self.transport = Transport()
        self.protocol.connection_made(self.transport)
        self.writer = None
        if callback is None:
            self.writer = self.aio.StreamWriter(self.transport, self.protocol, self.reader, side.loop)
        self.paused = self.is_lost = self.ended = False

    def connected(self, reader, writer):
        self.served.append(reader is self.reader)
        self.writer = writer

    async def connected_coroutine(self, reader, writer):
        self.served.append(reader is self.reader)
        self.writer = writer
        data = await reader.read(2)
        self.served.append(data)
        writer.write(data)

    def usable(self):
        return self.writer is not None

    async def drain_user(self, index):
        await self.writer.drain()

    async def wait_closed_user(self, index):
        await self.writer.wait_closed()

    async def read_user(self, index, size):
        return await self.reader.read(size)

    def drain(self):
        return self.start(self.drain_user) if self.usable() else IMPOSSIBLE

    closing = None

    def wait_closed(self):
        # Cancelling one of more of them cancels the others too
        if (not self.usable()) or (self.closing is not None and not self.users[self.closing].done()):
            return IMPOSSIBLE
        closing = len(self.users)
        result = self.start(self.wait_closed_user)
        if result is None:
            self.closing = closing
        return result

    def read(self, size):
        return self.start(self.read_user, size)

    def write(self):
        if not self.usable():
            return IMPOSSIBLE
        self.writer.write(b'xy')

    def write_lines(self):
        if not self.usable():
            return IMPOSSIBLE
        self.writer.writelines([b'p', b'q'])

    def write_eof(self):
        if not self.usable():
            return IMPOSSIBLE
        self.writer.write_eof()

    def close(self):
        if not self.usable():
            return IMPOSSIBLE
        self.writer.close()

    def pause(self):
        if self.paused or self.is_lost:
            return IMPOSSIBLE
        self.paused = True
        self.protocol.pause_writing()

    def resume(self):
        if (not self.paused) or self.is_lost:
            return IMPOSSIBLE
        self.paused = False
        self.protocol.resume_writing()

    def lost(self, failing):
        if self.is_lost:
            return IMPOSSIBLE
        self.is_lost = self.ended = True
        self.transport.lost = self.transport.closing = True
        self.protocol.connection_lost(ConnectionError(6) if failing else None)

    def feed(self, data):
        if self.is_lost or self.ended:
            return IMPOSSIBLE
        self.protocol.data_received(data)

    def eof(self):
        if self.is_lost or self.ended:
            return IMPOSSIBLE
        self.ended = True
        return self.protocol.eof_received()

    def view(self):
        repr(self.writer)
        return tuple(self.transport.calls), self.writer is not None and self.writer.is_closing(), self.reader.at_eof(), tuple(self.served)


CANCELS = (('cancel', 0), ('cancel', 1))
READS = (
    ('read', -1), ('read', 0), ('read', 1), ('read', 3), ('line',), ('until', b'ab'), ('until', b'\n'), ('until', b''), ('exactly', 0),
    ('exactly', 2), ('exactly', 5), ('exactly', -1), ('iterate',),
)
FEEDS = (
    ('feed', b'a'), ('feed', b'b'), ('feed', b'\n'), ('feed', b'a\nb'), ('feed', b'aaaa'), ('feed', b''), ('eof',), ('fail',),
)

ALPHABETS = {
    'reader': (*FEEDS, *READS, *CANCELS),
    # less, but longer
    'few': (('feed', b'a'), ('feed', b'ab\n'), ('feed', b'aaaa'), ('eof',), ('read', 2), ('line',), ('until', b'ab'), ('exactly', 3), ('cancel', 0)),
    'connection': (
        ('drain',), ('wait_closed',), ('read', 2), ('read', -1), ('write',), ('write_lines',), ('write_eof',), ('close',), ('pause',), ('resume',),
        ('lost', False), ('lost', True), ('feed', b'ab'), ('feed', b'abcdefghijk'), ('eof',), *CANCELS,
    ),
    'drains': (('drain',), ('pause',), ('resume',), ('lost', False), ('lost', True), ('write',), ('close',), *CANCELS, ('cancel', 2)),
}


class AsyncioStreamsCheck(TwinCheck):
    id = 'C40'
    worlds = {'reader': ReaderWorld, 'few': ReaderWorld, 'connection': ConnectionWorld, 'drains': ConnectionWorld}
    alphabets = ALPHABETS
    assumptions = [
        'the model is the asyncio of the standard library of the running interpreter, its pure python parts',
        'the callback called with new connections does not fail',
    ]

    def plan(self, quick):
        more = 0 if quick else 1
        for what, configuration, depth, batches in (
            ('reader', (3, 'transport'), 3, ((3, 2), (3, 3))),
            ('reader', (1, 'silent'), 3, ()),
            ('reader', (100, 'none'), 3, ()),
            ('few', (2, 'transport'), 5, ((5, 2), (4, 3))),
            ('few', (4, 'transport'), 5, ()),
            ('connection', 'none', 3, ((3, 2),)),
            ('connection', 'callback', 3, ((3, 2),)),
            ('connection', 'coroutine', 3, ((3, 2),)),
            ('drains', 'none', 5, ((5, 2),)),
        ):
            for first in ALPHABETS[what]:
                yield what, configuration, (first,), depth + more, 0
                for length, batch in batches:
                    yield what, configuration, (first,), length + more, batch


CHECK = AsyncioStreamsCheck()
