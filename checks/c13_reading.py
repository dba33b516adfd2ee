"""
C13: what reading gives does not depend on how the stream was cut into chunks, neither on when the chunks arrive.
"""
import gc
from itertools import product

from mc.base import Check, Violation
from mc.explore import Chooser
from mc.vloop import Env, callback_errors, drive, quiet_stderr


class Lost(Exception):
    pass


def segmentations(data):
    length = len(data)
    if not length:
        yield ()
        return
    for mask in range(1 << (length - 1)):
        result = []
        start = 0
        for index in range(1, length):
            if mask >> (index - 1) & 1:
                result.append(data[start:index])
                start = index
        result.append(data[start:])
        yield tuple(result)


def start(protocol, operation):
    name = operation[0]
    if name == 'exactly':
        return protocol.read_exactly(operation[1])
    if name == 'read':
        return protocol.read(operation[1])
    if name == 'until':
        return protocol.read_until(operation[1])
    return protocol.read_once()


PENDING = 'pending'
FAILED = 'connection error'


def expect(data, position, operation, ending):
    """
    Returns (result, new position). Position is `None` if it is not specified what is left.
    """
    name = operation[0]
    left = len(data) - position
    if name == 'exactly':
        if left >= operation[1]:
            return data[position : position + operation[1]], position + operation[1]
        return (PENDING if ending == 'open' else FAILED), None
    if name == 'read':
        n = operation[1]
        if n < 0:
            if ending == 'open':
                return PENDING, None
            return data[position:], len(data)
        if n <= left:
            return data[position : position + n], position + n
        if ending == 'open':
            return PENDING, None
        return data[position:], len(data)
    if name == 'until':
        index = data.find(operation[1], position)
        if index >= 0:
            return data[position : index], index + len(operation[1])
        return (PENDING if ending == 'open' else FAILED), None
    raise ValueError(name)


def case(env, make, chunks, operations, early, burst, ending, stats):
    """Generator: one case on the running loop."""
    from scarletio import Task
    loop = env.loop
    protocol = make(loop)
    data = b''.join(chunks)
    queue = [*chunks]
    if ending != 'open':
        queue.append(ending)
    delivered = 0
    position = 0
    what = f'chunks={chunks} operations={operations} early={early} burst={burst} ending={ending}'
    artefact = [[chunk.decode('latin-1') for chunk in chunks], operations_out(operations), list(early), burst, ending]

    def fail(message):
        raise Violation(f'read:{what}', f'{message}; {what}', artefact)

    def deliver():
        nonlocal delivered
        item = queue.pop(0)
        if item == 'eof':
            protocol.eof_received()
        elif item == 'lost':
            protocol.connection_lost(None)
        elif item == 'error':
            protocol.connection_lost(Lost())
        else:
            delivered += len(item)
            protocol.data_received(item)

    for index, operation in enumerate(operations):
        amount = early[index] if index < len(early) else 0
        while queue and amount:
            amount -= 1
            deliver()
        failing = ending == 'error' and not queue
        task = Task(loop, start(protocol, operation))
        yield
        while queue and not task.is_done():
            if burst:
                while queue:
                    deliver()
            else:
                deliver()
            yield
        stats.transitions += 1
        if not task.is_done():
            result = PENDING
        elif task.is_cancelled():
            fail(f'{operation} ended cancelled')
        else:
            exception = task.get_exception()
            if exception is None:
                result = task.get_result()
            elif isinstance(exception, Lost):
                result = 'lost'
            elif isinstance(exception, ConnectionError):
                result = FAILED
            else:
                fail(f'{operation} failed with {exception!r}')

        if ending == 'error':
            name = operation[0]
            if name == 'once':
                wanted = None
            else:
                wanted, new_position = expect(data, position, operation, 'open')
                if wanted == PENDING:
                    wanted = 'lost'
            if failing:
                wanted = 'lost'
            if name == 'once' and wanted is None:
                if result == 'lost':
                    break
                new_position = position + len(result)
                if not result or data[position : new_position] != result:
                    fail(f'{operation} gave {result!r} at {position}')
            elif result != wanted:
                # With the connection already lost even the buffered data may be refused.
                if not (result == 'lost' and not queue):
                    fail(f'{operation} gave {result!r} instead of {wanted!r}')
            if result == 'lost':
                if queue:
                    fail(f'{operation} lost before the connection')
                break
        elif operation[0] == 'once':
            if position == len(data):
                wanted = (PENDING,) if ending == 'open' else (b'', FAILED)
                if result not in wanted:
                    fail(f'{operation} gave {result!r} at the end')
                break
            if not isinstance(result, bytes) or not result or data[position : position + len(result)] != result:
                fail(f'{operation} gave {result!r} at {position}')
            new_position = position + len(result)
        else:
            wanted, new_position = expect(data, position, operation, ending)
            if result != wanted or (isinstance(result, str) is not isinstance(wanted, str)):
                fail(f'{operation} gave {result!r} instead of {wanted!r} at {position}')
            if new_position is None:
                if not task.is_done():
                    task.cancel()
                    yield
                break
        position = new_position
        if protocol.get_size() != delivered - position:
            fail(f'after {operation} the size is {protocol.get_size()} instead of {delivered - position}')
        at_end = ending in ('eof', 'lost') and not queue and position == len(data)
        if bool(protocol.is_at_eof()) != at_end:
            fail(f'after {operation} at eof is {protocol.is_at_eof()} instead of {at_end}')
    stats.evaluations += 1
    stats.outcome((operations, position))
    stats.state(what)


def operations_out(operations):
    return [[item.decode('latin-1') if isinstance(item, bytes) else item for item in operation] for operation in operations]


def operations_in(operations):
    return tuple(
        tuple(item.encode('latin-1') if isinstance(item, str) and index else item for index, item in enumerate(operation))
        for operation in operations
    )


# --- flow control

SIZE = 70000 # two of them are over the limit


class Transport:
    """Records whether reading is paused."""
    def __init__(self):
        self.paused = False
        self.log = []

    def pause_reading(self):
        if self.paused:
            return False
        self.paused = True
        return True

    def resume_reading(self):
        if not self.paused:
            return False
        self.paused = False
        return True

    def is_closing(self):
        return False

    def get_extra_info(self, name, default = None):
        return default


FLOW = (
    'data',         # arrives, if the transport is not paused
    'take',         # reads 70000 bytes
    'take_big',     # reads 210000 bytes
    'pause',        # the transport has too much to write
    'resume',
    'drain',        # a task waits till it can write
    'cancel',       # the first one waiting is cancelled
    'lost',
    'error',
)


def flow_case(env, path, writing, stats):
    from scarletio import ReadProtocolBase, ReadWriteProtocolBase, Task
    loop = env.loop
    protocol = (ReadWriteProtocolBase if writing else ReadProtocolBase)(loop)
    transport = Transport()
    protocol.connection_made(transport)
    delivered = 0
    taken = 0
    reader = None
    reader_size = 0
    write_paused = False
    drains = []
    ended = None
    what = f'flow={path}'

    def fail(message):
        raise Violation(f'flow:{",".join(path)}', f'{message}; writing={writing} {what}', ['flow', list(path), writing])

    for step, name in enumerate(path):
        if name == 'data':
            if ended or transport.paused:
                continue
            delivered += SIZE
            protocol.data_received(b'x' * SIZE)
        elif name in ('take', 'take_big'):
            if reader is not None or ended == 'error':
                continue
            reader_size = SIZE if name == 'take' else SIZE * 3
            reader = Task(loop, protocol.read_exactly(reader_size))
        elif name == 'pause':
            if write_paused or ended:
                continue
            write_paused = True
            protocol.pause_writing()
        elif name == 'resume':
            if not write_paused or ended:
                continue
            write_paused = False
            protocol.resume_writing()
            for drain in drains:
                drain[1] = True
        elif name == 'drain':
            drains.append([Task(loop, protocol.drain()), not write_paused and not ended])
        elif name == 'cancel':
            for index, (drain, free) in enumerate(drains):
                if not free and not ended:
                    break
            else:
                continue
            drain.cancel()
            yield
            if not drain.is_cancelled():
                fail(f'step {step}: a cancelled drain did not end')
            del drains[index]
        else:
            if ended:
                continue
            ended = name
            protocol.connection_lost(None if name == 'lost' else Lost())
        yield
        stats.transitions += 1
        # the reader
        if reader is not None:
            if reader.is_done():
                exception = reader.get_exception()
                if exception is None:
                    if len(reader.get_result()) != reader_size:
                        fail(f'step {step}: wrong amount was read')
                    taken += reader_size
                elif not ended:
                    fail(f'step {step}: reading failed with {exception!r}')
                elif isinstance(exception, (Lost, ConnectionError)):
                    taken = delivered
                    if ended == 'lost' and delivered - taken >= reader_size:
                        fail(f'step {step}: reading failed with enough data')
                else:
                    fail(f'step {step}: reading failed with {exception!r}')
                reader = None
            else:
                if ended:
                    fail(f'step {step}: the reader still waits')
                if delivered - taken >= reader_size:
                    fail(f'step {step}: the reader waits with enough data')
                if transport.paused:
                    fail(f'step {step}: the reader waits, but reading is paused')
        elif not ended:
            if delivered - taken > 131072 and not transport.paused:
                fail(f'step {step}: {delivered - taken} bytes are buffered, but reading is not paused')
            if protocol.get_size() != delivered - taken:
                fail(f'step {step}: the size is {protocol.get_size()} instead of {delivered - taken}')
        # the writers
        for drain, free in drains:
            if free or ended:
                if not drain.is_done():
                    fail(f'step {step}: a drain is stuck')
                exception = drain.get_exception()
                if exception is not None and not (
                    ended and not free and isinstance(exception, (Lost, ConnectionError) if ended == 'error' else ConnectionError)
                ):
                    fail(f'step {step}: a drain failed with {exception!r}')
            elif drain.is_done():
                fail(f'step {step}: a drain ended while writing is paused')
        if ended:
            break
    if ended:
        late = Task(loop, protocol.drain())
        yield
        if not late.is_done():
            fail('waiting till data is drained after the connection ended is stuck')
        late.get_exception()
    stats.evaluations += 1
    stats.outcome((ended, len(drains), delivered, taken))
    stats.state(what + str(writing))
    if reader is not None:
        protocol.eof_received()
        yield
    if drains and not ended:
        protocol.connection_lost(None)
        yield


WRITING = {'pause', 'resume', 'drain', 'cancel'}

GENERAL = (
    ('exactly', 1), ('exactly', 2), ('exactly', 3), ('read', 2), ('read', 4), ('read', -1), ('once',), ('until', b'c'), ('until', b'de'),
    ('exactly', 0),
)
BOUNDARIES = (b'a', b'ab', b'aa', b'aab', b'aba', b'abab', b'aabaa')


class ReadingCheck(Check):
    id = 'C13'
    rule = (
        'a state is a distinct case: stream content, way of cutting it into chunks, which chunks arrive before each read and which during it, how '
        'the stream ends, and the reads; or a distinct sequence of flow control operations'
    )
    assumptions = ['reads follow each other (the code refuses concurrent ones)', 'what is left after a failed read is not specified']

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        jobs = []
        quick = tier == 'quick'
        for boundary in BOUNDARIES:
            for length in range(1, 8 if quick else 10):
                for first in (b'a', b'b'):
                    jobs.append(('until', boundary.decode(), length, first.decode()))
        for operations in product(GENERAL, repeat = 2 if quick else 3):
            jobs.append(('general', operations_out(operations)))
        if quick:
            jobs.extend(('general', operations_out(item)) for item in product(GENERAL[1:9:2], repeat = 3))
        for writing in (False, True):
            for first in product(FLOW, repeat = 2):
                if not writing and set(first) & WRITING:
                    continue
                jobs.append(('flow', first, writing))
        return jobs

    def cases(self, job, tier):
        quick = tier == 'quick'
        if job[0] == 'until':
            _, boundary, length, first = job
            boundary = boundary.encode()
            for rest in product(b'ab', repeat = length - 1):
                data = first.encode() + bytes(rest)
                for chunks in segmentations(data):
                    for operations in (
                        (('until', boundary), ('until', boundary), ('read', -1)),
                        (('exactly', 1), ('until', boundary), ('read', -1)),
                    ):
                        if len(data) == 1 and operations[0][0] == 'exactly':
                            continue
                        for early in ((), (99,), (1, 1)):
                            if early and len(early) > 1 and len(chunks) < 3:
                                continue
                            yield chunks, operations, early, False, 'eof'
        elif job[0] == 'general':
            operations = operations_in(job[1])
            for data in (b'abcdef', b'abdecx' if quick else b'abdecxyc', b'c', b''):
                for chunks in segmentations(data):
                    for early in ((), (99,), (1, 1), (2, 0, 1), (0, 99)):
                        for burst in (False, True):
                            for ending in ('eof', 'lost', 'error', 'open'):
                                yield chunks, operations, early, burst, ending

    def run_job(self, job, stats, tier):
        from scarletio import ReadProtocolBase
        gc.disable()
        if job[0] == 'flow':
            prefix = tuple(job[1])
            def run():
                for rest in product(FLOW, repeat = 4 if tier == 'quick' else 5):
                    if not job[2] and set(rest) & WRITING:
                        continue
                    if 'lost' in rest[:-1] or 'error' in rest[:-1]:
                        if rest != tuple(sorted(rest, key = lambda item: item in ('lost', 'error'))):
                            continue
                    path = prefix + rest
                    if 'data' not in path and 'drain' not in path:
                        continue
                    yield flow_case(env, path, job[2], stats)
        else:
            def run():
                for chunks, operations, early, burst, ending in self.cases(job, tier):
                    yield case(env, ReadProtocolBase, chunks, operations, early, burst, ending, stats)

        iterator = run()
        while True:
            env = Env(Chooser(), horizon = 10 ** 9)
            state = {'more': False}

            def driver():
                for count, generator in enumerate(iterator):
                    try:
                        yield from generator
                    except Violation as violation:
                        stats.violate(violation.key, violation.message, violation.artefact)
                        if len(stats.violations) > 12:
                            return
                    if count > 2000:
                        state['more'] = True
                        return

            drive(env, driver())
            for exception in callback_errors(env):
                stats.violate('escaped', f'exception escaped: {exception!r} (job {job})')
            gc.collect()
            if not state['more']:
                break
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        from scarletio import ReadProtocolBase
        env = Env(Chooser(), horizon = 10 ** 9)
        if artefact[0] == 'flow':
            generator = flow_case(env, tuple(artefact[1]), artefact[2], stats)
        else:
            chunks, operations, early, burst, ending = artefact
            generator = case(
                env, ReadProtocolBase, tuple(chunk.encode('latin-1') for chunk in chunks), operations_in(operations), tuple(early), burst, ending, stats
            )

        def driver():
            try:
                yield from generator
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
        drive(env, driver())


CHECK = ReadingCheck()
