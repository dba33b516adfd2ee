"""
C34: asynchronous files behave as the files they wrap, reusable ones can be read again after closing, and nothing of them is left behind.
"""
import gc, io, os, shutil, sys, tempfile
from collections import deque
from itertools import product

from mc.base import Check, Violation
from mc.vloop import quiet_stderr
from mc.wire import Sequences, outcome_of, run_cases, run_one


CONTENT = b'ab\ncde\n\nfgh'


# --- stand-in for the executor: the harness decides when it runs a function

class StandIn:
    def __init__(self, env):
        self.env = env
        self.queue = deque()
        self.claimed = []

    def claim_executor(self):
        executor = Claimed(self)
        self.claimed.append(executor)
        return executor

    def add(self, function):
        future = self.env.future()
        self.queue.append((function, future))
        return future

    def step(self):
        """Same as what the executor threads do."""
        function, future = self.queue.popleft()
        if future.is_done():
            return
        try:
            result = function()
        except BaseException as exception:
            future.set_exception_if_pending(exception)
        else:
            future.set_result_if_pending(result)

    def install(self):
        self.env.loop.claim_executor = self.claim_executor
        self.env.loop.run_in_executor = self.add

    def remove(self):
        for name in ('claim_executor', 'run_in_executor'):
            self.env.loop.__dict__.pop(name, None)


class Claimed:
    def __init__(self, parent):
        self.parent = parent
        self.released = 0
        self.used_after = 0

    def execute(self, function):
        if self.released:
            self.used_after += 1
            raise RuntimeError('Executing on an already closed executor.')
        return self.parent.add(function)

    def release(self):
        self.released += 1

    def __del__(self):
        pass


def scratch_folder():
    # in memory if possible
    folder = '/dev/shm'
    return tempfile.mkdtemp(prefix = 'verif-c34-', dir = folder if os.path.isdir(folder) and os.access(folder, os.W_OK) else None)


class Scratch:
    """Folder with a file for the tested one and one for the reference."""
    def __init__(self):
        self.folder = scratch_folder()
        self.tested = os.path.join(self.folder, 'tested')
        self.reference = os.path.join(self.folder, 'reference')
        self.fill()

    def fill(self):
        for path in (self.tested, self.reference):
            with open(path, 'wb') as file:
                file.write(CONTENT)

    def remove(self):
        shutil.rmtree(self.folder, ignore_errors = True)


_unraisable = []


def note_unraisable(item):
    _unraisable.append(item.exc_value)


# --- operations

def op(name, *parameters):
    return name, parameters


READING = (
    op('read'), op('read', 2), op('read', -1), op('readline'), op('readline', 1), op('readlines'), op('readlines', 3), op('iterate'),
)
BINARY_READING = (op('readinto', 3), op('readinto1', 3), op('read1', 2), op('read1', -1))
MOVING = (op('seek', 0), op('seek', 4), op('seek', -2, os.SEEK_END), op('seek', 1, os.SEEK_CUR), op('seek', -5), op('tell'))
WRITING = (op('write', b'XY'), op('write', b''), op('writelines', (b'1\n', b'2')), op('truncate'), op('truncate', 2), op('flush'))
TEXT_WRITING = (op('write', 'X\u0171'), op('writelines', ('1\n', '2')), op('truncate'), op('flush'))
ENDING = (op('detach'), op('detach_to_self'), op('close'), op('exit'))

MODES = {
    'rb': (('rb',), {}, READING + BINARY_READING + MOVING + (op('write', b'X'), op('truncate', 1)) + ENDING),
    'reusable': ((), {}, READING + BINARY_READING + MOVING + (op('write', b'X'), op('real_close')) + ENDING),
    'reusable explicit': (('rb', 4), {}, (op('read', 2), op('readline'), op('tell'), op('seek', 4), op('close'))),
    'raw': (('rb',), {'buffering': 0}, (op('read'), op('read', 2), op('readline'), op('readinto', 3), op('seek', 4), op('tell'), op('read1', 2)) + ENDING),
    'r+b': (('r+b',), {}, (op('read'), op('read', 2), op('readline'), op('seek', 4), op('seek', 0, os.SEEK_END), op('tell'), *WRITING, op('iterate')) + ENDING),
    'w+b': (('w+b',), {}, (op('read'), op('seek', 0), op('seek', 4), op('tell'), *WRITING, op('close'), op('exit'))),
    'ab': (('ab',), {}, (op('read'), op('seek', 0), op('tell'), *WRITING, op('close'), op('exit'), op('detach'))),
    'text': (('r+',), {'encoding': 'utf-8'}, (op('read'), op('read', 2), op('readline'), op('readlines'), op('iterate'), op('seek', 0), op('seek', 4), op('tell'), *TEXT_WRITING) + ENDING),
    'newline': (('r',), {'encoding': 'latin-1', 'newline': ''}, (op('read', 3), op('readline'), op('write', 'x'), op('seek', 0), op('tell')) + ENDING),
}
ATTRIBUTES = ('fileno', 'isatty', 'readable', 'writable', 'seekable', 'mode', 'encoding', 'errors', 'newlines', 'line_buffering', 'buffer')


def describe_op(operation):
    name, parameters = operation
    return f'{name}{parameters!r}'


async def perform(file, operation):
    """On the tested one."""
    name, parameters = operation
    if name in ('readinto', 'readinto1'):
        buffer = bytearray(parameters[0])
        amount = await getattr(file, name)(buffer)
        return amount, bytes(buffer)
    if name == 'iterate':
        async for line in file:
            return line
        return None
    if name in ('close', 'real_close'):
        return getattr(file, name)()
    if name == 'exit':
        with file as entered:
            if entered is not file:
                raise Violation('enter', 'entering a file does not return it')
        return None
    return await getattr(file, name)(*parameters)


def perform_reference(file, operation):
    name, parameters = operation
    if name in ('readinto', 'readinto1'):
        buffer = bytearray(parameters[0])
        amount = getattr(file, name)(buffer)
        return amount, bytes(buffer)
    if name == 'iterate':
        # `tell` is refused by text files after `next`
        line = file.readline()
        return line or None
    if name in ('real_close', 'exit'):
        name = 'close'
    elif name == 'detach_to_self':
        name = 'detach'
    return getattr(file, name)(*parameters)


def outcome(value):
    """Comparable."""
    if isinstance(value, BaseException):
        return ('exception', type(value).__name__)
    if isinstance(value, io.IOBase):
        return ('file', type(value).__name__)
    return ('result', value)


class Reference:
    """Model: the file itself, with what reusable ones do on `close`."""
    def __init__(self, path, positional, keyword, reusable):
        self.file = open(path, *(positional or ('rb',)), **keyword)
        self.reusable = reusable
        self.ended = False
        self.rewind = False

    def do(self, operation):
        name, parameters = operation
        if name == 'close' and self.reusable:
            # Takes effect on the next operation
            self.rewind = True
            return ('result', None)
        if self.ended:
            if name in ('close', 'real_close'):
                return ('result', None)
            return ('exception', 'ValueError')
        try:
            if self.rewind and name not in ('real_close', 'exit', 'detach', 'detach_to_self', 'write'):
                self.file.seek(0)
                self.rewind = False
            value = perform_reference(self.file, operation)
        except Exception as exception:
            return outcome(exception)
        if name in ('close', 'real_close', 'exit', 'detach'):
            self.ended = True
        if name == 'detach_to_self':
            self.file = value
            value = None
        if name == 'detach':
            self.file = value
        return outcome(value)

    def attribute(self, name):
        try:
            value = getattr(self.file, name)
            if callable(value):
                value = value()
        except Exception as exception:
            return type(exception).__name__
        return value if not isinstance(value, io.IOBase) and name != 'fileno' else type(value).__name__


def attribute_of(file, name):
    try:
        value = getattr(file, name)
        if callable(value):
            value = value()
    except Exception as exception:
        return type(exception).__name__
    return value if not isinstance(value, io.IOBase) and name != 'fileno' else type(value).__name__


def type_of(mode):
    from scarletio import AsyncIO, ReuAsyncIO
    return ReuAsyncIO if mode.startswith('reusable') else AsyncIO


def sequential_case(mode, operations, wrap, scratch, stats, prune):
    """Each operation is waited for."""
    positional, keyword, _ = MODES[mode]
    reusable = mode.startswith('reusable')
    key = f'sequential:{mode}:{"wrap:" if wrap else ""}{";".join(map(describe_op, operations))}'

    def generator(env):
        stats.evaluations += 1
        stats.state(key)
        if positional and positional[0] not in ('rb', 'r'):
            scratch.fill()
        stand_in = StandIn(env)
        stand_in.install()
        del _unraisable[:]
        reference = Reference(scratch.reference, positional, keyword, reusable)
        raw = None
        try:
            def settle(task):
                for _ in range(6):
                    yield None
                    if task.is_done():
                        return
                    if stand_in.queue:
                        stand_in.step()
                raise Violation(key, f'{task!r} does not end')

            def run(coroutine):
                task = env.task(coroutine)
                yield from settle(task)
                return outcome_of(task)

            if wrap:
                # from where it already is
                inner = open(scratch.tested, *(positional or ('rb',)), **keyword)
                for file in (inner, reference.file):
                    file.seek(3)
                file = type_of(mode).wrap(inner)
                inner = None
            else:
                result = yield from run(type_of(mode)(scratch.tested, *positional, **keyword))
                if result[0] != 'result':
                    raise Violation(key, f'opening gives {result}')
                file = result[1]
                result = None
            if file.closed:
                raise Violation(key, 'the file is closed after opening')
            for index, operation in enumerate(operations):
                stats.transitions += 1
                wanted = reference.do(operation)
                result = yield from run(perform(file, operation))
                if result[0] == 'result' and isinstance(result[1], io.IOBase):
                    raw = result[1]
                seen = outcome(result[1]) if len(result) > 1 else result
                result = None
                if seen != wanted:
                    raise Violation(key, f'after {"; ".join(map(describe_op, operations[:index])) or "opening"} {describe_op(operation)} gives {seen}, the file itself {wanted}')
                if file.closed is not reference.ended:
                    raise Violation(key, f'after {"; ".join(map(describe_op, operations[:index + 1]))} `.closed` is {file.closed}')
                if wanted == ('exception', 'ValueError') and reference.ended and index:
                    # nothing more comes
                    prune(index)
                    break
            repr(file)
            if not reference.ended:
                for name in ATTRIBUTES:
                    if attribute_of(file, name) != reference.attribute(name):
                        raise Violation(key, f'`.{name}` is {attribute_of(file, name)!r} instead of {reference.attribute(name)!r}')
                if file.name != scratch.tested and reference.attribute('name') == scratch.reference:
                    raise Violation(key, f'`.name` is {file.name!r}')
            if any(executor.released for executor in stand_in.claimed) and not reference.ended:
                raise Violation(key, 'the executor is released while the file is open')
            if raw is not None:
                # What is detached is still open
                if raw.closed:
                    raise Violation(key, 'the detached file is closed')
                if raw.readable():
                    left = raw.read(), reference.file.read()
                    if left[0] != left[1]:
                        raise Violation(key, f'{left[0]!r} is read from the detached file instead of {left[1]!r}')
                raw.close()
            inner = getattr(file, '_io', None)
            file = None
            task = None
            if any(executor.released != 1 for executor in stand_in.claimed):
                # exceptions raised may still refer to it
                yield None
                gc.collect(0)
                if any(executor.released != 1 for executor in stand_in.claimed):
                    gc.collect()
            if not reference.ended and isinstance(inner, io.IOBase) and not inner.closed:
                raise Violation(key, 'the file is not closed when it is not used anymore')
            inner = None
            reference.file.close()
            if not stand_in.claimed:
                raise Violation(key, 'no executor was used')
            check_released(key, stand_in)
            if positional and positional[0] not in ('rb', 'r'):
                with open(scratch.tested, 'rb') as left, open(scratch.reference, 'rb') as right:
                    left, right = left.read(), right.read()
                if left != right:
                    raise Violation(key, f'the content of the file is {left!r} instead of {right!r}')
            stats.outcome((mode, reference.ended))
        finally:
            stand_in.remove()
            reference.file.close()
        check_unraisable(key)

    return generator


def check_released(key, stand_in):
    for executor in stand_in.claimed:
        if executor.released != 1:
            raise Violation(key, f'the executor is released {executor.released} times')
        if executor.used_after:
            raise Violation(key, 'the executor is used after being released')


def check_unraisable(key):
    if _unraisable:
        exception = _unraisable[0]
        del _unraisable[:]
        raise Violation(key, f'{exception!r} is lost')


def sequential_cases(mode, first, depth, scratch, stats):
    alphabet = MODES[mode][2]
    for length in range(1, depth + 1):
        sequences = Sequences(alphabet, length, (first,))
        for operations in sequences:
            yield sequential_case(mode, operations, False, scratch, stats, sequences.prune)
            if length < 3:
                yield sequential_case(mode, operations, True, scratch, stats, sequences.prune)


# --- operations at the same time

CONCURRENT = {
    'rb': (('rb',), (op('read', 2), op('readline'), op('seek', 4), op('tell'))),
    'reusable': ((), (op('read', 2), op('readline'), op('iterate'), op('seek', 1, os.SEEK_CUR), op('tell'))),
    'r+b': (('r+b',), (op('read', 2), op('write', b'XY'), op('seek', 1), op('truncate', 3))),
}
CONTROL = ('step', 'cancel first', 'cancel last', 'close')


def concurrent_case(mode, letters, scratch, stats, prune):
    """
    Operations are started before the ones before them are done, and are cancelled. They take effect in the order they were started,
    except the ones cancelled before the executor got to them.
    """
    positional = CONCURRENT[mode][0]
    reusable = mode == 'reusable'
    key = f'concurrent:{mode}:{";".join(letter if isinstance(letter, str) else describe_op(letter) for letter in letters)}'

    def generator(env):
        if mode == 'r+b':
            scratch.fill()
        stand_in = StandIn(env)
        stand_in.install()
        del _unraisable[:]
        reference = Reference(scratch.reference, positional, {}, reusable)
        # [operation | None (rewinding), task, wanted outcome]
        pending = deque()
        running = []
        ended = False
        try:
            task = env.task(type_of(mode)(scratch.tested, *positional))
            yield None
            while stand_in.queue:
                stand_in.step()
                yield None
            file = task.get_result()
            task = None

            def check_done():
                for item in tuple(running):
                    operation, task_, wanted = item
                    if wanted is None:
                        if task_.is_done():
                            raise Violation(key, f'{describe_op(operation)} ended before the executor got to it')
                        continue
                    running.remove(item)
                    seen = outcome_of(task_)
                    if seen[0] in ('result', 'exception'):
                        seen = outcome(seen[1])
                    if seen != wanted:
                        raise Violation(key, f'{describe_op(operation)} gives {seen} instead of {wanted}')

            for index, letter in enumerate(letters):
                if letter == 'step':
                    while pending and pending[0] is None:
                        pending.popleft()
                        reference.rewind = True
                    if not pending:
                        prune(index)
                        return
                    item = pending.popleft()
                    if item[2] is None:
                        try:
                            item[2] = reference.do(item[0])
                        except Exception as exception:
                            item[2] = outcome(exception)
                    # The rewinding might be a function of its own.
                    for _ in range(3):
                        if not stand_in.queue:
                            break
                        stand_in.step()
                        yield None
                        if item[1].is_done() and item[2] != ('cancelled',):
                            break
                        if item[2] == ('cancelled',) and not any(future_left(stand_in)):
                            break
                elif letter in ('cancel first', 'cancel last'):
                    left = [item for item in running if item[2] is None]
                    if not left or (letter == 'cancel last' and len(left) < 2):
                        prune(index)
                        return
                    item = left[0 if letter == 'cancel first' else -1]
                    item[2] = ('cancelled',)
                    item[1].cancel()
                elif letter == 'close':
                    if ended:
                        prune(index)
                        return
                    file.close()
                    if reusable:
                        pending.append(None)
                    else:
                        ended = True
                        reference.do(letter_close)
                else:
                    item = [letter, env.task(perform(file, letter)), None]
                    running.append(item)
                    if ended:
                        item[2] = ('exception', 'ValueError')
                    else:
                        pending.append(item)
                yield None
                check_done()
                stats.transitions += 1
            stats.evaluations += 1
            stats.state(key)
            # the rest
            for _ in range(40):
                while pending and pending[0] is None:
                    pending.popleft()
                    reference.rewind = True
                if not pending:
                    break
                item = pending.popleft()
                if item[2] is None:
                    item[2] = reference.do(item[0])
                    while stand_in.queue and not item[1].is_done():
                        stand_in.step()
                        yield None
                yield None
                check_done()
            while stand_in.queue:
                stand_in.step()
                yield None
            check_done()
            if not ended:
                # what follows sees the same file
                for operation in ((op('tell'), op('read')) if not ended else ()):
                    wanted = reference.do(operation)
                    task = env.task(perform(file, operation))
                    yield None
                    while stand_in.queue:
                        stand_in.step()
                        yield None
                    seen = outcome(outcome_of(task)[-1])
                    if seen != wanted:
                        raise Violation(key, f'at the end {describe_op(operation)} gives {seen} instead of {wanted}')
                    task = None
            item = left = None
            file = None
            if any(executor.released != 1 for executor in stand_in.claimed):
                yield None
                gc.collect(0)
                if any(executor.released != 1 for executor in stand_in.claimed):
                    gc.collect()
            check_released(key, stand_in)
            reference.file.close()
            if mode == 'r+b':
                with open(scratch.tested, 'rb') as left, open(scratch.reference, 'rb') as right:
                    left, right = left.read(), right.read()
                if left != right:
                    raise Violation(key, f'the content of the file is {left!r} instead of {right!r}')
            stats.outcome((mode, ended))
        finally:
            stand_in.remove()
            reference.file.close()
        check_unraisable(key)

    return generator


letter_close = op('close')


def future_left(stand_in):
    """Whether there are done (cancelled) ones first in the queue."""
    if stand_in.queue:
        yield stand_in.queue[0][1].is_done()


def concurrent_cases(mode, first, depth, scratch, stats):
    alphabet = (*CONCURRENT[mode][1], *CONTROL)
    sequences = Sequences(alphabet, depth, first)
    for letters in sequences:
        yield concurrent_case(mode, letters, scratch, stats, sequences.prune)


# --- opening

def opening_case(type_name, what, letters, scratch, stats):
    key = f'opening:{type_name}:{what}:{letters}'

    def generator(env):
        import scarletio
        stats.evaluations += 1
        stats.state(key)
        stand_in = StandIn(env)
        stand_in.install()
        del _unraisable[:]
        try:
            parameters, keywords = {
                'missing': ((os.path.join(scratch.folder, 'missing'),), {}),
                'folder': ((scratch.folder,), {}),
                'bad mode': ((scratch.tested, 'nope'), {}),
                'bad encoding': ((scratch.tested, 'rb'), {'encoding': 'utf-8'}),
                'bad parameter': ((scratch.tested, 'rb'), {'nope': 1}),
                'text': ((scratch.tested, 'r'), {}),
                'good': ((scratch.tested, 'rb'), {}),
                'descriptor': ((-1,), {'mode': 'rb'}),
            }[what]
            try:
                file = open(*parameters, **keywords)
            except Exception as exception:
                wanted = outcome(exception)
            else:
                file.close()
                wanted = None
            if type_name == 'ReuAsyncIO' and what in ('text', 'bad mode'):
                wanted = ('exception', 'ValueError')
            task = env.task(getattr(scarletio, type_name)(*parameters, **keywords))
            cancelled = False
            for letter in letters:
                stats.transitions += 1
                if letter == 'turn':
                    yield None
                elif letter == 'step':
                    if stand_in.queue:
                        stand_in.step()
                elif not task.is_done():
                    task.cancel()
                    cancelled = True
            for _ in range(4):
                yield None
                if stand_in.queue:
                    stand_in.step()
            yield None
            seen = outcome_of(task)
            if seen[0] in ('result', 'exception'):
                seen = outcome(seen[1])
            if cancelled and seen != ('cancelled',):
                # the outcome may be there already
                if 'step' not in letters:
                    raise Violation(key, f'opening is cancelled, but ends with {seen}')
            if not cancelled or seen[0] == 'exception':
                if wanted is None:
                    if seen[0] != 'result':
                        raise Violation(key, f'opening gives {seen}')
                elif seen != wanted:
                    raise Violation(key, f'opening gives {seen} instead of {wanted}')
            task = None
            seen = seen[0]
            if any(executor.released != 1 for executor in stand_in.claimed):
                gc.collect()
            check_released(key, stand_in)
            stats.outcome(seen)
        finally:
            stand_in.remove()
        check_unraisable(key)

    return generator


OPENINGS = ('missing', 'folder', 'bad mode', 'bad encoding', 'bad parameter', 'text', 'good', 'descriptor')


def opening_cases(depth, scratch, stats):
    for type_name, what in product(('AsyncIO', 'ReuAsyncIO'), OPENINGS):
        for length in range(depth + 1):
            for letters in product(('turn', 'step', 'cancel'), repeat = length):
                yield opening_case(type_name, what, letters, scratch, stats)


# --- closing fails

class FailingRaw(io.RawIOBase):
    def __init__(self, fails):
        self.fails = fails

    def writable(self):
        return True

    def write(self, data):
        if self.fails:
            raise OSError(28, 'No space left on device')
        return len(data)


def failing_case(type_name, operations, end, stats):
    key = f'failing:{type_name}:{operations}:{end}'

    def generator(env):
        import scarletio
        stats.evaluations += 1
        stats.state(key)
        stand_in = StandIn(env)
        stand_in.install()
        del _unraisable[:]
        try:
            raw = FailingRaw(True)
            file = getattr(scarletio, type_name).wrap(io.BufferedWriter(raw))
            for operation in operations:
                stats.transitions += 1
                task = env.task(perform(file, operation))
                yield None
                while stand_in.queue:
                    stand_in.step()
                    yield None
                seen = outcome(outcome_of(task)[-1])
                wanted = ('result', len(operation[1][0])) if operation[0] == 'write' else ('exception', 'OSError')
                if seen != wanted:
                    raise Violation(key, f'{describe_op(operation)} gives {seen} instead of {wanted}')
                task = None
            task = env.task(perform(file, op(end)))
            yield None
            while stand_in.queue:
                stand_in.step()
                yield None
            seen = outcome(outcome_of(task)[-1])
            task = None
            if seen != ('exception', 'OSError'):
                raise Violation(key, f'{end} gives {seen} instead of the error')
            closing = end != 'detach'
            if file.closed is not closing:
                raise Violation(key, f'`.closed` is {file.closed} after {end}')
            raw.fails = False
            if closing:
                # closing again does nothing
                getattr(file, 'real_close', file.close)()
            file = None
            gc.collect()
            check_released(key, stand_in)
            stats.outcome(end)
        finally:
            stand_in.remove()
        check_unraisable(key)

    return generator


def failing_cases(depth, stats):
    alphabet = (op('write', b'abc'), op('flush'))
    for length in range(1, depth + 1):
        for operations in product(alphabet, repeat = length):
            if operations[0][0] != 'write':
                continue
            for type_name, end in (('AsyncIO', 'close'), ('AsyncIO', 'exit'), ('AsyncIO', 'detach'), ('ReuAsyncIO', 'real_close'), ('ReuAsyncIO', 'exit'), ('ReuAsyncIO', 'detach')):
                yield failing_case(type_name, operations, end, stats)


# --- reusable bytes

BYTES_LETTERS = (
    op('write', b'abc'), op('write', b'Z'), op('write', b''), op('read'), op('read', 2), op('read', -1), op('read', 0), op('read', 100),
    op('seek', 0), op('seek', 2), op('seek', 5), op('seek', 1, os.SEEK_CUR), op('seek', 0, os.SEEK_END), op('seek', -1, os.SEEK_END), op('seek', -3), op('seek', 9, 9),
    op('tell'), op('close'),
)
FEW_BYTES_LETTERS = (op('write', b'abc'), op('write', b'Z'), op('read'), op('read', 1), op('seek', 5), op('seek', -1, os.SEEK_END), op('close'))


class BytesModel:
    """What was written since the last reading (or everything, if there was none)."""
    def __init__(self):
        self.content = b''
        self.position = 0
        self.reading = False

    def do(self, operation):
        name, parameters = operation
        if name == 'write':
            data = parameters[0]
            if self.reading:
                self.content = b''
                self.position = 0
                self.reading = False
            if data:
                start = self.content[: self.position].ljust(self.position, b'\0')
                self.content = start + data + self.content[self.position + len(data) :]
                self.position += len(data)
            return ('result', len(data))
        if name == 'read':
            self.reading = True
            amount = parameters[0] if parameters else None
            if amount is None or amount < 0:
                amount = len(self.content)
            data = self.content[self.position : self.position + amount]
            self.position += len(data)
            return ('result', data)
        if name == 'seek':
            offset, whence = parameters if len(parameters) == 2 else (parameters[0], 0)
            if whence not in (0, 1, 2) or (whence == 0 and offset < 0):
                return ('exception', 'ValueError')
            self.position = max(0, offset + (0, self.position, len(self.content))[whence])
            return ('result', self.position)
        if name == 'tell':
            return ('result', self.position)
        # close
        self.position = 0
        return ('result', None)


def bytes_case(letters, stats):
    from scarletio import ReuBytesIO
    key = f'bytes:{";".join(map(describe_op, letters))}'
    stats.evaluations += 1
    stats.state(key)
    buffer = ReuBytesIO()
    model = BytesModel()
    for index, letter in enumerate(letters):
        stats.transitions += 1
        wanted = model.do(letter)
        name, parameters = letter
        try:
            seen = outcome(getattr(buffer, name)(*parameters))
        except Exception as exception:
            seen = outcome(exception)
        if seen != wanted:
            raise Violation(key, f'after {"; ".join(map(describe_op, letters[:index])) or "nothing"} {describe_op(letter)} gives {seen} instead of {wanted}')
        if len(buffer) != len(model.content):
            raise Violation(key, f'after {"; ".join(map(describe_op, letters[:index + 1]))} the length is {len(buffer)} instead of {len(model.content)}')
    if buffer.closed:
        raise Violation(key, 'the buffer is closed')
    if buffer.tell() != model.position:
        raise Violation(key, f'the position is {buffer.tell()} instead of {model.position}')
    if buffer.getvalue() != model.content:
        raise Violation(key, f'the content is {buffer.getvalue()!r} instead of {model.content!r}')
    buffer.seek(0)
    if b''.join(buffer) != model.content:
        raise Violation(key, f'the lines of the content are not of {model.content!r}')
    if len(letters) % 2:
        buffer.real_close()
    else:
        with buffer as entered:
            if entered is not buffer:
                raise Violation(key, 'entering the buffer does not return it')
    if not buffer.closed:
        raise Violation(key, 'the buffer is not closed')
    stats.outcome((len(model.content), model.reading))


def bytes_job(alphabet, first, depth, stats):
    for length in range(0, depth):
        for rest in product(alphabet, repeat = length):
            try:
                bytes_case((first, *rest), stats)
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)


# --- sent as payload

class ShortReads(io.RawIOBase):
    """A file which gives less than asked for."""
    def __init__(self, pieces):
        self.pieces = deque(pieces)

    def readable(self):
        return True

    def read(self, amount = -1):
        if not self.pieces:
            return b''
        piece = self.pieces.popleft()
        if amount >= 0 and len(piece) > amount:
            self.pieces.appendleft(piece[amount:])
            piece = piece[:amount]
        return piece


class Writer:
    def __init__(self):
        self.data = []

    async def write(self, data):
        self.data.append(bytes(data))

    write_eof = write


PAYLOAD_PIECES = ((), (b'ab',), (b'ab', b'cd'), (b'x' * 70000, b'y', b'z' * 70000), (b'x' * 65536,), (b'x' * 65536, b'y'), (b'a', b'b', b'c', b'd'))


def payload_case(kind, pieces, offset, stats):
    key = f'payload:{kind}:{[len(piece) for piece in pieces]}:{offset}'
    content = b''.join(pieces)

    def generator(env):
        from scarletio import AsyncIO, ReuAsyncIO, ReuBytesIO
        from scarletio.web_common.multipart import create_payload
        stats.evaluations += 1
        stats.state(key)
        stand_in = StandIn(env)
        stand_in.install()
        del _unraisable[:]
        scratch = scratch_folder()
        try:
            path = os.path.join(scratch, 'file')
            with open(path, 'wb') as file:
                for piece in pieces:
                    file.write(piece)

            def run(coroutine):
                task = env.task(coroutine)
                for _ in range(100):
                    yield None
                    if task.is_done():
                        return outcome_of(task)
                    while stand_in.queue:
                        stand_in.step()
                raise Violation(key, f'{task!r} does not end')

            reusable = True
            if kind == 'short':
                reusable = False
                file = AsyncIO.wrap(ShortReads(pieces))
            elif kind == 'short reusable':
                reusable = False
                file = ReuAsyncIO.wrap(ShortReads(pieces))
            elif kind == 'bytes':
                file = ReuBytesIO()
                for piece in pieces:
                    file.write(piece)
                file.seek(0)
            else:
                reusable = kind == 'reusable'
                result = yield from run((ReuAsyncIO if reusable else AsyncIO)(path, 'rb'))
                file = result[1]
                result = None
            if offset:
                if kind == 'bytes':
                    file.seek(offset)
                else:
                    yield from run(file.seek(offset))
            for time in range(3 if reusable else 1):
                stats.transitions += 1
                payload = create_payload(file, {})
                wanted = content[offset:] if not time else content
                if payload.size is not None and payload.size != len(wanted):
                    raise Violation(key, f'the size of the payload is {payload.size} instead of {len(wanted)}')
                writer = Writer()
                result = yield from run(payload.write(writer))
                if result[0] != 'result':
                    raise Violation(key, f'sending ends with {result}')
                seen = b''.join(writer.data)
                if seen != wanted:
                    raise Violation(key, f'the {time + 1}. time {len(seen)} bytes are sent instead of {len(wanted)}' if len(seen) != len(wanted) else 'other content is sent')
                if kind != 'short reusable' and file.closed is reusable:
                    raise Violation(key, f'`.closed` is {file.closed} after sending')
            if kind != 'bytes':
                if kind == 'short reusable':
                    file.real_close()
                payload = None
                file = None
                gc.collect()
                check_released(key, stand_in)
            stats.outcome((kind, len(pieces)))
        finally:
            stand_in.remove()
            shutil.rmtree(scratch, ignore_errors = True)
        check_unraisable(key)

    return generator


def payload_cases(stats):
    for kind in ('file', 'reusable', 'short', 'short reusable', 'bytes'):
        for pieces in PAYLOAD_PIECES:
            for offset in ((0, 1) if kind in ('file', 'reusable', 'bytes') and pieces else (0,)):
                yield payload_case(kind, pieces, offset, stats)


class AsyncFilesCheck(Check):
    id = 'C34'
    rule = 'a state is a distinct sequence of operations (with the points where the executor acts) on a file or on a buffer'
    assumptions = ['the executor runs the functions given to it in order (decided by C11)', 'reusable files are only read']

    def setup(self):
        quiet_stderr()
        sys.unraisablehook = note_unraisable

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = [('bytes', 'all', letter, 4 if quick else 5) for letter in BYTES_LETTERS]
        jobs.extend(('bytes', 'few', letter, 6 if quick else 8) for letter in FEW_BYTES_LETTERS)
        for mode, (_, _, alphabet) in MODES.items():
            jobs.extend(('sequential', mode, letter, (5 if mode == 'reusable explicit' else 3) + (not quick)) for letter in alphabet)
        for mode, (_, alphabet) in CONCURRENT.items():
            depth = (5 if quick else 6) + (mode == 'reusable' and 0)
            if quick:
                jobs.extend(('concurrent', mode, (letter,), depth) for letter in (*alphabet, 'close'))
            else:
                jobs.extend(('concurrent', mode, (letter, other), depth) for letter in (*alphabet, 'close') for other in (*alphabet, *CONTROL))
        jobs.extend((('opening', 5 if quick else 6), ('failing', 4), ('payload',)))
        return jobs

    def run_job(self, job, stats, tier):
        kind, *parameters = job
        if kind == 'bytes':
            bytes_job(BYTES_LETTERS if parameters[0] == 'all' else FEW_BYTES_LETTERS, *parameters[1:], stats)
        else:
            scratch = Scratch()
            try:
                if kind == 'sequential':
                    mode, letter, depth = parameters
                    cases = sequential_cases(mode, fix(letter), depth, scratch, stats)
                elif kind == 'concurrent':
                    mode, letters, depth = parameters
                    cases = concurrent_cases(mode, tuple(fix(letter) for letter in letters), depth, scratch, stats)
                elif kind == 'opening':
                    cases = opening_cases(*parameters, scratch, stats)
                elif kind == 'failing':
                    cases = failing_cases(*parameters, stats)
                else:
                    cases = payload_cases(stats)
                run_cases(cases, stats, job)
            finally:
                scratch.remove()
        stats.sample(repr(job))


def fix(letter):
    """Operations from their json form."""
    if isinstance(letter, str):
        return letter
    name, parameters = letter
    return name, tuple(parameters)


CHECK = AsyncFilesCheck()
