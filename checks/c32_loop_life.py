"""
C32: the life of event loops: what they run gives its result to who asked for it, asynchronous generators iterated on them are finalized by them,
and the event loop found for a thread is one which runs.

Real event loops in real threads; what happens on them is done one operation at a time, each followed by letting the loop become idle, so every
history has one outcome.
"""
import gc, queue, threading, time
from itertools import product

from mc.base import Check, Violation
from mc.vloop import quiet_stderr

TIMEOUT = 20.0


class Failure(Exception):
    pass


class Base(BaseException):
    pass


def settle(loop):
    from scarletio import skip_ready_cycle

    async def cycles():
        for _ in range(8):
            await skip_ready_cycle()

    loop.run(cycles(), TIMEOUT)


def end(loop, key, message):
    loop.stop()
    loop.join(TIMEOUT)
    if loop.is_alive():
        raise Violation(key, message)


# --- asynchronous generators

KINDS = ('plain', 'gated', 'failing', 'nested', 'waiting')


class Model:
    """
    What should have happened. A generator is `[kind, state, held, yielded, inner]`, its state can be
    `fresh`, `suspended`, `waiting` (in its body), `finalizing` or `done`.
    """
    def __init__(self, slots, kinds, places):
        self.kinds = kinds
        self.places = places
        self.slots = [None] * slots
        self.generators = []    # [kind, state, held, yielded, inner, waiter]
        self.log = []           # (identifier, what)
        self.results = {}       # operation -> outcome
        self.counter = 0
        self.shut_down = False
        self.shutting = None    # identifiers which the shutting down waits for, None if it is done
        self.closing = set()    # identifiers which the shutting down refers to

    def copy(self):
        new = Model.__new__(Model)
        new.kinds = self.kinds
        new.places = self.places
        new.slots = self.slots[:]
        new.generators = [generator[:] for generator in self.generators]
        new.log = self.log[:]
        new.results = dict(self.results)
        new.counter = self.counter
        new.shut_down = self.shut_down
        new.shutting = None if self.shutting is None else set(self.shutting)
        new.closing = set(self.closing)
        return new

    def enabled(self):
        operations = []
        for slot, identifier in enumerate(self.slots):
            if identifier is None:
                if None in self.slots[:slot]:
                    continue
                operations.extend(('new', slot, kind) for kind in self.kinds)
                continue
            state = self.generators[identifier][1]
            if self.generators[identifier][5] is None and state in ('fresh', 'suspended', 'done'):
                operations.append(('next', slot))
                operations.append(('close', slot))
            if state == 'waiting':
                operations.append(('cancel', slot))
            operations.extend(('drop', slot, place) for place in self.places)
        if any(state == 'finalizing' for _, state, *_ in self.generators):
            operations.append(('release',))
        if any(state == 'waiting' for _, state, *_ in self.generators):
            operations.append(('open',))
        if not self.shut_down:
            operations.append(('shutdown',))
        return operations

    def begin(self, identifier):
        """The generator is told to end at its yield."""
        generator = self.generators[identifier]
        if generator[0] == 'nested':
            self.inner_dropped(identifier)
        self.finalize(identifier)

    def inner_dropped(self, identifier):
        inner = self.generators[identifier][4]
        if inner is not None and self.generators[inner][1] == 'suspended':
            self.finalize(inner)

    def finalize(self, identifier):
        generator = self.generators[identifier]
        self.log.append((identifier, 'begin'))
        if generator[0] in ('plain', 'nested'):
            self.finished(identifier)
        else:
            generator[1] = 'finalizing'

    def finished(self, identifier):
        generator = self.generators[identifier]
        self.log.append((identifier, 'end'))
        generator[1] = 'done'
        waiter = generator[5]
        generator[5] = None
        if waiter is not None:
            operation, kind = waiter
            if kind == 'outer':
                # the outer generator was waiting for this one
                self.finalize(operation)
            elif generator[0] == 'failing':
                self.results[operation] = 'ValueError'
            else:
                self.results[operation] = {'next': 'end', 'close': 'closed', 'cancel': 'cancelled'}[kind]
        if self.shutting is not None and identifier in self.shutting:
            self.shutting.discard(identifier)
            self.shutdown_done()

    def shutdown_done(self):
        if self.shutting is not None and not self.shutting:
            self.shutting = None
            self.results['shutdown'] = 'done'
            closing = self.closing
            self.closing = set()
            for identifier in closing:
                if not self.generators[identifier][2]:
                    self.dropped(identifier)

    def dropped(self, identifier):
        """Nothing uses the generator anymore."""
        generator = self.generators[identifier]
        if generator[1] == 'suspended' and identifier not in self.closing:
            self.begin(identifier)

    def yielded(self, operation, identifier):
        generator = self.generators[identifier]
        generator[3] += 1
        generator[1] = 'suspended'
        self.results[operation] = generator[3]
        generator[5] = None
        if not generator[2]:
            self.dropped(identifier)

    def apply(self, operation):
        name = operation[0]
        if name == 'new':
            self.slots[operation[1]] = len(self.generators)
            self.generators.append([operation[2], 'fresh', True, 0, None, None])
        elif name == 'next':
            identifier = self.slots[operation[1]]
            number = self.counter
            self.counter += 1
            self.results[number] = None
            generator = self.generators[identifier]
            generator[5] = (number, 'next')
            if generator[1] == 'done':
                self.results[number] = 'end'
                generator[5] = None
            elif generator[1] == 'fresh' and generator[0] == 'waiting':
                generator[1] = 'waiting'
            elif generator[3] < 2:
                if generator[0] == 'nested':
                    if generator[4] is None:
                        generator[4] = len(self.generators)
                        self.generators.append(['gated', 'fresh', True, 0, None, None])
                    inner = self.generators[generator[4]]
                    inner[1] = 'suspended'
                    if inner[1] == 'done':
                        self.finalize(identifier)
                        return
                self.yielded(number, identifier)
            elif generator[0] == 'nested' and self.generators[generator[4]][1] == 'suspended':
                inner = self.generators[generator[4]]
                inner[5] = (identifier, 'outer')
                generator[1] = 'inside'
                self.finalize(generator[4])
            else:
                self.finalize(identifier)
        elif name == 'close':
            identifier = self.slots[operation[1]]
            number = self.counter
            self.counter += 1
            self.results[number] = None
            generator = self.generators[identifier]
            if generator[1] in ('fresh', 'done'):
                self.results[number] = 'closed'
                generator[1] = 'done'
            else:
                generator[5] = (number, 'close')
                self.begin(identifier)
        elif name == 'cancel':
            identifier = self.slots[operation[1]]
            generator = self.generators[identifier]
            generator[5] = (generator[5][0], 'cancel')
            self.finalize(identifier)
        elif name == 'drop':
            identifier = self.slots[operation[1]]
            self.slots[operation[1]] = None
            generator = self.generators[identifier]
            generator[2] = False
            self.dropped(identifier)
        elif name == 'release':
            for identifier in [identifier for identifier, generator in enumerate(self.generators) if generator[1] == 'finalizing']:
                self.finished(identifier)
        elif name == 'open':
            for identifier, generator in enumerate(self.generators):
                if generator[1] == 'waiting':
                    self.yielded(generator[5][0], identifier)
        elif name == 'shutdown':
            self.shut_down = True
            self.results['shutdown'] = None
            closing = [
                identifier for identifier, generator in enumerate(self.generators)
                if generator[1] == 'suspended'
            ]
            self.shutting = set(closing)
            self.closing = {
                identifier for identifier, generator in enumerate(self.generators)
                if generator[1] not in ('fresh', 'done')
            }
            for identifier in closing:
                if self.generators[identifier][1] == 'suspended':
                    self.finalize(identifier)
            self.shutdown_done()

    def key(self):
        return repr((self.slots, self.generators, self.shut_down, self.shutting))


class Real:
    def __init__(self, loop, other):
        self.loop = loop
        self.other = other
        self.slots = {}
        self.log = []
        self.results = {}
        self.tasks = {}
        self.names = 0
        self.counter = 0
        self.pending = {}
        self.final_gates = []
        self.body_gates = []

    def name(self):
        self.names += 1
        return self.names - 1

    def note(self, identifier, what):
        where = threading.current_thread()
        if where is not self.loop:
            what = f'{what} in {where!r}'
        self.log.append((identifier, what))

    async def gate(self, gates):
        from scarletio import Future
        future = Future(self.loop)
        gates.append(future)
        await future

    async def generator(self, identifier, kind):
        try:
            if kind == 'waiting':
                await self.gate(self.body_gates)
            if kind == 'nested':
                async for value in self.generator(self.name(), 'gated'):
                    yield value
            else:
                yield 1
                yield 2
        finally:
            self.note(identifier, 'begin')
            if kind not in ('plain', 'nested'):
                await self.gate(self.final_gates)
            self.note(identifier, 'end')
            if kind == 'failing':
                raise ValueError(identifier)

    async def observe(self, number, awaitable, done):
        from scarletio import CancelledError
        try:
            try:
                result = await awaitable
            finally:
                awaitable = None
            if done is not None:
                result = done
        except StopAsyncIteration:
            result = 'end'
        except CancelledError:
            result = 'cancelled'
        except BaseException as exception:
            result = type(exception).__name__
        self.results[number] = result

    def start(self, number, maker, done):
        """starts an operation of the user in the loop"""
        self.results[number] = None

        async def starting():
            return self.loop.create_task(self.observe(number, maker(), done))

        task = self.loop.run(starting(), TIMEOUT)
        self.tasks[number] = task
        return task

    def apply(self, operation):
        name = operation[0]
        loop = self.loop
        if name == 'new':
            self.slots[operation[1]] = self.generator(self.name(), operation[2])
        elif name in ('next', 'close'):
            number = self.counter
            self.counter += 1
            slot = operation[1]
            if name == 'next':
                self.start(number, lambda: self.slots[slot].__anext__(), None)
                self.pending[slot] = number
            else:
                self.start(number, lambda: self.slots[slot].aclose(), 'closed')
        elif name == 'cancel':
            task = self.tasks[self.pending[operation[1]]]

            async def cancelling():
                task.cancel()

            loop.run(cancelling(), TIMEOUT)
        elif name == 'drop':
            _, slot, place = operation

            async def dropping():
                del self.slots[slot]

            if place == 'main':
                del self.slots[slot]
            elif place == 'loop':
                loop.run(dropping(), TIMEOUT)
            else:
                self.other.run(dropping(), TIMEOUT)
                settle(self.other)
        elif name in ('release', 'open'):
            gates = self.final_gates if name == 'release' else self.body_gates

            async def releasing():
                for future in gates[:]:
                    future.set_result_if_pending(None)
                gates.clear()

            loop.run(releasing(), TIMEOUT)
        elif name == 'shutdown':
            self.start('shutdown', loop.shutdown_async_generators, 'done')


def leaves(model, depth, path):
    """Every history of the given depth."""
    if len(path) == depth:
        yield tuple(path)
        return
    for operation in model.enabled():
        new = model.copy()
        new.apply(operation)
        path.append(operation)
        yield from leaves(new, depth, path)
        path.pop()


def compare(real, model, where):
    if sorted(real.log) != sorted(model.log):
        raise Violation(f'finalizing {where[-1][0]}', f'finalizing done: {real.log!r}, it should be: {model.log!r} | history: {where!r}', ['generators', where])
    for identifier in {identifier for identifier, _ in model.log}:
        seen = [what for other, what in real.log if other == identifier]
        if seen != ['begin', 'end'][:len(seen)]:
            raise Violation('finalizing order', f'finalizing of {identifier}: {seen!r} | history: {where!r}', ['generators', where])
    if real.results != model.results:
        raise Violation(f'outcome {where[-1][0]}', f'outcomes: {real.results!r}, they should be: {model.results!r} | history: {where!r}', ['generators', where])


def generator_case(other, slots, path, stats):
    from scarletio import EventThread
    loop = EventThread(daemon = True)
    model = Model(slots, KINDS, ('main',))
    real = Real(loop, other)
    where = []

    def do(operation):
        where.append(operation)
        model.apply(operation)
        real.apply(operation)
        settle(loop)
        if operation[0] in ('drop', 'close', 'cancel'):
            gc.collect()
            settle(loop)
        # failures are reported in an executor's thread by the shutting down
        deadline = time.monotonic() + TIMEOUT
        while model.results.get('shutdown') == 'done' and real.results.get('shutdown') is None and time.monotonic() < deadline:
            time.sleep(0.001)
            settle(loop)
        compare(real, model, where)
        stats.transitions += 1

    try:
        for operation in path:
            do(operation)
        stats.state(model.key())
        for _ in range(3):
            if any(state == 'waiting' for _, state, *_ in model.generators):
                do(('open',))
            if any(state == 'finalizing' for _, state, *_ in model.generators):
                do(('release',))
        for slot, identifier in enumerate(model.slots):
            if identifier is not None:
                do(('drop', slot, 'main'))
        for _ in range(3):
            if any(state == 'finalizing' for _, state, *_ in model.generators):
                do(('release',))
        stats.evaluations += 1
        stats.nontrivial += bool(model.log)
        stats.outcome(str(len(model.log)))
    finally:
        end(loop, 'stop', f'the loop did not end after `stop` | history: {where!r}')


# --- results

OUTCOMES = ('value', 'none', 'false', 'failure', 'base', 'exit', 'cancelled', 'later', 'later failure', 'cancel itself', 'thread', 'inner')


def outcome_coroutine(outcome, log):
    from scarletio import CancelledError, get_event_loop, get_current_task, skip_ready_cycle

    async def main():
        loop = threading.current_thread()
        log.append(loop)
        try:
            if outcome.startswith('later'):
                await skip_ready_cycle()
                await skip_ready_cycle()
            if outcome in ('value', 'later'):
                return ('value', 12)
            if outcome == 'none':
                return None
            if outcome == 'false':
                return 0
            if outcome in ('failure', 'later failure'):
                raise Failure(outcome)
            if outcome == 'base':
                raise Base(outcome)
            if outcome == 'exit':
                raise SystemExit(3)
            if outcome == 'cancelled':
                raise CancelledError
            if outcome == 'cancel itself':
                loop.current_task.cancel()
                await skip_ready_cycle()
                await skip_ready_cycle()
                return 'not cancelled'
            if outcome == 'thread':
                return await loop.run_in_executor(lambda: ('value', 13))
            if outcome == 'inner':
                async def inner():
                    return ('value', 14)
                return await loop.create_task(inner())
        finally:
            log.append('end')

    return main()


def expected_of(outcome):
    if outcome in ('value', 'later'):
        return 'returned', ('value', 12)
    if outcome == 'none':
        return 'returned', None
    if outcome == 'false':
        return 'returned', 0
    if outcome in ('failure', 'later failure'):
        return 'raised', 'Failure', (outcome,)
    if outcome == 'base':
        return 'raised', 'Base', (outcome,)
    if outcome == 'exit':
        return 'raised', 'SystemExit', (3,)
    if outcome in ('cancelled', 'cancel itself'):
        return 'raised', 'CancelledError', ()
    if outcome == 'thread':
        return 'returned', ('value', 13)
    return 'returned', ('value', 14)


def attempt(function):
    try:
        result = function()
    except BaseException as exception:
        return 'raised', type(exception).__name__, exception.args
    return 'returned', result


def loops():
    from scarletio import EventThread
    return {thread for thread in threading.enumerate() if isinstance(thread, EventThread)}


APIS = ('loop.run', 'loop.run task', 'loop.run future', 'run_until_complete', 'run_until_complete task', 'asyncio.run', 'asyncio.run existing', 'asyncio.run factory', 'runner', 'runner factory', 'runner context')


def in_thread(function):
    """Runs the function in a fresh thread (which has no loop)."""
    box = []
    thread = threading.Thread(target = lambda: box.append(attempt(function)), daemon = True)
    thread.start()
    thread.join(TIMEOUT)
    if not box:
        return 'hangs',
    return box[0]


def result_case(api, first, second, stats):
    """Two things are run after each other."""
    from scarletio import EventThread, set_event_loop
    import asyncio
    before = loops()
    log = []
    made = []
    spec = ['results', api, first, second]

    def factory():
        made.append(EventThread(daemon = True))
        return made[-1]

    def body():
        got = []
        if api.startswith('loop.run') or api.startswith('run_until_complete'):
            loop = factory()
            for outcome in (first, second):
                coroutine = outcome_coroutine(outcome, log)
                if api.endswith('task'):
                    coroutine = loop.create_task_thread_safe(coroutine)
                elif api.endswith('future'):
                    coroutine = loop.ensure_future_thread_safe(coroutine)
                method = loop.run if api.startswith('loop.run') else loop.run_until_complete
                got.append(attempt(lambda: method(coroutine)))
            got.append(loop.is_stopped())
        elif api == 'asyncio.run':
            for outcome in (first, second):
                got.append(attempt(lambda: asyncio.run(outcome_coroutine(outcome, log))))
        elif api == 'asyncio.run factory':
            for outcome in (first, second):
                got.append(attempt(lambda: asyncio.run(outcome_coroutine(outcome, log), loop_factory = factory)))
        elif api == 'asyncio.run existing':
            loop = factory()
            set_event_loop(loop)
            for outcome in (first, second):
                got.append(attempt(lambda: asyncio.run(outcome_coroutine(outcome, log))))
            got.append(loop.is_stopped())
        else:
            runner = asyncio.Runner(loop_factory = factory if api == 'runner factory' else None)
            if api == 'runner context':
                with runner:
                    for outcome in (first, second):
                        got.append(attempt(lambda: runner.run(outcome_coroutine(outcome, log))))
            else:
                for outcome in (first, second):
                    got.append(attempt(lambda: runner.run(outcome_coroutine(outcome, log))))
                runner.close()
            coroutine = outcome_coroutine('value', [])
            got.append(attempt(lambda: runner.run(coroutine))[:2])
            coroutine.close()
        return got

    try:
        result = in_thread(body)
        if result[0] == 'hangs':
            raise Violation(f'hangs {api}', f'{api}: running {first!r}, then {second!r} did not end', spec)
        if result[0] != 'returned':
            raise Violation(f'fails {api}', f'{api}: running {first!r}, then {second!r}: {result!r}', spec)
        expected = [expected_of(first), expected_of(second)]
        if api.startswith(('loop.run', 'run_until_complete')) or api == 'asyncio.run existing':
            expected.append(False)
        elif api.startswith('runner'):
            expected.append(('raised', 'RuntimeError'))
        if result[1] != expected:
            raise Violation(f'result {api}', f'{api}: running {first!r}, then {second!r}: {result[1]!r}, it should be {expected!r}', spec)
        if [item for item in log if item == 'end'] != ['end', 'end']:
            raise Violation(f'ran {api}', f'{api}: running {first!r}, then {second!r}: {log!r}', spec)
        where = [item for item in log if item != 'end']
        own = api in ('asyncio.run', 'asyncio.run factory')
        if not all(isinstance(item, EventThread) for item in where) or (where[0] is where[1]) == own:
            raise Violation(f'where {api}', f'{api}: running {first!r}, then {second!r}: ran at {where!r}', spec)
        if made and set(where) != set(made):
            raise Violation(f'where {api}', f'{api}: running {first!r}, then {second!r}: ran at {where!r}, not at {made!r}', spec)
        if own or api.startswith('runner'):
            for loop in where:
                loop.join(TIMEOUT)
                if loop.is_alive():
                    raise Violation(f'still running {api}', f'{api}: running {first!r}, then {second!r}: the loop made for it still runs', spec)
    finally:
        for loop in loops() - before:
            loop.stop()
    stats.evaluations += 1
    stats.nontrivial += 1
    stats.transitions += 2
    stats.state(repr(spec))
    stats.outcome(repr(expected[0]))


def inside_case(api, stats):
    """Running from inside of a loop is refused: it could never end."""
    from scarletio import EventThread
    import asyncio
    loop = EventThread(daemon = True)
    other = EventThread(daemon = True)
    before = loops()
    ran = []

    async def inner():
        ran.append(None)

    def inside():
        coroutine = inner()
        if api == 'loop.run':
            function = lambda: loop.run(coroutine)
        elif api == 'run_until_complete':
            function = lambda: loop.run_until_complete(coroutine)
        elif api == 'run_forever':
            function = loop.run_forever
        elif api == 'asyncio.run':
            function = lambda: asyncio.run(coroutine)
        else:
            function = lambda: asyncio.Runner().run(coroutine)
        try:
            return attempt(function)[:2]
        finally:
            coroutine.close()

    async def main():
        return inside()

    try:
        result = in_thread(lambda: loop.run(main(), TIMEOUT))
        if result != ('returned', ('raised', 'RuntimeError')) or ran:
            raise Violation(f'inside {api}', f'{api} from inside of the loop: {result!r}', ['inside', api])
        settle(loop)
    finally:
        end(loop, 'stop', 'the loop did not end')
        end(other, 'stop', 'the loop did not end')
        for extra in loops() - before:
            extra.stop()
    stats.evaluations += 1
    stats.nontrivial += 1
    stats.outcome('inside')


def timeout_case(outcome, stats):
    """`run` with a timeout: the result if it is ready in time, else `TimeoutError` and the loop stays usable."""
    from scarletio import EventThread, Future
    loop = EventThread(daemon = True)
    log = []
    try:
        got = attempt(lambda: loop.run(outcome_coroutine(outcome, log), TIMEOUT))
        if got != expected_of(outcome):
            raise Violation('timeout result', f'running {outcome!r} with a timeout: {got!r}', ['timeout', outcome])
        future = Future(loop)

        async def stuck():
            await future

        got = attempt(lambda: loop.run(stuck(), 0.01))
        if got[:2] != ('raised', 'TimeoutError'):
            raise Violation('timeout', f'running something stuck with a timeout: {got!r}', ['timeout', outcome])
        got = attempt(lambda: loop.run(outcome_coroutine(outcome, log), TIMEOUT))
        if got != expected_of(outcome):
            raise Violation('timeout after', f'running {outcome!r} after a timeout: {got!r}', ['timeout', outcome])
    finally:
        end(loop, 'stop', 'the loop did not end')
    got = attempt(lambda: loop.run)[:2]
    if got != ('raised', 'RuntimeError'):
        raise Violation('run after stop', f'`run` of a stopped loop: {got!r}', ['timeout', outcome])
    stats.evaluations += 1
    stats.nontrivial += 1
    stats.outcome('timeout')


# --- which loop belongs to a thread

class Helper:
    """A thread doing what it is told."""
    def __init__(self):
        self.orders = queue.Queue()
        self.answers = queue.Queue()
        self.thread = threading.Thread(target = self.work, daemon = True)
        self.thread.start()

    def work(self):
        while True:
            function = self.orders.get()
            if function is None:
                return
            self.answers.put(attempt(function))

    def do(self, function):
        self.orders.put(function)
        return self.answers.get(timeout = TIMEOUT)

    def close(self):
        self.orders.put(None)
        self.thread.join(TIMEOUT)


REGISTRY = tuple(
    [(name, thread) for name in ('get', 'ensure', 'create', 'create daemon') for thread in (0, 1)] +
    [('set', thread, index) for thread in (0, 1) for index in (0, 1)] +
    [('stop', index) for index in (0, 1)] + [('inside', index) for index in (0, 1)] + [('set inside', 0)]
)


class RegistryModel:
    def __init__(self):
        self.linked = [None, None]
        self.loops = []     # [daemon, running]

    def copy(self):
        new = RegistryModel()
        new.linked = self.linked[:]
        new.loops = [loop[:] for loop in self.loops]
        return new

    def enabled(self, operation):
        if operation[0] == 'set':
            return operation[2] < len(self.loops)
        if operation[0] in ('stop', 'inside', 'set inside'):
            return operation[1] < len(self.loops) and self.loops[operation[1]][1]
        if operation[0] in ('create', 'create daemon', 'ensure'):
            return len(self.loops) < 3
        return True

    def allowed(self, thread):
        """The loops which can be given to the thread."""
        linked = self.linked[thread]
        if linked is not None and self.loops[linked][1]:
            return {linked}
        return {index for index, (daemon, running) in enumerate(self.loops) if running and not daemon}


def registry_case(path, stats):
    from scarletio import EventThread, create_event_loop, get_event_loop, get_or_create_event_loop, set_event_loop
    model = RegistryModel()
    real = []
    helpers = [Helper(), Helper()]
    where = []

    def wrong(what):
        return Violation(f'registry {where[-1][0]}', f'{what} | history: {where!r}', ['registry', where])

    def found(thread, result):
        """a loop was given to a thread"""
        allowed = model.allowed(thread)
        if result[0] != 'returned':
            if allowed or result[1] != 'RuntimeError':
                raise wrong(f'{result!r} although loops {allowed!r} could be given')
            return
        try:
            index = real.index(result[1])
        except ValueError:
            raise wrong(f'{result!r} is none of the loops') from None
        if index not in allowed:
            raise wrong(f'loop {index!r} was given, only {allowed!r} could be')
        model.linked[thread] = index

    def made(thread, loop, daemon):
        if not isinstance(loop, EventThread) or loop in real or loop.daemon != daemon:
            raise wrong(f'{loop!r} was created')
        real.append(loop)
        model.loops.append([daemon, True])
        settle(loop)

    try:
        for operation in path:
            where.append(operation)
            name = operation[0]
            if name == 'get':
                found(operation[1], helpers[operation[1]].do(get_event_loop))
            elif name == 'ensure':
                thread = operation[1]
                allowed = model.allowed(thread)
                result = helpers[thread].do(get_or_create_event_loop)
                if allowed:
                    found(thread, result)
                else:
                    if result[0] != 'returned':
                        raise wrong(f'{result!r}')
                    made(thread, result[1], False)
                    model.linked[thread] = len(real) - 1
            elif name in ('create', 'create daemon'):
                thread = operation[1]
                daemon = name == 'create daemon'
                result = helpers[thread].do(lambda: create_event_loop(daemon = daemon))
                if result[0] != 'returned':
                    raise wrong(f'{result!r}')
                allowed = model.allowed(thread)
                made(thread, result[1], daemon)
                if not allowed:
                    model.linked[thread] = len(real) - 1
                elif model.linked[thread] is None or not model.loops[model.linked[thread]][1]:
                    # some running loop is used from now on
                    if len(allowed) > 1:
                        return
                    model.linked[thread], = allowed
            elif name == 'set':
                _, thread, index = operation
                result = helpers[thread].do(lambda: set_event_loop(real[index]))
                if result != ('returned', None):
                    raise wrong(f'{result!r}')
                model.linked[thread] = index
            elif name == 'stop':
                index = operation[1]
                model.loops[index][1] = False
                end(real[index], 'stop', f'the loop did not end after `stop` | history: {where!r}')
                if real[index].is_stopped() is not True:
                    raise wrong('the loop is not stopped')
            else:
                index = operation[1]

                async def inside():
                    if name == 'inside':
                        return [attempt(get_event_loop), attempt(get_or_create_event_loop)]
                    return attempt(lambda: set_event_loop(real[-1]))

                result = attempt(lambda: real[index].run(inside(), TIMEOUT))
                if name == 'inside':
                    if result != ('returned', [('returned', real[index])] * 2):
                        raise wrong(f'{result!r}')
                elif result[0] != 'returned' or result[1][:2] != ('raised', 'RuntimeError'):
                    raise wrong(f'{result!r}')
            stats.transitions += 1
        # what each thread is told now
        for thread in (0, 1):
            where.append(('get', thread))
            found(thread, helpers[thread].do(get_event_loop))
        stats.evaluations += 1
        stats.nontrivial += bool(real)
        stats.state(repr((model.linked, model.loops)))
        stats.outcome(str(model.linked))
    finally:
        for loop in real:
            loop.stop()
        for helper in helpers:
            helper.close()
        for loop in real:
            loop.join(TIMEOUT)
        for loop in loops():
            if not loop.daemon:
                loop.stop()


def registry_leaves(depth, first):
    """Histories of the depth which can be (judged by what exists; `stop` and `create` change it)."""
    def extend(model, path):
        if len(path) == depth:
            yield tuple(path)
            return
        for operation in REGISTRY:
            if not path and operation != first:
                continue
            if not model.enabled(operation):
                continue
            new = model.copy()
            name = operation[0]
            if name in ('create', 'create daemon'):
                new.loops.append([name == 'create daemon', True])
                if not model.allowed(operation[1]):
                    new.linked[operation[1]] = len(new.loops) - 1
            elif name == 'ensure':
                if not model.allowed(operation[1]):
                    new.loops.append([False, True])
                    new.linked[operation[1]] = len(new.loops) - 1
            elif name == 'set':
                new.linked[operation[1]] = operation[2]
            elif name == 'stop':
                new.loops[operation[1]][1] = False
            path.append(operation)
            yield from extend(new, path)
            path.pop()

    yield from extend(RegistryModel(), [])


def tuples(value):
    return tuple(tuples(item) for item in value) if isinstance(value, (list, tuple)) else value


class LoopLifeCheck(Check):
    id = 'C32'
    rule = 'something was finalized or run, or a loop existed'
    job_timeout = {'quick': 400.0, 'thorough': 2700.0}
    assumptions = [
        'each operation is followed by letting the loop become idle (C10 checks the interleavings of threads); the garbage collector ran after references were dropped',
        'a generator is not closed while somebody waits for its next value',
    ]

    def setup(self):
        quiet_stderr()

    def spaces(self, thorough):
        for kind in KINDS:
            yield 1, 7 if thorough else 6, (kind,), ('main', 'loop', 'other')
        for kinds in (('gated', 'failing'), ('waiting', 'gated'), ('nested', 'plain')):
            yield 2, 6 if thorough else 5, kinds, ('main',)
        if thorough:
            yield 2, 5, KINDS, ('main', 'loop')

    def jobs(self, tier):
        thorough = tier != 'quick'
        jobs = []
        for slots, depth, kinds, places in self.spaces(thorough):
            model = Model(slots, kinds, places)
            for first in model.enabled():
                new = model.copy()
                new.apply(first)
                for second in new.enabled():
                    jobs.append(('generators', slots, depth, kinds, places, (first, second)))
        for api in APIS:
            jobs.append(('results', api))
        jobs.append(('inside',))
        for first in REGISTRY:
            if first[0] not in ('set', 'stop', 'inside', 'set inside'):
                jobs.append(('registry', 5 if thorough else 4, first))
        return jobs

    def run_job(self, job, stats, tier):
        from scarletio import EventThread
        import scarletio.ext.asyncio
        gc.collect()
        gc.freeze()
        gc.disable()
        if job[0] == 'generators':
            _, slots, depth, kinds, places, prefix = job
            model = Model(slots, kinds, tuples(places))
            for operation in tuples(prefix):
                model.apply(operation)
            other = EventThread(daemon = True)
            try:
                for path in leaves(model, depth, list(tuples(prefix))):
                    self.guarded(stats, lambda: generator_case(other, slots, path, stats))
                    if len(stats.violations) > 8:
                        return
            finally:
                other.stop()
        elif job[0] == 'results':
            for first, second in product(OUTCOMES, repeat = 2):
                self.guarded(stats, lambda: result_case(job[1], first, second, stats))
                if len(stats.violations) > 8:
                    return
        elif job[0] == 'inside':
            for api in ('loop.run', 'run_until_complete', 'run_forever', 'asyncio.run', 'runner'):
                self.guarded(stats, lambda: inside_case(api, stats))
            for outcome in OUTCOMES:
                self.guarded(stats, lambda: timeout_case(outcome, stats))
        else:
            for path in registry_leaves(job[1], tuples(job[2])):
                self.guarded(stats, lambda: registry_case(path, stats))
                if len(stats.violations) > 8:
                    return
        stats.sample(repr(job))

    def guarded(self, stats, function):
        try:
            function()
        except Violation as violation:
            stats.violate(violation.key, violation.message, violation.artefact)
        gc.collect()

    def replay(self, job, artefact, stats):
        from scarletio import EventThread
        import scarletio.ext.asyncio
        artefact = tuples(artefact)
        if artefact[0] == 'generators':
            other = EventThread(daemon = True)
            try:
                self.guarded(stats, lambda: generator_case(other, 2, artefact[1], stats))
            finally:
                other.stop()
        elif artefact[0] == 'results':
            self.guarded(stats, lambda: result_case(*artefact[1:], stats))
        elif artefact[0] == 'inside':
            self.guarded(stats, lambda: inside_case(artefact[1], stats))
        elif artefact[0] == 'timeout':
            self.guarded(stats, lambda: timeout_case(artefact[1], stats))
        else:
            self.guarded(stats, lambda: registry_case(artefact[1], stats))


CHECK = LoopLifeCheck()
