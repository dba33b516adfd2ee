"""
C02: a requested cancellation or timeout of a task is always delivered, and surfaces what was requested.

Small coroutine programs (every pair of suspension kinds, every way of handling the cancellation) run on the real loop;
the environment resolves what they wait for and requests cancellations / timeouts at every callback boundary.
"""
import gc
from itertools import product

from mc.base import CLOCK, Check, Violation
from mc.explore import Chooser, explore
from mc.vloop import Env, callback_errors, quiet_stderr


class E1(Exception):
    pass


class E2(Exception):
    pass


KINDS = (
    'future',     # awaits a future which the environment resolves
    'sleep',      # sleeps 1 second
    'cycle',      # skips a ready cycle
    'task',       # awaits a sub-task which awaits a future of the environment
    'shield',     # awaits a shielded future of the environment
    'completion', # waits only for the completion of a future of the environment
    'done',       # awaits a completed future
    'self',       # requests its own cancellation
)
HANDLERS = ('plain', 'finally', 'suppress', 'translate', 'nested')
REQUESTS = (
    (),
    ('cancel',),
    ('cancel_with',),
    ('timeout',),
    ('cancel', 'cancel'),
    ('cancel', 'cancel_with'),
    ('cancel_with', 'cancel'),
    ('cancel_with', 'cancel_with'),
    ('timeout', 'cancel'),
    ('timeout', 'cancel_with'),
)


def execute(chooser, kinds, handler, requests, stats):
    from scarletio import CancelledError, Future, Task, shield, skip_ready_cycle, sleep
    env = Env(chooser)
    loop = env.loop
    box = {}
    seen = []       # what the coroutine observed
    requested = []  # accepted requests
    self_requested = []
    errors = []
    completions = []
    finals = [0]
    awaited_at_request = []
    external = []
    protected = []
    sub_tasks = []
    current = [None]

    def new_external():
        future = Future(loop)
        external.append(future)
        return future

    async def sub(future):
        return await future

    async def suspend(kind, index):
        if kind == 'future':
            future = futures[index]
            current[0] = future
            await future
        elif kind == 'sleep':
            await sleep(1.0, loop)
        elif kind == 'cycle':
            await skip_ready_cycle()
        elif kind == 'task':
            task = Task(loop, sub(futures[index]))
            sub_tasks.append(task)
            current[0] = task
            await task
        elif kind == 'shield':
            protected.append(futures[index])
            await shield(futures[index], loop)
        elif kind == 'completion':
            current[0] = futures[index]
            await futures[index].wait_for_completion()
            # completion waiting does not raise the future's cancellation, give a point where it can be delivered
            if futures[index].is_cancelled():
                raise CancelledError
        elif kind == 'done':
            future = Future(loop)
            future.set_result(None)
            await future
        elif kind == 'self':
            self_requested.append('cancel')
            box['task'].cancel()
        current[0] = None

    async def body():
        for index, kind in enumerate(kinds):
            await suspend(kind, index)
        return 'value'

    async def main():
        if handler == 'plain':
            return await body()
        if handler == 'finally':
            try:
                return await body()
            finally:
                finals[0] += 1
        if handler == 'nested':
            return await Task(loop, body())
        if handler == 'suppress':
            try:
                return await body()
            except CancelledError:
                seen.append('cancelled')
                return 'suppressed'
        if handler == 'translate':
            try:
                return await body()
            except CancelledError:
                raise E2 from None

    def on_done(task):
        completions.append(CLOCK.now)

    outcome = []

    async def observer(task):
        try:
            result = await task
        except BaseException as exception:
            outcome.append(('raised', type(exception).__name__))
        else:
            outcome.append(('returned', result))

    deadlines = []
    has_request = [False]

    def request(name):
        def operation():
            task = box['task']
            was_done = task.is_done()
            waited = current[0]
            if waited is not None and not was_done and not waited.is_done() and handler != 'nested':
                waited_pending = waited
            else:
                waited_pending = None

            if name == 'cancel':
                accepted = task.cancel()
            elif name == 'cancel_with':
                accepted = task.cancel_with(E1)
            else:
                accepted = task.apply_timeout(0.5)
            if accepted != (0 if was_done else 1):
                errors.append(f'{name} returned {accepted} on a {"done" if was_done else "pending"} task')
            if accepted:
                if name == 'timeout':
                    deadlines.append(CLOCK.now + 0.5)
                else:
                    requested.append(name)
                    if waited_pending is not None:
                        awaited_at_request.append(waited_pending)
        return operation

    def resolve(index):
        def operation():
            futures[index].set_result_if_pending(index)
        return operation

    futures = []

    def setup():
        for kind in kinds:
            futures.append(new_external() if kind in ('future', 'task', 'shield', 'completion') else None)
        box['task'] = task = Task(loop, main())
        task.add_done_callback(on_done)
        Task(loop, observer(task))

    resolvers = [
        resolve(index) for index, kind in enumerate(kinds) if kind in ('future', 'task', 'shield', 'completion')
    ]
    if resolvers:
        env.actor(*resolvers)
    if requests:
        env.actor(*(request(name) for name in requests))

    env.run(setup)
    stats.evaluations += 1
    stats.transitions += env.steps

    task = box['task']

    def fail(message):
        raise Violation(
            f'cancellation:{"+".join(kinds)}:{handler}:{"+".join(requests)}',
            f'{message}; kinds={kinds} handler={handler} requests={requests} accepted={requested} '
            f'schedule={chooser.choices()} outcome={outcome}',
            [list(kinds), handler, list(requests), chooser.choices()],
        )

    if errors:
        fail(errors[0])
    if env.finished == 'livelock':
        fail('livelock')
    escaped = callback_errors(env)
    if escaped:
        fail(f'exception escaped a callback: {escaped[0]!r}')
    if not task.is_done():
        fail('the task never finished though everything it waits for is resolved')
    if len(completions) != 1:
        fail(f'done callback called {len(completions)} times')
    if len(outcome) != 1:
        fail('the awaiter of the task was not woken exactly once')

    finished_at = completions[0]
    fired = [deadline for deadline in deadlines if finished_at > deadline - 1e-6]
    if any(finished_at > deadline + 1e-6 for deadline in deadlines) and handler in ('plain', 'finally', 'nested'):
        fail('the task outlived its timeout')

    result = outcome[0]
    allowed_exceptions = set()
    if 'cancel' in requested or self_requested:
        allowed_exceptions.add('CancelledError')
    if 'cancel_with' in requested:
        allowed_exceptions.add('E1')
        allowed_exceptions.discard('CancelledError')
    if fired:
        allowed_exceptions.add('TimeoutError')

    if handler in ('plain', 'finally', 'nested'):
        must = bool(requested or self_requested)
        if must:
            if fired and result == ('raised', 'CancelledError') and not ('cancel_with' in requested):
                pass
            elif result[0] != 'raised' or result[1] not in allowed_exceptions:
                fail(f'cancellation lost: expected one of {sorted(allowed_exceptions)}')
            if not task.is_cancelled():
                fail('the task is not marked as cancelled')
        elif fired:
            if result not in (('raised', 'TimeoutError'), ('returned', 'value')):
                fail('unexpected outcome with a timeout')
            if result == ('returned', 'value') and finished_at > min(deadlines) + 1e-6:
                fail('timeout lost')
        else:
            if result != ('returned', 'value'):
                fail('unexpected outcome without any request')
            if task.is_cancelled():
                fail('marked as cancelled without a request')
        if handler == 'finally' and finals[0] != 1:
            # the coroutine may be cancelled before it is started
            if not (finals[0] == 0 and must):
                fail(f'clean-up ran {finals[0]} times')
    elif handler == 'suppress':
        if result == ('returned', 'suppressed'):
            if not (requested or self_requested or fired):
                fail('cancelled without a request')
        elif result == ('returned', 'value'):
            if requested or (self_requested and kinds[-1] != 'self'):
                fail('cancellation lost')
        elif result[0] == 'raised':
            if result[1] not in allowed_exceptions and not (fired and result[1] == 'CancelledError'):
                fail('unexpected exception')
        else:
            fail('unexpected outcome')
    elif handler == 'translate':
        if result == ('raised', 'E2'):
            if not (requested or self_requested or fired):
                fail('cancelled without a request')
            # an exception of the coroutine itself wins over the cancellation
        elif result == ('returned', 'value'):
            if requested or self_requested:
                fail('cancellation lost')
        elif result[0] == 'raised':
            if result[1] not in allowed_exceptions and not (fired and result[1] == 'CancelledError'):
                fail('unexpected exception')

    for future in awaited_at_request:
        if not future.is_cancelled():
            fail('what the task was directly waiting for was not cancelled')
    for future in protected:
        if future.is_cancelled():
            fail('a shielded future was cancelled')

    stats.outcome((kinds, handler, result[1], len(requested), bool(fired)))
    if requested or fired:
        stats.nontrivial += 1
    stats.state((kinds, handler, requests, tuple(item[0] for item in chooser.trace)))


DURATIONS = (0.4, 0.9, 1.5)


def repeat(durations, ending, requested_at, request, stats):
    """
    `repeat_timeout(1.0)`: the iterations take `durations`, then `ending`; the task is cancelled at `requested_at`.
    """
    from scarletio import CancelledError, Task, repeat_timeout, sleep
    env = Env(Chooser())
    loop = env.loop
    observed = []

    async def work():
        try:
            with repeat_timeout(1.0) as iterator:
                index = 0
                for _ in iterator:
                    if index == len(durations):
                        break
                    index += 1
                    await sleep(durations[index - 1], loop)
                if ending == 'raise':
                    raise E2
                if ending == 'after':
                    await sleep(0.8, loop)
                if ending == 'long':
                    await sleep(1.4, loop)
        except BaseException as exception:
            observed.append((round(CLOCK.now - 1000.0, 4), type(exception).__name__))
        else:
            observed.append((round(CLOCK.now - 1000.0, 4), None))
        try:
            # it must not affect what follows
            await sleep(5.0, loop)
        except BaseException as exception:
            observed.append((round(CLOCK.now - 1000.0, 4), type(exception).__name__))

    def setup():
        task = Task(loop, work())
        if requested_at is not None:
            if request == 'cancel':
                loop.call_after(requested_at, task.cancel)
            else:
                loop.call_after(requested_at, task.cancel_with, E1)

    env.run(setup)

    # model
    end = 0.0
    outcome = None
    last = 0.0
    for duration in durations:
        last = end
        if duration > 1.0:
            end += 1.0
            outcome = 'TimeoutError'
            break
        end += duration
    else:
        last = end
        if ending == 'raise':
            outcome = 'E2'
        elif ending == 'after':
            end += 0.8
        elif ending == 'long':
            end += 1.0
            outcome = 'TimeoutError'
    expected = []
    wanted = 'CancelledError'
    if requested_at is not None and requested_at < end:
        expected.append((round(requested_at, 4), wanted))
    else:
        expected.append((round(end, 4), outcome))
        if requested_at is not None and requested_at < end + 5.0:
            expected.append((round(requested_at, 4), wanted))
    stats.evaluations += 1
    stats.transitions += env.steps
    case = ['repeat', list(durations), ending, requested_at, request]
    stats.state(case)
    stats.outcome(('repeat', tuple(name for at, name in observed)))
    if len(observed) != len(expected) or any(
        name != name_ or abs(at - at_) > 0.01 for (at, name), (at_, name_) in zip(observed, expected)
    ):
        raise Violation(f'repeat_timeout:{case[1:]}', f'{case}: observed {observed}, expected {expected}', case)
    escaped = callback_errors(env)
    if escaped:
        raise Violation(f'repeat_timeout:{case[1:]}', f'{case}: exception escaped a callback: {escaped[0]!r}', case)


class CancellationCheck(Check):
    id = 'C02'
    rule = (
        'for every pair (triple in thorough) of suspension kinds x way of handling x list of requests: every placement of '
        'the environment operations (resolving what is awaited, requesting cancellation / timeout) at the callback '
        'boundaries of the loop; every list of iteration lengths of repeat_timeout with a cancellation at every time of a grid; a state is one complete schedule, a transition one loop step'
    )
    assumptions = ['requests come from the thread of the loop', 'the clock and the selector are simulated']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        if tier == 'quick':
            sets = [(kind,) for kind in KINDS] + list(product(KINDS, repeat = 2))
        else:
            sets = [(kind,) for kind in KINDS] + list(product(KINDS, repeat = 2)) + list(product(KINDS, repeat = 3))
        jobs = [(kinds, handler) for kinds in sets for handler in HANDLERS]
        for count in range(4 if tier == 'quick' else 6):
            jobs.extend(('repeat', durations) for durations in product(DURATIONS, repeat = count))
        return jobs

    def run_job(self, job, stats, tier):
        if job[0] == 'repeat':
            for ending in ('break', 'raise', 'after', 'long'):
                for request in ('cancel', 'cancel_with'):
                    times = [None, *(0.05 + 0.1 * index for index in range(50))]
                    for requested_at in times:
                        try:
                            repeat(job[1], ending, requested_at, request, stats)
                        except Violation as violation:
                            stats.violate(violation.key, violation.message, violation.artefact)
            return
        kinds, handler = job
        kinds = tuple(kinds)
        for requests in REQUESTS:
            def run(chooser):
                try:
                    execute(chooser, kinds, handler, requests, stats)
                except Violation as violation:
                    stats.violate(violation.key, violation.message, violation.artefact)
                if not stats.evaluations % 300:
                    gc.collect()
            bound = None if (tier == 'quick' and len(requests) < 2) else (3 if len(kinds) == 2 else 2)
            if tier == 'thorough':
                bound = None if len(kinds) < 3 else 3
            explore(run, bound = bound)
        stats.sample([list(kinds), handler, list(requests)])

    def replay(self, job, artefact, stats):
        if artefact[0] == 'repeat':
            return repeat(tuple(artefact[1]), *artefact[2:], stats)
        kinds, handler, requests, choices = artefact
        execute(Chooser(tuple(choices)), tuple(kinds), handler, tuple(requests), stats)


CHECK = CancellationCheck()
