"""
C07: the scarlet executor limits parallelism, waits for everything it started, and never loses an exception or a
cancellation - for every completion order, failure and cancellation point.
"""
import gc
from itertools import product

from mc.base import Check, Violation
from mc.explore import Chooser, explore
from mc.vloop import Env, callback_errors, quiet_stderr


class E1(Exception):
    pass


class EBody(Exception):
    pass


def execute(chooser, spec, stats):
    from scarletio import CancelledError, Future, ScarletExecutor, Task
    limit, outcomes, body_end, outer_cancel, reuse = spec
    env = Env(chooser)
    loop = env.loop
    problems = []
    count = len(outcomes)
    box = {}
    gates = []
    running = set()
    high = [0]
    added = []      # tasks handed to the executor, in order
    ended = {}      # index -> how it ended
    first_failure = []
    trace = []
    left = [None]
    base = [0]
    abandoned = set()

    async def work(index):
        running.add(index)
        high[0] = max(high[0], len(running))
        try:
            outcome = await gates[index]
        except CancelledError:
            ended[index] = 'cancelled'
            raise
        finally:
            running.discard(index)
        if outcome == 'e':
            ended[index] = 'failed'
            exception = E1(index)
            if index >= base[0]:
                first_failure.append(exception)
            raise exception
        ended[index] = 'returned'
        return index

    async def session(indexes):
        async with ScarletExecutor(limit) as executor:
            box['executor'] = executor
            await fill(executor, indexes)

    async def fill(executor, indexes):
        for index in indexes:
            task = Task(loop, work(index))
            added.append(task)
            await executor.add(task)
            if len(running) > limit:
                problems.append(f'{len(running)} are running, limit is {limit}')
        if body_end == 'raise':
            raise EBody

    async def main():
        try:
            if reuse:
                half = count // 2
                executor = ScarletExecutor(limit)
                box['executor'] = executor
                try:
                    async with executor:
                        await fill(executor, range(half))
                except (E1, EBody):
                    trace.append('first ended')
                first_failure.clear()
                base[0] = half
                async with executor:
                    await fill(executor, range(half, count))
            else:
                await session(range(count))
        except BaseException as exception:
            left[0] = exception
            raise
        finally:
            # what is not finished when the executor is left has to be on its way to be cancelled
            trace.append(('left', sorted(running)))
            for index, task in enumerate(added):
                if task.is_done():
                    continue
                abandoned.add(index)
        return 'finished'

    def resolve(index):
        def operation():
            outcome = outcomes[index]
            gate = gates[index]
            if outcome == 'c':
                gate.cancel()
            else:
                gate.set_result_if_pending(outcome)
        return operation

    cancelled = [False]

    def cancel_outer():
        if box['main'].cancel():
            cancelled[0] = True

    def setup():
        for index in range(count):
            gate = Future(loop)
            gates.append(gate)
            if outcomes[index] == 'n':
                gate.set_result(None)
        box['main'] = Task(loop, main())

    for index in range(count):
        if outcomes[index] not in 'n':
            env.actor(resolve(index))
    if outer_cancel:
        env.actor(cancel_outer)
    env.run(setup)
    stats.evaluations += 1
    stats.transitions += env.steps

    def fail(message):
        raise Violation(
            f'scarlet:{spec!r}', f'{message}; spec={spec} ended={ended} schedule={chooser.choices()}',
            [spec, chooser.choices()],
        )

    if problems:
        fail(problems[0])
    if env.finished == 'livelock':
        fail('livelock')
    escaped = callback_errors(env)
    if escaped:
        fail(f'exception escaped a callback: {escaped[0]!r}')
    if high[0] > limit:
        fail(f'{high[0]} tasks were running at once, limit is {limit}')
    main_task = box['main']
    if not main_task.is_done():
        fail('the block never ended, although everything did')
    for index, task in enumerate(added):
        if not task.is_done():
            fail(f'task {index} never ended')
        if index in abandoned and not task.is_cancelled():
            fail(f'task {index} was not done when the executor was left, but was not cancelled either')
    if cancelled[0]:
        # Its request may meet a failure at the same time, but must not be swallowed
        if not main_task.is_cancelled():
            exception = main_task.get_exception()
            if exception is None:
                fail('the cancellation of the block was swallowed')
            if not (exception in first_failure or (isinstance(exception, EBody))):
                fail(f'the cancelled block ended with {exception!r}')
    else:
        if main_task.is_cancelled():
            fail('the block was cancelled by something else')
        exception = main_task.get_exception()
        if first_failure:
            if exception is None or not (exception in first_failure or isinstance(exception, EBody)):
                fail(f'the failure of a task was lost: the block ended with {exception!r}')
            if body_end != 'raise' and exception is not first_failure[0]:
                fail(f'the block ended with {exception!r}, the first failure is {first_failure[0]!r}')
        elif body_end == 'raise':
            if not isinstance(exception, EBody):
                fail(f'the block ended with {exception!r} instead of the exception of its body')
        else:
            if exception is not None:
                fail(f'the block ended with {exception!r} without any failure')
            if len(added) != count:
                fail(f'{len(added)} tasks were started out of {count}')
            for index in range(base[0], count):
                expected = 'cancelled' if outcomes[index] == 'c' else 'returned'
                if ended.get(index) != expected:
                    fail(f'task {index} ended as {ended.get(index)}')
    stats.outcome((tuple(sorted(ended.items())), type(left[0]).__name__, len(added), high[0]))
    stats.state((spec, tuple(item[0] for item in chooser.trace)))


def specs(tier):
    result = []
    sizes = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for size in sizes:
        for limit in (1, 2, 3):
            if limit > size + 1:
                continue
            for outcomes in product('recn', repeat = size):
                outcomes = ''.join(outcomes)
                for body_end in ('end', 'raise'):
                    for outer in (False, True):
                        result.append((limit, outcomes, body_end, outer, False))
                if size >= 2 and outcomes.count('n') == 0:
                    for body_end in ('end', 'raise'):
                        result.append((limit, outcomes, body_end, False, True))
    return result


class ScarletExecutorCheck(Check):
    id = 'C07'
    rule = (
        'every limit, every assignment of outcomes (returns, raises, is cancelled, is ready at once) to the tasks, every '
        'ending of the body; for each, every order and placement (up to the deviation bound) of the completions and of the '
        'outer cancellation at callback boundaries; a state is one complete schedule'
    )
    assumptions = ['one coroutine adds to the executor', 'single loop thread']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        return specs(tier)

    def run_job(self, job, stats, tier):
        def run(chooser):
            try:
                execute(chooser, job, stats)
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
            if not stats.evaluations % 300:
                gc.collect()
        explore(run, bound = (3 if len(job[1]) < 3 else 2) if tier == 'quick' else 4)
        stats.sample(job)

    def replay(self, job, artefact, stats):
        from mc.base import _untuple
        spec, choices = artefact
        execute(Chooser(tuple(choices)), _untuple(spec), stats)


CHECK = ScarletExecutorCheck()
