"""
C05: events wake exactly the ones waiting for them, and repeated timeouts end exactly the cycle which takes too long.
"""
import gc
from itertools import product

from mc.base import CLOCK, Check, Violation
from mc.explore import Chooser, explore
from mc.vloop import Env, callback_errors, quiet_stderr


def execute_event(chooser, spec, stats):
    from scarletio import CancelledError, Event, Task
    waiters, operations, cancels, rounds = spec
    env = Env(chooser)
    loop = env.loop
    box = {}
    problems = []
    tasks = {}
    cancelled = set()
    epoch = [0]                 # how many times was it set
    value = [False]
    records = {}                # name -> epochs at which it was allowed through

    async def waiter(name, kind):
        event = box['event']
        record = records[name] = []
        for _ in range(rounds):
            at_start = (value[0], epoch[0])
            record.append(['waiting', at_start])
            if kind == 'await':
                await event
            else:
                await event.wait()
            if not (at_start[0] or epoch[0] > at_start[1]):
                problems.append(f'{name} resumed without the event being set')
            record[-1][0] = 'resumed'

    def set_event():
        event = box['event']
        event.set()
        if not value[0]:
            value[0] = True
            epoch[0] += 1
        if event.is_set() is not True:
            problems.append('is_set() is false after set()')

    def clear_event():
        event = box['event']
        event.clear()
        value[0] = False
        if event.is_set() is not False:
            problems.append('is_set() is true after clear()')

    def cancel(name):
        def operation():
            if tasks[name].cancel():
                cancelled.add(name)
        return operation

    def setup():
        event = box['event'] = Event(loop)
        repr(event)
        if event.is_set():
            problems.append('a new event is set')
        for index, kind in enumerate(waiters):
            name = f'w{index}'
            tasks[name] = Task(loop, waiter(name, kind))

    env.actor(*({'s': set_event, 'c': clear_event}[letter] for letter in operations))
    for name in cancels:
        env.actor(cancel(name))
    env.run(setup)
    stats.evaluations += 1
    stats.transitions += env.steps

    def fail(message):
        raise Violation(
            f'event:{spec!r}', f'{message}; spec={spec} records={records} schedule={chooser.choices()}',
            ['event', spec, chooser.choices()],
        )

    if problems:
        fail(problems[0])
    if env.finished == 'livelock':
        fail('livelock')
    escaped = callback_errors(env)
    if escaped:
        fail(f'exception escaped a callback: {escaped[0]!r}')
    for name, task in tasks.items():
        if name in cancelled:
            if not task.is_cancelled():
                fail(f'{name} was cancelled, but did not end as cancelled')
            continue
        if task.is_done():
            if task.is_cancelled() or task.get_exception() is not None:
                fail(f'{name} failed: {task!r}')
            continue
        state, (was_set, at_epoch) = records[name][-1]
        if state != 'waiting':
            fail(f'{name} is neither waiting nor finished')
        if was_set or epoch[0] > at_epoch:
            fail(f'{name} is still waiting, although the event was set since')
    stats.outcome((epoch[0], value[0], sorted((name, len(record), record[-1][0] if record else None) for name, record in records.items())))
    stats.state((spec, tuple(item[0] for item in chooser.trace)))


TIMEOUT = 1.0


def execute_repeat(chooser, spec, stats):
    """A loop of cycles under `repeat_timeout`."""
    from scarletio import CancelledError, Task, repeat_timeout, sleep
    durations, ending, cancel_at, after = spec
    env = Env(chooser)
    loop = env.loop
    trace = []
    start = [None]
    box = {}

    def now():
        return round(CLOCK.now - start[0], 6)

    async def main():
        start[0] = CLOCK.now
        try:
            with repeat_timeout(TIMEOUT) as cycles:
                index = 0
                for _ in cycles:
                    if index == len(durations):
                        break
                    duration = durations[index]
                    index += 1
                    if duration:
                        await sleep(duration, loop)
                    trace.append(('cycle', index, now()))
                if ending == 'raise':
                    raise ValueError
        except TimeoutError:
            trace.append(('timeout', now()))
        except ValueError:
            trace.append(('raised', now()))
        except CancelledError:
            trace.append(('cancelled', now()))
        # nothing may be left behind
        try:
            await sleep(3.0, loop)
        except BaseException as exception:
            trace.append(('disturbed', type(exception).__name__, now()))
            raise
        trace.append(('end', now()))

    def setup():
        box['task'] = Task(loop, main())
        if cancel_at is not None:
            loop.call_after(cancel_at, box['task'].cancel)

    env.run(setup)
    stats.evaluations += 1
    stats.transitions += env.steps

    # reference
    expected = []
    time = 0.0
    ended = None
    for index, duration in enumerate(durations):
        finish = time + duration
        deadline = time + TIMEOUT
        limit = min(finish, deadline) if duration else time
        if cancel_at is not None and ended is None and time <= cancel_at < limit:
            ended = ('cancelled', round(cancel_at, 6))
            time = cancel_at
            break
        if duration > TIMEOUT:
            ended = ('timeout', round(deadline, 6))
            time = deadline
            break
        time = finish
        expected.append(('cycle', index + 1, round(time, 6)))
    if ended is None and ending == 'raise':
        ended = ('raised', round(time, 6))
    if ended is not None:
        expected.append(ended)
    if cancel_at is not None and cancel_at > time:
        if cancel_at < time + 3.0:
            expected.append(('disturbed', 'CancelledError', round(cancel_at, 6)))
        else:
            expected.append(('end', round(time + 3.0, 6)))
    else:
        expected.append(('end', round(time + 3.0, 6)))

    if trace != expected:
        raise Violation(
            f'repeat:{spec!r}', f'observed {trace}, expected {expected}; spec={spec}', ['repeat', spec, []]
        )
    escaped = callback_errors(env)
    if escaped:
        raise Violation(f'repeat:{spec!r}', f'exception escaped a callback: {escaped[0]!r}', ['repeat', spec, []])
    stats.outcome(('repeat', [item[0] for item in trace]))
    stats.state(('repeat', spec))


def specs(tier):
    result = []
    most = 5 if tier == 'quick' else 7
    alphabets = []
    for length in range(1, most + 1):
        for letters in product('sc', repeat = length):
            alphabets.append(''.join(letters))
    for operations in alphabets:
        for waiters in (('await',), ('wait',), ('await', 'wait'), ('await', 'await', 'wait')):
            if len(operations) > 3 and len(waiters) > 2:
                continue
            for cancels in ((), ('w0',), ('w1',)):
                if cancels == ('w1',) and len(waiters) < 2:
                    continue
                for rounds in (1, 2):
                    result.append(('event', (waiters, operations, cancels, rounds)))
    for length in range(0, 5 if tier == 'quick' else 6):
        for durations in product((0.0, 0.4, 0.9, 1.3), repeat = length):
            for ending in ('break', 'raise'):
                for cancel_at in (None, 0.2, 0.7, 1.15, 1.75):
                    result.append(('repeat', (durations, ending, cancel_at, 3.0)))
    return result


class EventCheck(Check):
    id = 'C05'
    rule = (
        'events: every sequence of set / clear up to the length placed (up to the deviation bound) at every callback '
        'boundary against every table of waiters and cancellations; repeated timeouts: every sequence of cycle durations, '
        'ending and outer cancellation time; a state is one complete schedule or one program'
    )
    assumptions = ['single loop thread']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        items = specs(tier)
        # group the short ones
        return [tuple(items[index:index + 16]) for index in range(0, len(items), 16)]

    def run_job(self, job, stats, tier):
        for kind, spec in job:
            function = execute_event if kind == 'event' else execute_repeat

            def run(chooser):
                try:
                    function(chooser, spec, stats)
                except Violation as violation:
                    stats.violate(violation.key, violation.message, violation.artefact)
                if not stats.evaluations % 300:
                    gc.collect()
            explore(run, bound = 3 if tier == 'quick' else 4)
            stats.sample([kind, spec])

    def replay(self, job, artefact, stats):
        from mc.base import _untuple
        kind, spec, choices = artefact
        function = execute_event if kind == 'event' else execute_repeat
        function(Chooser(tuple(choices)), _untuple(spec), stats)


CHECK = EventCheck()
