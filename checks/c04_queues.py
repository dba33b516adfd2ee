"""
C04: async queues: every accepted element is delivered exactly once, in order, within the capacity, and nobody waits
needlessly - under every schedule and cancellation.
"""
import gc
from itertools import combinations, product

from mc.base import Check, Violation
from mc.explore import Chooser, explore
from mc.vloop import Env, callback_errors, quiet_stderr


class Ending(Exception):
    pass


def execute(chooser, spec, stats):
    from scarletio import AsyncLifoQueue, AsyncQueue, CancelledError, Task
    lifo, max_length, initial, getters, putters, sync_puts, no_waits, cancels, ending = spec
    env = Env(chooser)
    loop = env.loop
    problems = []
    accepted = []           # in the order of acceptance
    taken = []              # in the order of delivery
    tasks = {}
    waiting_since = {}      # getter -> how many were accepted when it started to wait
    waiting_putters = set()
    cancelled = set()
    outcomes = {}
    ended = [False]
    given_up = set()

    box = {}

    def accept(element):
        accepted.append(element)

    def remaining():
        return [element for element in accepted if element not in taken]

    def deliver(who, element, at_start):
        if element in taken:
            problems.append(f'{element!r} was delivered twice')
            return
        if element not in accepted:
            # set_result_wait may deliver just before it returns
            pending = [name for name in waiting_putters if element == name]
            if not pending:
                problems.append(f'{element!r} was delivered but never accepted')
                return
            accept(element)
        rest = remaining()
        if lifo:
            allowed = [rest[-1]]
            if at_start is not None:
                # It waited; whatever arrived since is fine
                allowed += accepted[at_start:]
        else:
            allowed = [rest[0]]
        if element not in allowed:
            problems.append(f'{who} got {element!r}, but {allowed!r} was next of {rest!r}')
        taken.append(element)

    def check_size(where):
        if max_length is not None and len(box['queue']) > max_length:
            problems.append(f'{where}: holds {len(box["queue"])} elements, limit is {max_length}')

    def ended_early(name):
        if len(box['queue']) or not ended[0]:
            problems.append(f'{name} was ended while the queue is not exhausted or not ended')

    async def getter(name, kind, count):
        queue = box['queue']
        got = []
        outcomes[name] = got
        try:
            if kind == 'for':
                start = len(accepted) if not remaining() else None
                waiting_since[name] = start
                async for element in queue:
                    deliver(name, element, start)
                    got.append(element)
                    check_size(name)
                    if len(got) == count:
                        break
                    start = len(accepted) if not remaining() else None
                else:
                    got.append('stopped')
                    ended_early(name)
            else:
                for _ in range(count):
                    start = len(accepted) if not remaining() else None
                    waiting_since[name] = start
                    if kind == 'await':
                        element = await queue
                    else:
                        element = await queue.get_result()
                    deliver(name, element, start)
                    got.append(element)
                    check_size(name)
        except Ending:
            got.append('ending')
            ended_early(name)
        except CancelledError:
            got.append('cancelled')
            raise
        finally:
            waiting_since.pop(name, None)

    async def putter(name, element):
        queue = box['queue']
        waiting_putters.add(element)
        try:
            state = await queue.set_result_wait(element)
        finally:
            waiting_putters.discard(element)
        check_size(name)
        outcomes[name] = state
        if state in (0, 2):
            if element not in accepted:
                accept(element)
        elif state == 1:
            if element in accepted:
                problems.append(f'{element!r} was delivered but reported as not set')
            if not ended[0]:
                problems.append(f'waiting for room for {element!r} was given up without the queue being ended')
        else:
            problems.append(f'set_result_wait returned {state!r}')

    def sync_put(element):
        def operation():
            queue = box['queue']
            length = len(queue)
            state = queue.set_result(element)
            if state == 0:
                accept(element)
            elif state == 1:
                if max_length is None or length < max_length:
                    problems.append(f'{element!r} was refused with {length} elements, limit is {max_length}')
            else:
                problems.append(f'set_result returned {state!r}')
            check_size('set_result')
        return operation

    def no_wait():
        queue = box['queue']
        length = len(queue)
        try:
            element = queue.get_result_no_wait()
        except IndexError:
            if length:
                problems.append('get_result_no_wait raised IndexError on a non empty queue')
        except (Ending, CancelledError):
            if length or not ended[0]:
                problems.append('get_result_no_wait raised the exception of the queue while it is not exhausted')
        else:
            deliver('no_wait', element, None)

    def cancel(name):
        def operation():
            if tasks[name].cancel():
                cancelled.add(name)
        return operation

    def end():
        ended[0] = True
        given_up.update('p' + element[1:] for element in waiting_putters)
        if ending == 'exception':
            box['queue'].set_exception(Ending)
        else:
            box['queue'].set_exception(CancelledError())

    def setup():
        elements = [f'i{index}' for index in range(initial)]
        queue_type = AsyncLifoQueue if lifo else AsyncQueue
        box['queue'] = queue_type(loop, elements, max_length)
        for element in elements:
            accept(element)
        for index, (kind, count) in enumerate(getters):
            name = f'g{index}'
            tasks[name] = Task(loop, getter(name, kind, count))
        for index in range(putters):
            name = f'p{index}'
            tasks[name] = Task(loop, putter(name, f'w{index}'))

    if sync_puts:
        env.actor(*(sync_put(f's{index}') for index in range(sync_puts)))
    if no_waits:
        env.actor(*(no_wait for _ in range(no_waits)))
    for name in cancels:
        env.actor(cancel(name))
    if ending is not None:
        env.actor(end)
    env.run(setup)
    stats.evaluations += 1
    stats.transitions += env.steps

    queue = box['queue']
    length = len(queue)

    def fail(message):
        raise Violation(
            f'queue:{spec!r}',
            f'{message}; spec={spec} accepted={accepted} delivered={taken} outcomes={outcomes} '
            f'schedule={chooser.choices()}',
            [spec, chooser.choices()],
        )

    if problems:
        fail(problems[0])
    if env.finished == 'livelock':
        fail('livelock')
    escaped = callback_errors(env)
    if escaped:
        fail(f'exception escaped a callback: {escaped[0]!r}')

    if length != len(accepted) - len(taken):
        fail(f'{len(accepted)} accepted, {len(taken)} delivered, but {length} left in the queue')

    for name, task in tasks.items():
        if name in cancelled:
            if not task.is_done():
                fail(f'{name} was cancelled, but is still waiting')
            if not task.is_cancelled():
                fail(f'{name} was cancelled, but did not end as cancelled')
            continue
        if not task.is_done():
            if name.startswith('g'):
                if length:
                    fail(f'{name} is waiting for an element while {length} are available')
                if ended[0]:
                    fail(f'{name} is waiting on an ended queue')
            else:
                if max_length is None or length < max_length:
                    fail(f'{name} is waiting for room while there is')
                if name in given_up:
                    fail(f'{name} is still waiting for room, although the queue ended meanwhile')
            continue
        if task.is_cancelled():
            fail(f'{name} was cancelled by something else')
        exception = task.get_exception()
        if exception is not None:
            fail(f'{name} failed with {exception!r}')

    stats.outcome((lifo, max_length, tuple(accepted), tuple(taken), length, tuple(sorted(cancelled))))
    if taken:
        stats.nontrivial += 1
    stats.state((spec, tuple(item[0] for item in chooser.trace)))


def specs(tier):
    result = []
    kinds = ('await', 'get', 'for')
    for lifo in (False, True):
        # one getter
        for max_length in (None, 1, 2):
            for kind in kinds:
                for putters, sync_puts, initial in ((0, 2, 0), (2, 0, 0), (1, 1, 0), (2, 0, 1), (1, 1, 1), (3, 0, 0)):
                    if max_length is None and putters > 1:
                        continue
                    for count in (1, 2):
                        for cancels in ((), ('g0',), ('p0',), ('p1',), ('g0', 'p0')):
                            if any(int(name[1:]) >= putters for name in cancels if name[0] == 'p'):
                                continue
                            for ending in (None, 'exception', 'cancel'):
                                if ending == 'cancel' and kind != 'for':
                                    continue
                                if ending is not None and len(cancels) > 1:
                                    continue
                                result.append(
                                    (lifo, max_length, initial, ((kind, count),), putters, sync_puts, 0, cancels, ending)
                                )
                if max_length is not None:
                    for cancels in ((), ('p0',)):
                        result.append((lifo, max_length, max_length, (), 2, 0, 2, cancels, None))
        # two getters
        for max_length in (None, 1, 2):
            for kind_0, kind_1 in (('await', 'await'), ('await', 'for'), ('for', 'get')):
                for putters, sync_puts in ((0, 2), (2, 0), (1, 2), (3, 0)):
                    for cancels in ((), ('g0',), ('g1',), ('g0', 'g1')):
                        for ending in (None, 'exception'):
                            result.append((
                                lifo, max_length, 0, ((kind_0, 1), (kind_1, 1)), putters, sync_puts, 0, cancels,
                                ending
                            ))
                    result.append((
                        lifo, max_length, 0, ((kind_0, 1), (kind_1, 1)), putters, sync_puts, 1, (), None
                    ))
    return result


class QueueCheck(Check):
    id = 'C04'
    rule = (
        'every combination of queue kind, capacity, getters, setters, cancelled participants and ending in the table; for '
        'each every placement (up to the deviation bound) of the puts, cancellations and ending at callback boundaries; '
        'a state is one complete schedule'
    )
    assumptions = ['single loop thread']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        return specs(tier)

    def run_job(self, job, stats, tier):
        def run(chooser):
            try:
                execute(chooser, job, stats)
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
            if not stats.evaluations % 300:
                gc.collect()
        explore(run, bound = 3 if tier == 'quick' else 5)
        stats.sample(job)

    def replay(self, job, artefact, stats):
        from mc.base import _untuple
        spec, choices = artefact
        execute(Chooser(tuple(choices)), _untuple(spec), stats)


CHECK = QueueCheck()
