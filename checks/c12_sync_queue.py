"""
C12: the thread safe queue hands every element out exactly once, in order, and wakes every waiter - whichever way the threads
using it are scheduled; used by one thread it is a (bounded) queue.
"""
from collections import deque

from mc.base import Violation
from mc.threadcheck import ThreadCheck

FILES = ('core/event_loop/executor.py',)


def scenario_use(context, preset, producers, consumers, cancels, checks):
    """
    producers : lists of elements put by each thread; consumers : amount of elements taken by each thread.
    """
    from scarletio.core.event_loop.executor import SyncQueue
    from scarletio import CancelledError
    queue = SyncQueue(preset) if preset else SyncQueue()
    got = [[] for _ in consumers]

    def producer(elements):
        def run():
            for element in elements:
                queue.set_result(element)
        return run

    def consumer(index, count):
        def run():
            for position in range(abs(count)):
                try:
                    if count < 0:
                        got[index].append(queue.get_result_no_wait())
                    else:
                        got[index].append(queue.get_result())
                except CancelledError:
                    got[index].append('cancelled')
                except IndexError:
                    got[index].append('empty')
        return run

    def cancel():
        queue.cancel()

    def check():
        lengths = (len(queue), bool(queue), repr(queue), len(queue.copy()))
        if lengths[0] > total or lengths[3] > total:
            context.problems.append(f'observed {lengths}')

    total = len(preset) + sum(len(elements) for elements in producers)
    threads = [(f'p{index}', producer(elements)) for index, elements in enumerate(producers)]
    threads.extend((f'c{index}', consumer(index, count)) for index, count in enumerate(consumers))
    threads.extend((f'x{index}', cancel) for index in range(cancels))
    threads.extend((f'r{index}', check) for index in range(checks))
    yield threads

    left = []
    while True:
        try:
            left.append(queue.get_result_no_wait())
        except (IndexError, CancelledError):
            break
    everything = [element for elements in got for element in elements if element not in ('cancelled', 'empty')]
    wanted = [*preset, *(element for elements in producers for element in elements)]
    if sorted(everything + left) != sorted(wanted):
        context.problems.append(f'put {wanted}, got {got}, left {left}')
    if not cancels and any('cancelled' in elements for elements in got):
        context.problems.append(f'cancelled though it was not: {got}')
    # Every consumer gets the elements of a producer in the order they were put, and nothing left precedes anything taken.
    for elements in producers:
        for taken in (*got, left):
            order = [element for element in taken if element in elements]
            if order != sorted(order, key = elements.index):
                context.problems.append(f'order of {elements} in {taken}')
        for element in left:
            later = [other for other in elements[elements.index(element) + 1:] if element in elements and other in everything] \
                if element in elements else []
            if later:
                context.problems.append(f'{element} is left, but {later} are taken')
    if len(consumers) == 1 and len(producers) == 1:
        flat = [element for element in got[0] if element not in ('cancelled', 'empty')]
        if flat + left != wanted:
            context.problems.append(f'with one producer and consumer: put {wanted}, got {got}, left {left}')
    for taken in got:
        if 'cancelled' in taken:
            index = taken.index('cancelled')
            if producers and not any(element not in ('cancelled',) for element in taken[index:]):
                continue
    context.results['got'] = got
    context.results['left'] = left


def scenario_wait(context, waiters, action):
    """A result waited for by more threads is got by all of them."""
    from scarletio.core.event_loop.executor import SyncWait
    from scarletio import CancelledError
    wait = SyncWait()
    got = [None] * waiters

    def waiter(index):
        def run():
            try:
                got[index] = ('ok', wait.wait())
            except CancelledError:
                got[index] = 'cancelled'
        return run

    def setter():
        if action == 'result':
            wait.set_result(5)
        else:
            wait.cancel()

    yield [*((f'w{index}', waiter(index)) for index in range(waiters)), ('setter', setter)]
    wanted = ('ok', 5) if action == 'result' else 'cancelled'
    if got != [wanted] * waiters:
        context.problems.append(f'got {got}')


SCENARIOS = {'use': scenario_use, 'wait': scenario_wait}

OPERATIONS = (
    ('set', 1), ('set', 2), ('take',), ('take_blocking',), ('cancel',), ('clear',), ('copy',), ('reverse',), ('repr',),
)


class Model:
    def __init__(self, elements, maximum, cancelled):
        self.elements = deque(elements, maximum)
        self.cancelled = cancelled


def render(model):
    text = ', '.join(map(repr, model.elements))
    result = f'SyncQueue([{text}]'
    if model.elements.maxlen is not None:
        result += f', max_length = {model.elements.maxlen}'
    if model.cancelled:
        result += ', cancelled'
    return result + ')'


def sequence(path, initial, maximum, cancelled, stats):
    from scarletio.core.event_loop.executor import SyncQueue
    from scarletio import CancelledError
    queue = SyncQueue(initial, max_length = maximum, cancelled = cancelled) if initial is not None else SyncQueue(
        max_length = maximum, cancelled = cancelled
    )
    model = Model(initial or (), maximum, cancelled)
    where = f'({initial}, {maximum}, {cancelled}) {path}'

    def fail(what):
        raise Violation(f'sequence:{where}', f'{where}: {what}')

    for operation in path:
        name = operation[0]
        stats.transitions += 1
        if name == 'set':
            queue.set_result(operation[1])
            model.elements.append(operation[1])
        elif name in ('take', 'take_blocking'):
            if name == 'take_blocking':
                if not model.elements and not model.cancelled:
                    continue
                method = queue.get_result
            else:
                method = queue.get_result_no_wait
            try:
                result = method()
            except CancelledError:
                result = 'cancelled'
            except IndexError:
                result = 'empty'
            if model.elements:
                wanted = model.elements.popleft()
            elif model.cancelled:
                wanted = 'cancelled'
            else:
                wanted = 'empty'
            if result != wanted:
                fail(f'{name} gave {result!r} instead of {wanted!r}')
        elif name == 'cancel':
            queue.cancel()
            model.cancelled = True
        elif name == 'clear':
            queue.clear()
            model.elements.clear()
        elif name == 'copy':
            copy = queue.copy()
            # the original must not notice what happens to the copy
            copy_text = repr(copy)
            previous = queue
            queue = copy
            previous.set_result(9)
            previous.cancel()
            if repr(queue) != copy_text:
                fail(f'the copy changed from {copy_text} to {queue!r}')
        elif name == 'reverse':
            queue.reverse()
            model.elements.reverse()
        if len(queue) != len(model.elements) or bool(queue) != bool(model.elements) or queue.max_length != maximum:
            fail(f'length {len(queue)}, {bool(queue)}, {queue.max_length}; expected {render(model)}')
        if repr(queue) != render(model):
            fail(f'{queue!r} instead of {render(model)}')
    stats.evaluations += 1
    stats.outcome(('sequence', render(model)))
    stats.state(where)


class SyncQueueCheck(ThreadCheck):
    id = 'C12'
    files = FILES
    scenarios = SCENARIOS

    def bound(self, spec, tier):
        if spec[0] == 'sequence':
            return 0
        threads = len(spec[2]) + len(spec[3]) + spec[4] + spec[5] if spec[0] == 'use' else 2
        if tier == 'quick':
            return 3 if threads < 3 else 2
        return 4 if threads < 3 else 3

    def specs(self, tier):
        result = []
        for preset in ((), (7,), (7, 8)):
            for producers in (((1,),), ((1, 2),), ((1,), (2,))):
                total = len(preset) + sum(map(len, producers))
                for consumers in ((1,), (2,), (1, 1), (-1,), (-1, 1), (-2,), (1, 1, 1)):
                    if sum(map(abs, consumers)) > total:
                        continue
                    if len(producers) + len(consumers) > 3 + (tier != 'quick'):
                        continue
                    result.append(('use', preset, producers, consumers, 0, 0))
                    if len(producers) + len(consumers) < 3:
                        result.append(('use', preset, producers, consumers, 0, 1))
        for preset in ((), (7,)):
            for producers in ((), ((1,),)):
                for consumers in ((1,), (1, 1), (2,), (-1,)):
                    if len(producers) + len(consumers) > 2 + (tier != 'quick'):
                        continue
                    result.append(('use', preset, producers, consumers, 1, 0))
                    if not producers:
                        result.append(('use', preset, producers, consumers, 2, 0))
        for waiters in (1, 2):
            for action in ('result', 'cancel'):
                result.append(('wait', waiters, action))
        for initial in (None, (), (3,), (3, 4)):
            for maximum in (None, 1, 2):
                for cancelled in (False, True):
                    result.append(('sequence', initial, maximum, cancelled, 4 if tier == 'quick' else 6))
        return result

    def run_job(self, job, stats, tier):
        spec, bound = job
        if spec[0] != 'sequence':
            return ThreadCheck.run_job(self, job, stats, tier)
        _, initial, maximum, cancelled, depth = spec
        import itertools
        for path in itertools.product(OPERATIONS, repeat = depth):
            try:
                sequence(path, initial, maximum, cancelled, stats)
            except Violation as violation:
                stats.violate('sequence', violation.message, path)
                return

    def replay(self, job, artefact, stats):
        spec, bound = job
        if spec[0] != 'sequence':
            return ThreadCheck.replay(self, job, artefact, stats)
        _, initial, maximum, cancelled, depth = spec
        try:
            sequence(tuple(tuple(item) for item in artefact), initial, maximum, cancelled, stats)
        except Violation as violation:
            stats.violate('sequence', violation.message)


CHECK = SyncQueueCheck()
