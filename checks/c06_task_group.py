"""
C06: task groups: every future of a group is accounted for exactly once and every waiter resolves exactly when its
condition is met.

Explicit-state search: states are reached by operation histories replayed on a fresh real TaskGroup on the real loop;
after every operation and every loop run the group is compared with a reference model.
"""
import gc
from itertools import combinations_with_replacement, permutations

from mc.base import Check, Violation
from mc.explore import Chooser
from mc.vloop import Env, callback_errors, drive, quiet_stderr


class E1(Exception):
    pass


KINDS = (
    'next', 'first', 'first_pop', 'exception', 'exception_pop', 'either', 'either_pop', 'first_1', 'first_2', 'all',
    'exhaust',
)
OPERATIONS = (
    'run', 'complete0', 'complete1', 'complete2', 'add1', 'wait0', 'wait1', 'cancel0', 'cancel1', 'pop', 'cancel_pending',
    'cancel_all', 'fail_inside',
)
METHODS = {
    'next': ('wait_next',), 'first': ('wait_first',), 'first_pop': ('wait_first_and_pop',),
    'exception': ('wait_exception',), 'exception_pop': ('wait_exception_and_pop',),
    'either': ('wait_exception_or_cancellation',), 'either_pop': ('wait_exception_or_cancellation_and_pop',),
    'first_1': ('wait_first_n', 1), 'first_2': ('wait_first_n', 2), 'all': ('wait_all',),
}


class Model:
    def __init__(self, outcomes):
        self.planned = outcomes
        self.outcome = [None, None, None]
        self.place = ['pending', 'out', 'pending']  # out, pending, done, popped
        self.waiters = [None, None]                 # None, or [kind, status, count]; status: ('waiting',) ...
        self.queue = []                             # completions whose notification is due
        self.exhausted = []
        self.since_run = []

    def key(self):
        # Next to what the property can observe: which waiters have their clean-up still due, and whether exhausting started
        fresh = [operation for operation in self.since_run if operation.startswith(('wait', 'cancel'))]
        return repr((self.outcome, self.place, self.waiters, self.queue, fresh, sorted(self.exhausted)))

    def futures(self, place):
        return [index for index in range(3) if self.place[index] == place]

    def matches(self, kind, index):
        outcome = self.outcome[index]
        if kind.startswith('first'):
            return True
        if kind.startswith('exception'):
            return outcome == 'e'
        return outcome in 'ec'

    def processed(self, index):
        """The group learns that a future is done."""
        self.place[index] = 'done'
        pending = self.futures('pending')
        for waiter in self.waiters:
            if waiter is None or waiter[1] != ('waiting',):
                continue
            kind = waiter[0]
            if kind == 'exhaust':
                continue
            if kind == 'next':
                waiter[1] = ('value', None)
            elif kind == 'all':
                if not pending:
                    waiter[1] = ('value', None)
            elif kind in ('first_1', 'first_2'):
                waiter[2] += 1
                if waiter[2] >= int(kind[-1]):
                    waiter[1] = ('value', waiter[2])
            elif self.matches(kind, index):
                waiter[1] = ('future', index)
                if kind.endswith('_pop'):
                    self.place[index] = 'popped'
            elif not pending:
                waiter[1] = ('value', None)

    def registered(self, kind):
        """Returns the new waiter, or the set of futures it has to resolve to right away (as a list)."""
        done = self.futures('done')
        pending = self.futures('pending')
        if kind == 'next' or kind == 'exhaust':
            return [kind, ('waiting',), 0]
        if kind == 'all':
            return [kind, ('waiting',) if pending else ('value', None), 0]
        if kind in ('first_1', 'first_2'):
            count = len(done)
            return [kind, ('value', count) if count >= int(kind[-1]) else ('waiting',), count]
        candidates = [index for index in done if self.matches(kind, index)]
        if candidates:
            return [kind, ('any', candidates), 0]
        return [kind, ('waiting',) if pending else ('value', None), 0]


def run_history(history, kinds, outcomes, stats):
    """Returns (key of the state reached, enabled operations)."""
    from scarletio import CancelledError, Future, Task, TaskGroup
    env = Env(Chooser())
    loop = env.loop
    model = Model(outcomes)
    errors = []
    real = [None, None]
    enabled = []

    futures_box = []
    cancel_order = []

    class OrderedFuture(Future):
        __slots__ = ()
        def cancel(self):
            if not self.is_done():
                cancel_order.append(self)
            return Future.cancel(self)

    def fail(message):
        errors.append(message)

    async def exhaust(group, futures):
        async for future in group.exhaust():
            index = futures.index(future)
            if not future.is_done():
                fail(f'exhaust yielded the pending future {index}')
            if index in model.exhausted:
                fail(f'exhaust yielded {index} twice')
            model.exhausted.append(index)

    def status_of(waiter, futures):
        if not waiter.is_done():
            return ('waiting',)
        if waiter.is_cancelled():
            return ('cancelled',)
        if waiter.get_exception() is not None:
            return ('exception', repr(waiter.get_exception()))
        result = waiter.get_result()
        if isinstance(result, Future):
            return ('future', futures.index(result))
        return ('value', result)

    def compare(where, group, futures):
        done = sorted(futures.index(future) for future in group.done)
        pending = sorted(futures.index(future) for future in group.pending)
        if done != model.futures('done'):
            fail(f'{where}: done is {done}, expected {model.futures("done")}')
        if pending != model.futures('pending'):
            fail(f'{where}: pending is {pending}, expected {model.futures("pending")}')
        if sorted(futures.index(future) for future in group.iter_futures()) != sorted(done + pending):
            fail(f'{where}: iter_futures differs from done + pending')
        if group.has_done() != bool(done) or group.has_pending() != bool(pending):
            fail(f'{where}: has_done / has_pending differ')
        for index in range(2):
            waiter = model.waiters[index]
            if waiter is None or waiter[0] == 'exhaust':
                continue
            status = status_of(real[index], futures)
            if waiter[1] != status:
                fail(f'{where}: waiter {index} ({waiter[0]}) is {status}, expected {waiter[1]}')

    def complete(index, futures):
        outcome = model.planned[index]
        model.outcome[index] = outcome
        if model.place[index] == 'pending':
            model.queue.append(index)
        future = futures[index]
        if outcome == 'r':
            future.set_result(index)
        elif outcome == 'e':
            future.set_exception(E1(index))
        else:
            future.cancel()

    def cancel_all(where):
        # the order is up to the group
        order = [futures_box.index(future) for future in cancel_order]
        cancel_order.clear()
        for index in sorted(model.futures('pending'), key = lambda index: order.index(index) if index in order else 9):
            if model.outcome[index] is None:
                model.outcome[index] = 'c'
                model.queue.append(index)

    def driver():
        futures = [OrderedFuture(loop), OrderedFuture(loop), OrderedFuture(loop)]
        futures_box.extend(futures)
        group = TaskGroup(loop, [futures[0], futures[2]])
        repr(group)
        compare('initially', group, futures)
        for operation in history:
            stats.transitions += 1
            model.since_run.append(operation)
            if operation == 'run':
                yield
                model.since_run.clear()
                while model.queue:
                    model.processed(model.queue.pop(0))
                for index in range(2):
                    waiter = model.waiters[index]
                    if waiter is not None and waiter[0] == 'exhaust' and waiter[1] == ('waiting',):
                        # whatever is done was taken, ends with nothing pending
                        for future_index in model.futures('done'):
                            if future_index in model.exhausted:
                                model.place[future_index] = 'popped'
                        if not model.futures('pending'):
                            waiter[1] = ('value', None)
                            if not real[index].is_done():
                                fail('exhaust did not end with nothing pending')
                        elif real[index].is_done():
                            fail('exhaust ended with futures pending')
                    elif waiter is not None and waiter[0] == 'exhaust' and waiter[1] == ('cancelled',):
                        if not real[index].is_cancelled():
                            fail('exhaust is not cancelled')
                for index in model.exhausted:
                    if model.place[index] == 'done' and futures[index] not in group.done:
                        model.place[index] = 'popped'
            elif operation.startswith('complete'):
                complete(int(operation[-1]), futures)
            elif operation == 'add1':
                if group.add_future(futures[1]) is not futures[1]:
                    fail('add_future returned something else')
                if model.outcome[1] is None:
                    model.place[1] = 'pending'
                else:
                    model.processed(1)
            elif operation.startswith('wait'):
                index = int(operation[-1])
                kind = kinds[index]
                model.waiters[index] = model.registered(kind)
                if kind == 'exhaust':
                    real[index] = Task(loop, exhaust(group, futures))
                else:
                    method, *parameters = METHODS[kind]
                    waiter = real[index] = getattr(group, method)(*parameters)
                    status = model.waiters[index][1]
                    if status[0] == 'any':
                        got = status_of(waiter, futures)
                        if got[0] != 'future' or got[1] not in status[1]:
                            fail(f'{kind} resolved to {got}, expected one of {status[1]}')
                        else:
                            model.waiters[index][1] = got
                            if kind.endswith('_pop'):
                                model.place[got[1]] = 'popped'
            elif operation.startswith('cancel') and operation[-1].isdigit():
                index = int(operation[-1])
                real[index].cancel()
                model.waiters[index][1] = ('cancelled',)
            elif operation == 'pop':
                future = group.pop_done()
                expected = model.futures('done')
                if future is None:
                    if expected:
                        fail(f'pop_done gave nothing, expected one of {expected}')
                else:
                    index = futures.index(future)
                    if index not in expected:
                        fail(f'pop_done gave {index}, expected one of {expected}')
                    model.place[index] = 'popped'
            elif operation == 'cancel_pending':
                cancel_order.clear()
                group.cancel_pending()
                cancel_all(operation)
            elif operation == 'cancel_all':
                cancel_order.clear()
                group.cancel_all()
                cancel_all(operation)
            elif operation == 'fail_inside':
                cancel_order.clear()
                try:
                    manager = group.cancel_on_exception()
                    repr(manager)
                    with manager as entered:
                        if entered is not group:
                            fail('entering gave something else')
                        raise E1
                except E1:
                    pass
                else:
                    fail('the exception was swallowed')
                cancel_all(operation)
            compare(operation, group, futures)
            for index in range(3):
                if futures[index].is_done() != (model.outcome[index] is not None):
                    fail(f'{operation}: future {index} done: {futures[index].is_done()}, expected {model.outcome[index]}')
            if errors:
                return
        # what can come next
        if history and history[-1] != 'run':
            enabled.append('run')
        for index in range(3):
            if model.outcome[index] is None:
                enabled.append(f'complete{index}')
        if model.place[1] == 'out':
            enabled.append('add1')
        for index in range(2):
            if model.waiters[index] is None:
                if index == 0 or kinds[0] != kinds[1] or model.waiters[0] is not None:
                    enabled.append(f'wait{index}')
            elif model.waiters[index][1] == ('waiting',):
                enabled.append(f'cancel{index}')
        if model.futures('done'):
            enabled.append('pop')
        if any(model.outcome[index] is None for index in model.futures('pending')):
            enabled.append('cancel_pending')
            enabled.append('cancel_all')
            enabled.append('fail_inside')
        elif 'run' not in history:
            enabled.append('cancel_all')
        # silence
        for future in futures:
            future.silence()

    drive(env, driver())
    stats.evaluations += 1
    escaped = callback_errors(env)
    if escaped:
        fail(f'exception escaped a callback: {escaped[0]!r}')
    if env.finished == 'livelock':
        fail('livelock')
    if errors:
        raise Violation(
            f'group:{kinds}:{outcomes}:{",".join(history)}', f'{errors[0]}; after {history}', [kinds, outcomes, history]
        )
    return model.key(), enabled


class TaskGroupCheck(Check):
    id = 'C06'
    rule = (
        'breadth first over the operation histories on a group of three futures (result, exception, cancelled in every '
        'assignment) with every pair of waiter kinds; histories reaching the same model state with the same pending '
        'notifications are merged'
    )
    assumptions = ['a future is added to a group once', 'single loop thread']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        jobs = []
        for pair in combinations_with_replacement(KINDS, 2):
            if pair == ('exhaust', 'exhaust'):
                continue
            for outcomes in (('r', 'e', 'c'), ('c', 'r', 'e'), ('e', 'r', 'r'))[:2 if tier == 'quick' else 3]:
                jobs.append((pair, outcomes, 5 if tier == 'quick' else 6))
        return jobs

    def run_job(self, job, stats, tier):
        kinds, outcomes, depth = job
        seen = set()
        frontier = [()]
        level = 0
        while frontier:
            following = []
            for history in frontier:
                try:
                    key, enabled = run_history(history, kinds, outcomes, stats)
                except Violation as violation:
                    stats.violate(violation.key, violation.message, violation.artefact)
                    continue
                if not stats.evaluations % 500:
                    gc.collect()
                if key in seen:
                    continue
                seen.add(key)
                stats.state((kinds, outcomes, key))
                stats.outcome(key.split(']')[1])
                if len(history) < depth:
                    for operation in enabled:
                        following.append((*history, operation))
            frontier = following
            if len(stats.violations) > 20:
                break
        stats.sample([kinds, outcomes, list(history)])

    def replay(self, job, artefact, stats):
        kinds, outcomes, history = artefact
        run_history(tuple(history), tuple(kinds), tuple(outcomes), stats)


CHECK = TaskGroupCheck()
