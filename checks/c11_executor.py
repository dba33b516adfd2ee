"""
C11: the executor runs every function given to it exactly once, on its threads, and reports its outcome - whichever way the
threads are scheduled; the threads come back and end.
"""
import threading

from mc.base import CLOCK
from mc.threadcheck import ThreadCheck

FILES = ('core/event_loop/executor.py',)


class E1(Exception):
    pass


def make(kind, index, context, box):
    calls = box['calls']

    def function():
        calls.append((index, threading.current_thread()))
        box['running'].add(index)
        try:
            if kind == 'raise':
                raise E1(index)
            if kind == 'stop':
                raise StopIteration(index)
            if kind == 'base':
                raise SystemExit(index)
            if kind == 'block':
                context.scheduler.block(lambda: 'release' in box)
            return index
        finally:
            box['running'].discard(index)
    return function


def expected_of(kind, index):
    if kind == 'raise':
        return ('E1', index)
    if kind == 'stop':
        return ('RuntimeError',)
    if kind == 'base':
        return ('SystemExit', index)
    return ('ok', index)


def finish(context, loop, box, used_after = True):
    """Everything is done: the threads have to be free, and to end after a while, or if the loop is stopped."""
    if used_after:
        context.quietly(lambda: context.settle(loop))
        context.quietly(lambda: settle_executors(context))
        context.quietly(lambda: context.settle(loop))
        if loop.get_used_executor_count():
            context.problems.append(f'{loop.get_used_executor_count()} executors are still used')


def settle_executors(context):
    from scarletio import EventThread
    scheduler = context.scheduler
    waiter = scheduler.current
    def settled():
        return all(
            record.finished or (record.blocked is not None and not record.blocked())
            for record in scheduler.records if record is not waiter
        )
    scheduler.block(settled)


def left_threads(context):
    from scarletio.core.event_loop.executor import ExecutorThread
    return [
        record.name for record in context.scheduler.records
        if isinstance(record.thread, ExecutorThread) and not record.finished
    ]


def check_calls(context, box, kinds, thread_check = None):
    for index in range(len(kinds)):
        count = sum(1 for index_, thread in box['calls'] if index_ == index)
        if count != 1:
            context.problems.append(f'function {index} was called {count} times')
    loop_threads = set(context.loops)
    for index, thread in box['calls']:
        if thread in loop_threads or thread.name in ('main', 'other'):
            context.problems.append(f'function {index} ran in {thread}')


def scenario_run(context, kinds):
    """`run_in_executor` with several functions at the same time."""
    box = {'calls': [], 'running': set()}
    outcomes = {}

    def main():
        loop = context.loop()

        async def work():
            futures = [loop.run_in_executor(make(kind, index, context, box)) for index, kind in enumerate(kinds)]
            if 'block' in kinds:
                # the others have to be able to finish meanwhile
                for index, (kind, future) in enumerate(zip(kinds, futures)):
                    if kind != 'block':
                        await future.wait_for_completion()
                box['release'] = True
            for index, future in enumerate(futures):
                try:
                    outcomes[index] = ('ok', await future)
                except BaseException as exception:
                    outcomes[index] = (type(exception).__name__, *(item for item in exception.args if isinstance(item, int)))

        context.results['main'] = context.result_of(lambda: loop.run(work()))
        finish(context, loop, box)
        context.quietly(context.stop)
        context.quietly(lambda: settle_executors(context))
        context.left = left_threads(context)

    yield [('main', main)]
    if context.results['main'] != ('ok', None):
        context.problems.append(f'failed: {context.results["main"]}')
    for index, kind in enumerate(kinds):
        if outcomes.get(index) != expected_of(kind, index):
            context.problems.append(f'function {index} ({kind}) gave {outcomes.get(index)}')
    check_calls(context, box, kinds)
    if context.left:
        context.problems.append(f'threads left after the loop stopped: {context.left}')


def scenario_cancel(context, first, second):
    """Giving up on a function; the next ones are not affected, even if that never finishes."""
    from scarletio import CancelledError
    box = {'calls': [], 'running': set()}
    outcomes = {}

    def main():
        loop = context.loop()

        async def work():
            given_up = loop.run_in_executor(make(first, 0, context, box))
            if second == 'later':
                from scarletio import skip_ready_cycle
                await skip_ready_cycle()
            given_up.cancel()
            try:
                await given_up
            except CancelledError:
                outcomes[0] = 'cancelled'
            except E1:
                outcomes[0] = 'raised'
            else:
                outcomes[0] = 'returned'
            outcomes[1] = await loop.run_in_executor(make('value', 1, context, box))
            outcomes[2] = await loop.run_in_executor(make('value', 2, context, box))
            box['release'] = True

        context.results['main'] = context.result_of(lambda: loop.run(work()))
        finish(context, loop, box)
        context.quietly(context.stop)
        context.quietly(lambda: settle_executors(context))
        context.left = left_threads(context)

    yield [('main', main)]
    if context.results['main'] != ('ok', None):
        context.problems.append(f'failed: {context.results["main"]}')
    if (outcomes.get(1), outcomes.get(2)) != (1, 2):
        context.problems.append(f'the other functions gave {outcomes}')
    for index in (1, 2):
        if [index_ for index_, thread in box['calls']].count(index) != 1:
            context.problems.append(f'calls: {box["calls"]}')
    if [index_ for index_, thread in box['calls']].count(0) > 1:
        context.problems.append(f'calls: {box["calls"]}')
    if second != 'later' and outcomes[0] != 'cancelled':
        context.problems.append(f'the given up one {outcomes[0]}')
    if context.left:
        context.problems.append(f'threads left after the loop stopped: {context.left}')


def scenario_claim(context, kinds, release, cancelled):
    """A claimed executor runs its functions in order on one thread, and comes back after it is released."""
    box = {'calls': [], 'running': set()}
    outcomes = {}
    order = []

    def main():
        loop = context.loop()

        async def work():
            claimed = loop.claim_executor()
            futures = []
            if release == 'context':
                with claimed:
                    futures.extend(claimed.execute(make(kind, index, context, box)) for index, kind in enumerate(kinds))
            elif release == 'after':
                futures.extend(claimed.execute(make(kind, index, context, box)) for index, kind in enumerate(kinds))
                for future in futures:
                    await future.wait_for_completion()
                claimed.release()
            else:
                futures.extend(claimed.execute(make(kind, index, context, box)) for index, kind in enumerate(kinds))
                claimed.release()
                claimed.release()
            if cancelled is not None:
                box['won'] = futures[cancelled].cancel()
            try:
                claimed.execute(make('value', 7, context, box))
            except RuntimeError:
                pass
            else:
                context.problems.append('executing on a released one is allowed')
            # An other function meanwhile; not allowed to be given to the same one while that has anything to do
            outcomes['other'] = await loop.run_in_executor(make('value', 8, context, box))
            box['release'] = True
            for index, future in enumerate(futures):
                try:
                    outcomes[index] = ('ok', await future)
                except BaseException as exception:
                    outcomes[index] = (type(exception).__name__, *(item for item in exception.args if isinstance(item, int)))

        context.results['main'] = context.result_of(lambda: loop.run(work()))
        finish(context, loop, box)
        context.quietly(context.stop)
        context.quietly(lambda: settle_executors(context))
        context.left = left_threads(context)

    yield [('main', main)]
    if context.results['main'] != ('ok', None):
        context.problems.append(f'failed: {context.results["main"]}')
    for index, kind in enumerate(kinds):
        expected = [expected_of(kind, index)]
        if index == cancelled and box.get('won'):
            expected = [('CancelledError',)]
        if outcomes.get(index) not in expected:
            context.problems.append(f'function {index} ({kind}) gave {outcomes.get(index)}, expected {expected}')
    if outcomes.get('other') != 8:
        context.problems.append('the other function did not run')
    calls = [index for index, thread in box['calls'] if index < 7]
    wanted = [*range(len(kinds))]
    if calls != wanted and not (cancelled is not None and calls == [index for index in wanted if index != cancelled]):
        context.problems.append(f'called in order {calls}')
    if len({thread for index, thread in box['calls'] if index < 7}) > 1:
        context.problems.append('the functions of a claimed executor ran in different threads')
    if context.left:
        context.problems.append(f'threads left after the loop stopped: {context.left}')


def scenario_idle(context, count):
    """Threads which are not used anymore are ended after a while; the executor is usable afterwards as well."""
    box = {'calls': [], 'running': set()}
    outcomes = []

    def main():
        from scarletio import sleep
        loop = context.loop()

        async def work(base):
            futures = [loop.run_in_executor(make('value', base + index, context, box)) for index in range(count)]
            outcomes.append([await future for future in futures])

        async def wait():
            await sleep(60.0, loop)

        loop.run(work(0))
        context.quietly(lambda: context.settle(loop))
        peak = loop.get_total_executor_count()
        if peak > count:
            context.problems.append(f'{peak} threads for {count} functions')
        context.quietly(lambda: loop.run(wait()))
        context.quietly(lambda: settle_executors(context))
        if loop.get_total_executor_count():
            context.problems.append(f'{loop.get_total_executor_count()} executors kept while idle')
        left = left_threads(context)
        if left:
            context.problems.append(f'threads left while idle: {left}')
        loop.run(work(count))
        context.quietly(context.stop)
        context.quietly(lambda: settle_executors(context))
        context.left = left_threads(context)

    yield [('main', main)]
    if outcomes != [[*range(count)], [*range(count, count * 2)]]:
        context.problems.append(f'gave {outcomes}')
    if context.left:
        context.problems.append(f'threads left after the loop stopped: {context.left}')


def scenario_stop(context, kinds, claimed):
    """Stopping the loop while functions are running and queued: nothing runs twice and the threads end."""
    box = {'calls': [], 'running': set()}

    def main():
        loop = context.loop()

        def start():
            if claimed:
                executor = loop.claim_executor()
                box['claimed'] = executor
                for index, kind in enumerate(kinds):
                    executor.execute(make(kind, index, context, box)).silence()
            else:
                for index, kind in enumerate(kinds):
                    loop.run_in_executor(make(kind, index, context, box)).silence()
        loop.call_soon_thread_safe(start)
        loop.stop()
        record = context.record(loop)
        context.scheduler.block(lambda: record.finished)
        box['release'] = True
        context.quietly(lambda: settle_executors(context))
        context.left = left_threads(context)

    yield [('main', main)]
    for index in range(len(kinds)):
        if [index_ for index_, thread in box['calls']].count(index) > 1:
            context.problems.append(f'function {index} was called more than once')
    if context.left:
        context.problems.append(f'threads left after the loop stopped: {context.left}')


def scenario_thread(context, kinds, ending):
    """An executor thread used on its own."""
    box = {'calls': [], 'running': set()}
    outcomes = {}

    def main():
        loop = context.loop()

        async def work():
            from scarletio import Future
            from scarletio.core.event_loop.executor import ExecutorThread
            executor = ExecutorThread()
            box['executor'] = executor
            futures = []
            for index, kind in enumerate(kinds):
                if index & 1:
                    future = Future(loop)
                    if executor.execute(make(kind, index, context, box), future) is not future:
                        context.problems.append('an other future was returned')
                else:
                    future = executor.execute(make(kind, index, context, box))
                futures.append(future)
            if ending == 'cancel':
                executor.cancel()
                box['release'] = True
            elif ending == 'release':
                executor.release()
            for index, future in enumerate(futures):
                try:
                    outcomes[index] = ('ok', await future)
                except BaseException as exception:
                    outcomes[index] = (type(exception).__name__, *(item for item in exception.args if isinstance(item, int)))
            if ending == 'later':
                executor.release()

        context.results['main'] = context.result_of(lambda: loop.run(work()))
        context.quietly(lambda: settle_executors(context))
        context.left = left_threads(context)
        context.quietly(context.stop)

    yield [('main', main)]
    if context.results['main'] != ('ok', None):
        context.problems.append(f'failed: {context.results["main"]}')
    for index, kind in enumerate(kinds):
        count = [index_ for index_, thread in box['calls']].count(index)
        expected = [(expected_of(kind, index), 1)]
        if ending == 'cancel':
            expected.append((('CancelledError',), 0))
        if (outcomes.get(index), count) not in expected:
            context.problems.append(f'function {index} ({kind}) gave {outcomes.get(index)} and was called {count} times')
    if [index for index, thread in box['calls']] != sorted(index for index, thread in box['calls']):
        context.problems.append(f'order of calls: {box["calls"]}')
    if context.left:
        context.problems.append(f'the thread is left: {context.left}')


SCENARIOS = {
    'run': scenario_run, 'cancel': scenario_cancel, 'claim': scenario_claim, 'idle': scenario_idle, 'stop': scenario_stop,
    'thread': scenario_thread,
}


class ExecutorCheck(ThreadCheck):
    id = 'C11'
    files = FILES
    scenarios = SCENARIOS

    def bound(self, spec, tier):
        if tier == 'quick':
            return 2 if spec[0] == 'thread' and len(spec[1]) < 3 else 1
        return 2

    def specs(self, tier):
        result = []
        for kinds in (
            ('value',), ('raise',), ('stop',), ('base',), ('value', 'raise'), ('value', 'value'), ('block', 'value'),
            ('value', 'value', 'stop'),
        ):
            result.append(('run', kinds))
        for first in ('value', 'raise', 'block'):
            for second in ('now', 'later'):
                result.append(('cancel', first, second))
        for kinds in (('value', 'value'), ('raise', 'value'), ('stop', 'raise'), ('block', 'value'), ('value', 'value', 'value')):
            for release in ('context', 'direct', 'after'):
                if release == 'after' and 'block' in kinds:
                    continue
                result.append(('claim', kinds, release, None))
        for cancelled in (0, 1):
            result.append(('claim', ('value', 'value'), 'direct', cancelled))
            result.append(('claim', ('block', 'value'), 'context', cancelled))
        result.append(('claim', (), 'context', None))
        for count in (1, 2, 3):
            result.append(('idle', count))
        for claimed in (False, True):
            for kinds in (('value', 'value'), ('block', 'value'), ('value', 'raise', 'value')):
                result.append(('stop', kinds, claimed))
        for kinds in (('value', 'value'), ('raise', 'value'), ('stop', 'value', 'value'), ('base', 'value')):
            for ending in ('cancel', 'release', 'later'):
                result.append(('thread', kinds, ending))
        result.append(('thread', ('block', 'value'), 'cancel'))
        return result


CHECK = ExecutorCheck()
