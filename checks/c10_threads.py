"""
C10: futures, tasks and the loop can be used from other threads: nothing is lost, nobody waits forever, whichever way the
threads are scheduled.

The real threads run under the controlled scheduler of `mc.threads`: every interleaving at source line granularity up to a
preemption bound.
"""
from mc.base import CLOCK
from mc.threadcheck import ThreadCheck

FILES = (
    'core/traps/future.py', 'core/traps/future_wrapper_base.py', 'core/traps/future_wrapper_sync.py',
    'core/traps/future_wrapper_async.py', 'core/traps/task.py', 'core/traps/task_thread_switcher.py',
    'core/event_loop/',
)


class E1(Exception):
    pass


def complete(future, how):
    if how == 'result':
        future.set_result(1)
    elif how == 'exception':
        future.set_exception(E1(1))
    else:
        future.cancel()


OUTCOME = {'result': ('ok', 1), 'exception': ('E1', 1), 'cancel': ('CancelledError',)}


# Every scenario is a generator: receives the context, first yields the list of (name, function) of the threads started
# right at once, then judges.

def scenario_run(context, kind, timeout):
    """`loop.run(coroutine)` from an other thread."""
    from scarletio import Future, skip_ready_cycle, sleep
    state = {'ran': 0, 'cancelled': 0}

    def main():
        loop = context.loop()
        async def work():
            state['ran'] += 1
            try:
                if kind == 'skip':
                    await skip_ready_cycle()
                elif kind == 'sleep':
                    await sleep(0.5, loop)
                elif kind == 'forever':
                    await Future(loop)
                elif kind == 'exception':
                    raise E1(1)
                elif kind == 'nested':
                    future = Future(loop)
                    loop.call_soon(future.set_result_if_pending, 1)
                    return await future
            except BaseException as exception:
                if kind != 'exception':
                    state['cancelled'] += 1
                raise
            return 1

        context.results['main'] = context.result_of(lambda: loop.run(work(), timeout))
        context.elapsed = CLOCK.now - 1000.0
        context.quietly(lambda: context.settle(loop))
        context.stop()

    yield [('main', main)]
    result = context.results.get('main')
    expected = [OUTCOME['exception' if kind == 'exception' else 'result']]
    if kind == 'forever':
        expected = [('TimeoutError',)]
    elif timeout is not None and context.elapsed >= timeout:
        expected.append(('TimeoutError',))
    if result not in expected:
        context.problems.append(f'run gave {result}, expected {expected}')
    # When it times out before it could start, it never does.
    if state['ran'] != 1 and not (result == ('TimeoutError',) and state['ran'] == 0):
        context.problems.append(f'the coroutine ran {state["ran"]} times')
    if kind == 'forever' and state['ran'] and state['cancelled'] != 1:
        context.problems.append(f'run with timeout cancelled the task {state["cancelled"]} times')
    if result == ('ok', 1) and state['cancelled']:
        context.problems.append('cancelled and returned as well')


def scenario_wait(context, how, method, timeout, waiters):
    """Waiting for a future which the loop completes."""
    from scarletio import Future
    box = {}

    def wait():
        wrapper = box['future'].sync_wrap()
        value = context.result_of(
            (lambda: wrapper.wait(timeout)) if method == 'wait' else (lambda: wrapper.wait_for_completion(timeout))
        )
        return value, CLOCK.now

    def main():
        loop = box['loop'] = context.loop()
        future = Future(loop)
        loop.call_soon_thread_safe(complete, future, how)
        box['future'] = future
        context.results['main'] = wait()
        if waiters > 1:
            context.scheduler.block(lambda: 'other' in context.results)
        context.quietly(lambda: context.settle(loop))
        context.left = len([*box['future'].iter_callbacks()])
        context.stop()

    def other():
        context.scheduler.block(lambda: 'future' in box)
        context.results['other'] = wait()

    threads = [('main', main)]
    if waiters > 1:
        threads.append(('other', other))
    yield threads
    for name, (result, now) in context.results.items():
        expected = [OUTCOME[how] if method == 'wait' else ('ok', True)]
        if timeout is not None and now >= 1000.0 + timeout:
            expected.append(('TimeoutError',) if method == 'wait' else ('ok', False))
        if result not in expected:
            context.problems.append(f'{name} got {result}, expected {expected}')
    if context.left:
        context.problems.append(f'{context.left} callbacks left on the done future')


def scenario_outside(context, how, method):
    """Completing a future, which a task of the loop awaits, from an other thread."""
    from scarletio import Future, Task
    box = {}

    def main():
        loop = context.loop()
        future = Future(loop)
        resumed = []

        async def work():
            try:
                return await future
            finally:
                resumed.append(None)
        task = loop.create_task_thread_safe(work())
        wrapper = future.sync_wrap()
        if method == 'wrapper':
            if how == 'result':
                wrapper.set_result(1)
            elif how == 'exception':
                wrapper.set_exception(E1(1))
            else:
                box['cancelled'] = wrapper.cancel()
        else:
            loop.call_soon_thread_safe(complete, future, how)
        context.results['main'] = context.result_of(lambda: task.sync_wrap().wait())
        context.resumed = len(resumed)
        context.stop()

    yield [('main', main)]
    if context.results.get('main') != OUTCOME[how]:
        context.problems.append(f'the task gave {context.results.get("main")}, expected {OUTCOME[how]}')
    if context.resumed != 1:
        context.problems.append(f'the task was resumed {context.resumed} times')


def scenario_cancel(context, race):
    """Cancelling a task from an other thread."""
    from scarletio import CancelledError, Future
    box = {'seen': 0, 'ran': 0}

    def main():
        loop = context.loop()
        future = Future(loop)

        async def work():
            box['ran'] += 1
            try:
                return await future
            except CancelledError:
                box['seen'] += 1
                raise
        task = loop.create_task_thread_safe(work())
        if race == 'started':
            context.quietly(lambda: context.settle(loop))
        elif race == 'completing':
            loop.call_soon_thread_safe(Future.set_result_if_pending, future, 1)
        wrapper = task.sync_wrap()
        box['cancelled'] = wrapper.cancel()
        context.results['main'] = context.result_of(lambda: wrapper.wait())
        context.quietly(lambda: context.settle(loop))
        context.stop()

    yield [('main', main)]
    result = context.results.get('main')
    expected = []
    if box['cancelled']:
        expected.append(('CancelledError',))
    if race == 'completing':
        # it may complete while it is being cancelled
        expected.append(('ok', 1))
    if result not in expected:
        context.problems.append(f'cancel() -> {box["cancelled"]!r}, but the task gave {result}')
    if result == ('CancelledError',) and box['ran'] and (box['seen'] > 1 or (not box['seen'] and race != 'completing')):
        context.problems.append(f'the task saw the cancellation {box["seen"]} times')


def scenario_two_loops(context, how, method, timeout):
    """A task of a loop awaiting the future of an other loop."""
    from scarletio import Future
    box = {}

    def main():
        loop_a = context.loop()
        loop_b = context.loop()
        future = Future(loop_a)

        async def work():
            wrapper = future.async_wrap(loop_b)
            if method == 'await':
                return await wrapper
            if method == 'wait':
                return await wrapper.wait(timeout)
            return await wrapper.wait_for_completion(timeout)

        task = loop_b.create_task_thread_safe(work())
        loop_a.call_soon_thread_safe(complete, future, how)
        context.results['main'] = context.result_of(lambda: task.sync_wrap().wait())
        context.now = CLOCK.now
        context.quietly(lambda: context.settle(loop_a))
        context.left = len([*future.iter_callbacks()])
        context.stop()

    yield [('main', main)]
    expected = [OUTCOME[how] if method != 'wait_for_completion' else ('ok', True)]
    if timeout is not None and context.now >= 1000.0 + timeout:
        expected.append(('TimeoutError',) if method == 'wait' else ('ok', False))
    if context.results.get('main') not in expected:
        context.problems.append(f'got {context.results.get("main")}, expected {expected}')
    if context.left:
        context.problems.append(f'{context.left} callbacks left on the done future')


def scenario_enter(context, entries):
    """`with loop.enter()`: the loop stands still meanwhile."""
    box = {'inside': 0, 'ran': 0, 'stop': False}

    def main():
        loop = context.loop()

        def tick(count):
            if box['inside']:
                context.problems.append('the loop ran a callback while it was suspended')
            box['ran'] += 1
            if count:
                loop.call_soon(tick, count - 1)

        loop.call_soon_thread_safe(tick, 3)
        for _ in range(entries):
            with loop.enter():
                box['inside'] += 1
                before = box['ran']
                context.scheduler.point()
                # allowed inside: not thread safe operations
                loop.call_soon(tick, 0)
                context.scheduler.point()
                if box['ran'] != before:
                    context.problems.append('the loop went on while it was suspended')
                box['inside'] -= 1
        context.quietly(lambda: context.settle(loop))
        context.stop()

    yield [('main', main)]
    if box['ran'] != 4 + entries:
        context.problems.append(f'{box["ran"]} callbacks ran out of {4 + entries}')


def scenario_start(context, first, second):
    """The loop is started by the first use, even when two threads use it at once."""
    box = {}
    ran = []

    def use(kind, name):
        loop = box['loop']
        if kind == 'soon':
            loop.call_soon_thread_safe(ran.append, name)
        elif kind == 'task':
            async def work():
                ran.append(name)
            context.results[name] = context.result_of(lambda: loop.create_task_thread_safe(work()).sync_wrap().wait())
        elif kind == 'run':
            async def work():
                ran.append(name)
                return 1
            context.results[name] = context.result_of(lambda: loop.run(work()))
        elif kind == 'lazy':
            loop.call_soon_thread_safe_lazy(ran.append, name)

    def main():
        box['loop'] = context.loop(False)
        try:
            use(first, 'main')
        finally:
            box['main'] = True
        context.scheduler.block(lambda: 'other' in box)
        loop = box['loop']
        if first == second == 'lazy':
            if loop.is_started():
                context.problems.append('lazy calls started the loop')
            loop.call_soon_thread_safe(int)
        context.quietly(lambda: context.settle(loop))
        context.stop()

    def other():
        context.scheduler.block(lambda: 'loop' in box)
        try:
            use(second, 'other')
        finally:
            box['other'] = True

    yield [('main', main), ('other', other)]
    if sorted(ran) != ['main', 'other']:
        context.problems.append(f'ran: {ran}')
    for name, value in context.results.items():
        if value[0] != 'ok':
            context.problems.append(f'{name}: {value}')


def scenario_many(context, kinds):
    """Several threads give work to the same running loop; everything runs exactly once, each thread's ones in order."""
    ran = []
    box = {'done': 0}

    def use(name, kind, index):
        loop = box['loop']
        item = (name, index)
        if kind == 'soon':
            loop.call_soon_thread_safe(ran.append, item)
        elif kind == 'lazy':
            loop.call_soon_thread_safe_lazy(ran.append, item)
        else:
            async def work():
                ran.append(item)
            if kind == 'task':
                loop.create_task_thread_safe(work())
            else:
                loop.ensure_future_thread_safe(work())

    def worker(name):
        def function():
            if name == 't0':
                box['loop'] = context.loop()
                box['ready'] = True
            else:
                context.scheduler.block(lambda: 'ready' in box)
            for index, kind in enumerate(kinds):
                use(name, kind, index)
            box['done'] += 1
            if name == 't0':
                context.scheduler.block(lambda: box['done'] == 2)
                # the loop has to get there on its own
                context.settle(box['loop'])
                context.ran = [*ran]
                context.stop()
        return function

    yield [('t0', worker('t0')), ('t1', worker('t1'))]
    for name in ('t0', 't1'):
        got = [index for name_, index in context.ran if name_ == name]
        if got != [*range(len(kinds))]:
            context.problems.append(f'calls of {name} ran as {got}')


def scenario_executor_section(context, inner, ending):
    """`async with enter_executor()`: the task goes on in an executor, then comes back to the loop."""
    from threading import current_thread
    from scarletio import EventThread, Future, enter_executor, skip_ready_cycle
    seen = {}

    def main():
        loop = context.loop()
        async def work():
            seen['before'] = current_thread() is loop
            async with enter_executor():
                seen['inside'] = isinstance(current_thread(), EventThread)
                if inner == 'await':
                    future = Future(loop)
                    loop.call_soon_thread_safe(future.set_result, 5)
                    seen['value'] = await future
                    seen['inside_after'] = isinstance(current_thread(), EventThread)
                if ending == 'raise':
                    raise E1(1)
                if ending == 'return':
                    return 1
            seen['after'] = current_thread() is loop
            return 1

        context.results['main'] = context.result_of(lambda: loop.run(work()))
        context.quietly(lambda: context.settle(loop))
        context.stop()

    yield [('main', main)]
    expected = ('E1', 1) if ending == 'raise' else ('ok', 1)
    if context.results.get('main') != expected:
        context.problems.append(f'gave {context.results.get("main")} instead of {expected}')
    wanted = {'before': True, 'inside': False}
    if inner == 'await':
        wanted['value'] = 5
        wanted['inside_after'] = False
    if ending == 'normal':
        wanted['after'] = True
    if seen != wanted:
        context.problems.append(f'saw {seen}, expected {wanted}')


def scenario_executor_cancel(context, inner):
    """A task is cancelled while it is in its executor section."""
    from threading import current_thread
    from scarletio import CancelledError, Future, enter_executor
    box = {'seen': []}

    def main():
        loop = context.loop()
        async def work():
            box['started'] = True
            try:
                async with enter_executor():
                    box['inside'] = True
                    try:
                        if inner == 'block':
                            context.scheduler.block(lambda: 'cancelled' in box)
                        if inner != 'nothing':
                            await Future(loop)
                    except CancelledError:
                        box['seen'].append(None)
                        raise
            except CancelledError:
                box['after'] = current_thread() is loop
                raise
            await Future(loop)

        task = loop.create_task_thread_safe(work())
        if inner in ('await', 'block'):
            context.scheduler.block(lambda: 'inside' in box)
        elif inner == 'started':
            context.scheduler.block(lambda: 'started' in box)
        wrapper = task.sync_wrap()
        box['cancelled'] = wrapper.cancel()
        context.results['main'] = context.result_of(lambda: wrapper.wait())
        context.quietly(lambda: context.settle(loop))
        context.stop()

    yield [('main', main)]
    if context.results['main'] != ('CancelledError',):
        context.problems.append(f'gave {context.results["main"]}')
    if len(box['seen']) != 1 and (inner in ('await', 'block') or box['seen']):
        context.problems.append(f'the cancellation was seen {len(box["seen"])} times')
    if not box.get('after', True):
        context.problems.append('leaving the section by cancellation did not get back to the loop')


SCENARIOS = {
    'executor_cancel': scenario_executor_cancel,
    'run': scenario_run, 'wait': scenario_wait, 'outside': scenario_outside, 'cancel': scenario_cancel,
    'two_loops': scenario_two_loops, 'enter': scenario_enter, 'start': scenario_start, 'many': scenario_many,
    'executor_section': scenario_executor_section,
}


def specs(tier):
    result = []
    for kind, timeout in (
        ('now', None), ('skip', None), ('sleep', None), ('exception', None), ('nested', None), ('now', 1.0), ('sleep', 0.5),
        ('forever', 1.0), ('nested', 1.0),
    ):
        result.append(('run', kind, timeout))
    for how in ('result', 'exception', 'cancel'):
        for method in ('wait', 'wait_for_completion'):
            for timeout in (None, 1.0):
                result.append(('wait', how, method, timeout, 1))
    result.append(('wait', 'result', 'wait', None, 2))
    result.append(('wait', 'result', 'wait', 1.0, 2))
    result.append(('wait', 'cancel', 'wait_for_completion', 1.0, 2))
    for how in ('result', 'exception', 'cancel'):
        for method in ('wrapper', 'loop'):
            result.append(('outside', how, method))
    for race in ('fresh', 'started', 'completing'):
        result.append(('cancel', race))
    for how in ('result', 'exception', 'cancel'):
        result.append(('two_loops', how, 'await', None))
    for method in ('wait', 'wait_for_completion'):
        for timeout in (None, 1.0):
            result.append(('two_loops', 'result', method, timeout))
    result.append(('enter', 1))
    result.append(('enter', 2))
    for first, second in (
        ('soon', 'soon'), ('soon', 'task'), ('task', 'task'), ('soon', 'run'), ('run', 'run'), ('lazy', 'soon'), ('lazy', 'lazy'),
        ('lazy', 'run'),
    ):
        result.append(('start', first, second))
    for kinds in (('soon', 'soon'), ('lazy', 'task'), ('task', 'ensure'), ('ensure', 'lazy')):
        result.append(('many', kinds))
    for inner in ('plain', 'await'):
        for ending in ('normal', 'raise', 'return'):
            result.append(('executor_section', inner, ending))
    for inner in ('await', 'block', 'early', 'started', 'nothing'):
        result.append(('executor_cancel', inner))
    return result


class LoopThreadCheck(ThreadCheck):
    id = 'C10'
    files = FILES
    scenarios = SCENARIOS

    def specs(self, tier):
        return specs(tier)

    def bound(self, spec, tier):
        if tier == 'quick' and spec[0] not in ('cancel', 'outside', 'enter'):
            return 1
        return 2


CHECK = LoopThreadCheck()
