"""
C33: the asyncio compatible synchronisation primitives, queues and waiting functions act as those of the standard library.

The same program is run on both: on `scarletio.ext.asyncio` over the loop of scarletio, and on the asyncio of the standard library over a
loop with virtual time. The programs are every sequence of operations over an alphabet. What is observable (results, exceptions,
cancellations, the order in which the users get on) is compared each time both became idle. The last operations are also done without
letting the loops run between them: then the outcome has to be the one of the standard library for any of the ways to let it run.
"""
from mc.base import Violation
from mc.twins import IMPOSSIBLE, Tested, TwinCheck, World, described, state_of
from mc.wire import run_cases, run_one


class LockWorld(World):
    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        self.lock = self.aio.Lock()

    async def hold_user(self, index):
        acquired = await self.lock.acquire()
        try:
            self.log.append((index, 'holds', acquired))
            await self.gate()
        finally:
            self.lock.release()

    async def with_user(self, index):
        async with self.lock:
            self.log.append((index, 'in'))
        return 'out'

    def hold(self):
        return self.start(self.hold_user)

    def within(self):
        return self.start(self.with_user)

    def release(self):
        if self.lock.locked():
            return IMPOSSIBLE
        return self.lock.release()

    def view(self):
        return self.lock.locked()


class EventWorld(World):
    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        self.event = self.aio.Event()

    async def wait_user(self, index):
        return await self.event.wait()

    def wait(self):
        return self.start(self.wait_user)

    def set(self):
        self.event.set()

    def clear(self):
        self.event.clear()

    def view(self):
        return self.event.is_set()


class ConditionWorld(World):
    users_limit = 4

    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        lock = self.aio.Lock() if configuration == 'own lock' else None
        self.condition = self.aio.Condition(lock)
        self.value = 0
        self.waits = set()
        self.inside = 0
        self.together = 0

    def enter(self, index, name, *rest):
        self.inside += 1
        self.together = max(self.together, self.inside)
        self.log.append((index, name, *rest))

    async def wait_user(self, index):
        async with self.condition:
            self.enter(index, 'in')
            self.inside -= 1
            self.waits.add(index)
            try:
                result = await self.condition.wait()
            finally:
                self.waits.discard(index)
                # the lock is held again, even if it failed
                self.enter(index, 'woken', self.condition.locked())
                self.inside -= 1
            return result

    async def long_user(self, index):
        """Holds the lock after waking up till it is let to go."""
        async with self.condition:
            self.enter(index, 'in')
            self.inside -= 1
            self.waits.add(index)
            try:
                await self.condition.wait()
            finally:
                self.waits.discard(index)
                self.enter(index, 'woken', self.condition.locked())
                try:
                    await self.gate()
                finally:
                    self.inside -= 1

    async def until_user(self, index):
        async with self.condition:
            self.waits.add(index)
            try:
                result = await self.condition.wait_for(lambda: self.value)
            finally:
                self.waits.discard(index)
            self.log.append((index, 'until', self.condition.locked()))
            return result

    async def hold_user(self, index):
        async with self.condition:
            self.enter(index, 'holds')
            try:
                await self.gate()
            finally:
                self.inside -= 1

    async def notify_user(self, index, amount):
        async with self.condition:
            if amount is None:
                self.condition.notify_all()
            else:
                self.condition.notify(amount)

    async def notify_hold_user(self, index):
        async with self.condition:
            self.enter(index, 'notifies')
            self.condition.notify(1)
            try:
                await self.gate()
            finally:
                self.inside -= 1

    def wait(self):
        return self.start(self.wait_user)

    def long(self):
        return self.start(self.long_user)

    def until(self):
        return self.start(self.until_user)

    def hold(self):
        return self.start(self.hold_user)

    def notify(self, amount):
        return self.start(self.notify_user, amount)

    def notify_hold(self):
        return self.start(self.notify_hold_user)

    def unlocked(self):
        """Notifying without holding the lock."""
        if self.condition.locked():
            return IMPOSSIBLE
        return self.condition.notify()

    def change(self):
        self.value += 1

    def cancel(self, position):
        """
        Cancelling a user which re-acquires the lock is left out, it is in a check of its own (see `known_case`). Whether it does is told
        by the model: it waits within the condition, but not to be notified.
        """
        alive = [index for index, user in enumerate(self.users) if not user.done()]
        if position < len(alive) and self.side.name == 'asyncio':
            index = alive[position]
            if index in self.waits and self.users[index]._fut_waiter not in self.condition._waiters:
                return IMPOSSIBLE
        return World.cancel(self, position)

    def view(self):
        return self.condition.locked(), self.together


class SemaphoreWorld(World):
    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        type_name, value = configuration
        self.semaphore = getattr(self.aio, type_name)(value)

    async def acquire_user(self, index):
        return await self.semaphore.acquire()

    async def within_user(self, index):
        async with self.semaphore:
            self.log.append((index, 'in'))
            await self.gate()

    def acquire(self):
        return self.start(self.acquire_user)

    def within(self):
        return self.start(self.within_user)

    def release(self):
        return self.semaphore.release()

    def view(self):
        repr(self.semaphore)
        return self.semaphore.locked()


class BarrierWorld(World):
    users_limit = 4

    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        self.barrier = self.aio.Barrier(configuration)

    async def wait_user(self, index):
        return await self.barrier.wait()

    async def with_user(self, index):
        async with self.barrier as position:
            return position

    async def reset_user(self, index):
        await self.barrier.reset()

    async def abort_user(self, index):
        await self.barrier.abort()

    def wait(self):
        return self.start(self.wait_user)

    def within(self):
        return self.start(self.with_user)

    def reset(self):
        return self.start(self.reset_user)

    def abort(self):
        return self.start(self.abort_user)

    def view(self):
        repr(self.barrier)
        return self.barrier.parties, self.barrier.n_waiting, self.barrier.broken


class QueueWorld(World):
    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        type_name, size = configuration
        self.queue = getattr(self.aio, type_name)(size)
        self.next = 0

    async def put_user(self, index, element):
        await self.queue.put(element)

    async def get_user(self, index):
        return await self.queue.get()

    def element(self):
        self.next += 1
        return self.next

    def put(self):
        return self.start(self.put_user, self.element())

    def get(self):
        return self.start(self.get_user)

    def put_now(self):
        return self.queue.put_nowait(self.element())

    def get_now(self):
        return self.queue.get_nowait()


class GatherWorld(World):
    """Waiting for 3 tasks / futures in any of the ways."""
    amount = 3

    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        self.kind, self.order = configuration
        self.waited = [side.loop.create_future() for _ in range(self.amount)]
        self.outer = None

    async def child(self, index):
        return await self.waited[index]

    def name_of(self, future):
        return self.waited.index(future)

    async def wait_user(self, index, how, timeout):
        done, pending = await self.aio.wait(
            [self.waited[position] for position in self.order], return_when = getattr(self.aio, how), timeout = timeout,
        )
        return sorted(map(self.name_of, done)), sorted(map(self.name_of, pending))

    async def gather_user(self, index, return_exceptions):
        futures = [self.waited[position] for position in self.order]
        results = await self.aio.gather(*futures, return_exceptions = return_exceptions)
        return [described(result) if isinstance(result, BaseException) else result for result in results]

    async def gather_coroutines_user(self, index, return_exceptions):
        coroutines = [self.child(position) for position in self.order]
        results = await self.aio.gather(*coroutines, return_exceptions = return_exceptions)
        return [described(result) if isinstance(result, BaseException) else result for result in results]

    async def wait_for_user(self, index, timeout):
        return await self.aio.wait_for(self.waited[0], timeout)

    async def wait_for_coroutine_user(self, index, timeout):
        return await self.aio.wait_for(self.child(0), timeout)

    async def as_completed_user(self, index, timeout):
        for future in self.aio.as_completed([self.waited[position] for position in self.order], timeout = timeout):
            try:
                result = await future
            except self.aio.CancelledError as exception:
                self.log.append((index, 'cancelled'))
                raise
            except Exception as exception:
                self.log.append((index, described(exception)))
            else:
                self.log.append((index, 'completed', result))

    async def shield_user(self, index):
        return await self.aio.shield(self.waited[0])

    def begin(self):
        if self.users:
            return IMPOSSIBLE
        name, *positional = self.kind
        if name == 'as_completed' and any(future.done() for future in self.waited):
            # already completed ones are given in any order
            return IMPOSSIBLE
        return self.start(getattr(self, name + '_user'), *positional)

    def over(self, index):
        return self.waited[index].done() or (self.kind[0] == 'as_completed' and self.users and self.users[0].done())

    def result(self, index):
        if self.over(index):
            return IMPOSSIBLE
        self.waited[index].set_result(index * 10)

    def fail(self, index):
        if self.over(index):
            return IMPOSSIBLE
        self.waited[index].set_exception(ValueError(index))

    def end(self, index):
        if self.over(index):
            return IMPOSSIBLE
        self.waited[index].cancel()

    def view(self):
        if self.kind[0] == 'as_completed' and self.kind[1] is not None:
            # Scarletio cancels what did not complete in time
            return ()
        return tuple(state_of(future) for future in self.waited)

    def finish(self):
        World.finish(self)
        for future in self.waited:
            future.cancel()
            if not future.cancelled():
                future.exception()


class TimeoutWorld(World):
    """A body of sleeps within nested timeouts."""
    users_limit = 1

    def __init__(self, side, configuration):
        World.__init__(self, side, configuration)
        self.outer, self.inner, self.body, self.after = configuration
        self.timeouts = []

    def make(self, delay):
        timeout = self.aio.timeout(delay)
        self.timeouts.append(timeout)
        return timeout

    async def body_user(self, index):
        async with self.make(self.outer) as timeout:
            try:
                if self.inner == 'none':
                    await self.work()
                else:
                    async with self.make(self.inner):
                        await self.work()
            except TimeoutError:
                self.log.append('inner timeout')
            await self.aio.sleep(self.after)
            self.log.append('after')
        return 'ended'

    async def work(self):
        body = self.body
        # The times are chosen so no two timers are due at the same instant: then either may come first
        if body == 'fail':
            await self.aio.sleep(1.05)
            raise ValueError(1)
        if body == 'catch':
            try:
                await self.aio.sleep(3.07)
            except self.aio.CancelledError:
                self.log.append('caught')
                raise ValueError(2)
        elif body == 'swallow':
            try:
                await self.aio.sleep(3.07)
            except self.aio.CancelledError:
                self.log.append('swallowed')
        else:
            await self.aio.sleep(body)
        self.log.append('worked')

    def begin(self):
        if self.users:
            return IMPOSSIBLE
        return self.start(self.body_user)

    def reschedule(self, position, delay):
        if position >= len(self.timeouts):
            return IMPOSSIBLE
        loop = self.side.loop
        self.timeouts[position].reschedule(None if delay is None else loop.time() + delay)

    def view(self):
        for timeout in self.timeouts:
            repr(timeout)
        return tuple(timeout.expired() for timeout in self.timeouts)


class SleepWorld(World):
    async def sleep_user(self, index, delay):
        return await self.aio.sleep(delay, index)

    def sleep(self, delay):
        return self.start(self.sleep_user, delay)


CANCELS = (('cancel', 0), ('cancel', 1), ('cancel', 2))

ALPHABETS = {
    'lock': (('hold',), ('within',), ('go',), ('release',), *CANCELS),
    'event': (('wait',), ('set',), ('clear',), *CANCELS),
    'condition': (
        ('wait',), ('long',), ('until',), ('hold',), ('notify', 1), ('notify', 2), ('notify', None), ('notify_hold',), ('unlocked',),
        ('change',), ('go',), *CANCELS,
    ),
    'semaphore': (('acquire',), ('within',), ('release',), ('go',), *CANCELS),
    'barrier': (('wait',), ('within',), ('reset',), ('abort',), *CANCELS),
    'queue': (('put',), ('get',), ('put_now',), ('get_now',), *CANCELS),
    'gather': (
        ('begin',), *((name, index) for index in range(3) for name in ('result', 'fail', 'end')), ('cancel', 0), ('pass', 1), ('pass', 2),
    ),
    'timeout': (('begin',), ('pass', 0.5), ('pass', 1), ('cancel', 0), ('reschedule', 0, 1.1), ('reschedule', 0, None), ('reschedule', 1, 2.3)),
    'sleep': (('sleep', 0), ('sleep', 1), ('sleep', 2), ('pass', 1), ('pass', 2), ('cancel', 0), ('cancel', 1)),
}

WORLDS = {
    'lock': LockWorld, 'event': EventWorld, 'condition': ConditionWorld, 'semaphore': SemaphoreWorld, 'barrier': BarrierWorld,
    'queue': QueueWorld, 'gather': GatherWorld, 'timeout': TimeoutWorld, 'sleep': SleepWorld,
}

ORDERS = ((0, 1, 2), (2, 0, 1))

KINDS = (
    *(('wait', how, timeout) for how in ('ALL_COMPLETED', 'FIRST_COMPLETED', 'FIRST_EXCEPTION') for timeout in (None, 1)),
    ('gather', False), ('gather', True), ('gather_coroutines', False), ('gather_coroutines', True),
    ('as_completed', None), ('as_completed', 2),
)
SINGLE_KINDS = (
    ('wait_for', None), ('wait_for', 2), ('wait_for', 0), ('wait_for', -1), ('wait_for_coroutine', None), ('wait_for_coroutine', 2),
    ('wait_for_coroutine', 0), ('shield',),
)


def known_case(stats):
    def case(env):
        world = ConditionWorld(Tested(env), 'no lock')
        for operation in (('wait',), ('notify_hold',), ('cancel', 0)):
            world.apply(operation)
            yield None
        together = world.together
        world.finish()
        yield None
        stats.evaluations += 1
        if together > 1:
            raise Violation(
                'condition: cancelled while re-acquiring the lock',
                'a notified user of a Condition which is cancelled while the lock is held by an other one gets on without having the lock',
                {'what': 'known'},
            )
    return case


class AsyncioPrimitivesCheck(TwinCheck):
    id = 'C33'
    worlds = WORLDS
    alphabets = ALPHABETS
    any_order = ('gather',)
    assumptions = [
        'the model is the asyncio of the standard library of the running interpreter, its pure python parts',
        'who comes first of those who can go on in the same instant is left open for gather / wait / as_completed',
        'cancel requests are not counted by scarletio: no two timeouts expire at once, and what swallows a cancellation ends without waiting',
    ]

    def excused(self, what, batch, observed, accepted):
        """
        Cancelling and failing in the same instant: being cancelled is fine too, if nothing is left running.
        An item taken before whom it woke up could get it: which one of those waiting gets the next one is up to the library.
        """
        if what == 'queue' and ('get_now',) in batch:
            return any(
                observed[0] == outcome[0] and sorted(map(repr, observed[1][0])) == sorted(map(repr, outcome[1][0])) and
                observed[1][2] == outcome[1][2]
                for outcome in accepted
            )
        if what == 'gather' and ('cancel', 0) in batch:
            users, log, view = observed[1]
            return users[0] == 'cancelled' and 'pending' not in view
        return False

    def run_job(self, job, stats, tier):
        if job[0] == 'known':
            run_cases([known_case(stats)], stats, job)
        else:
            TwinCheck.run_job(self, job, stats, tier)

    def replay(self, artefact, stats):
        if artefact['what'] == 'known':
            run_one(known_case(stats), stats)
        else:
            TwinCheck.replay(self, artefact, stats)

    def plan(self, quick):
        yield 'known',
        more = 0 if quick else 1
        for what, configuration, depth, batches in (
            ('lock', '', 5, ((4, 2), (4, 3))),
            ('event', '', 5, ((4, 2), (4, 3))),
            ('condition', 'no lock', 4, ((4, 2),)),
            ('semaphore', ('Semaphore', 0), 5, ((4, 2),)),
            ('semaphore', ('Semaphore', 1), 5, ((4, 2), (4, 3))),
            ('semaphore', ('BoundedSemaphore', 1), 5, ((4, 2),)),
            ('semaphore', ('BoundedSemaphore', 2), 5, ((4, 2),)),
            ('barrier', 1, 4, ((4, 2),)),
            ('barrier', 2, 5, ((4, 2),)),
            ('barrier', 3, 5, ((4, 2),)),
            ('queue', ('Queue', 0), 5, ((4, 2),)),
            ('queue', ('Queue', 1), 5, ((4, 2), (4, 3))),
            ('queue', ('LifoQueue', 0), 5, ((4, 2),)),
            ('queue', ('LifoQueue', 2), 5, ((4, 2),)),
            ('sleep', '', 4, ((4, 2),)),
        ):
            for first in self.alphabets[what]:
                yield what, configuration, (first,), depth + more, 0
                for length, batch in batches:
                    yield what, configuration, (first,), length + more, batch
        for order in ORDERS:
            for kind in KINDS:
                yield 'gather', (kind, order), (), 4 + more, 0
                yield 'gather', (kind, order), (), 3 + more, 2
        for kind in SINGLE_KINDS:
            yield 'gather', (kind, (0,)), (), 4 + more, 0
            yield 'gather', (kind, (0,)), (), 3 + more, 2
        for outer in (1, 2, None, 0):
            for inner in ('none', 1.25, 2.25, None):
                for body in (0, 1.6, 'fail', 'catch', 'swallow'):
                    for after in (0, 1.03):
                        if body == 'swallow' and after:
                            continue # cancel requests are not counted by scarletio
                        yield 'timeout', (outer, inner, body, after), (('begin',),), 4 + more, 0


CHECK = AsyncioPrimitivesCheck()
