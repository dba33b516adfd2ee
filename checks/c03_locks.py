"""
C03: locks: never more holders than allowed, nobody starves, cancelled acquirers leave no trace.
"""
import gc
from itertools import combinations, product

from mc.base import Check, Violation
from mc.explore import Chooser, explore
from mc.vloop import Env, callback_errors, quiet_stderr


def make_lock(kind, loop):
    from scarletio import Lock, ScarletLock
    if kind == 'lock':
        return Lock(loop), 1
    return ScarletLock(loop, int(kind)), int(kind)


# how a participant uses the lock
USES = (
    'with',      # async with lock: skip a cycle
    'hold',      # async with lock: await a future the environment resolves
    'manual',    # acquire() / release()
    'raise',     # async with, leaves with an exception
    'wait',      # await lock: waits till it is free, does not acquire
)


class Boom(Exception):
    pass


def execute(chooser, kind, uses, cancels, late, stats):
    from scarletio import CancelledError, Future, Task, skip_ready_cycle
    env = Env(chooser)
    loop = env.loop
    lock, size = make_lock(kind, loop)
    inside = []
    entered = []
    arrived = []
    problems = []
    tasks = {}
    holds = {}
    cancelled = set()
    cancelled_waiting = set()

    def enter(index):
        inside.append(index)
        entered.append(index)
        if len(inside) > size:
            problems.append(f'{len(inside)} holders ({inside}) of a lock of size {size}')
        if len(inside) == size and not lock.is_locked():
            problems.append(f'is_locked() is False with holders {inside}')

    def leave(index):
        inside.remove(index)

    async def user(index, use):
        arrived.append(index)
        if use == 'wait':
            await lock
            if inside:
                problems.append('waiting for the lock to be free ended while it is held')
            return
        if use == 'manual':
            await lock.acquire()
            enter(index)
            try:
                await skip_ready_cycle()
            finally:
                leave(index)
                lock.release()
            return
        async with lock:
            enter(index)
            try:
                if use == 'hold':
                    await holds[index]
                elif use == 'raise':
                    await skip_ready_cycle()
                    raise Boom
                else:
                    await skip_ready_cycle()
            finally:
                leave(index)

    async def late_user(index, use, gate):
        if gate is not None:
            await gate
        await user(index, use)

    gates = []

    def setup():
        for index, use in enumerate(uses):
            if use == 'hold':
                holds[index] = Future(loop)
            tasks[index] = Task(loop, user(index, use))

    def start(index, use):
        def operation():
            if use == 'hold':
                holds[index] = Future(loop)
            tasks[index] = Task(loop, user(index, use))
        return operation

    def cancel(index):
        def operation():
            task = tasks[index]
            waiting = index in arrived and index not in entered
            if task.cancel():
                cancelled.add(index)
                if waiting:
                    cancelled_waiting.add(index)
        return operation

    def release(index):
        def operation():
            holds[index].set_result_if_pending(None)
        return operation

    # holders may leave in any order
    for index, use in enumerate(uses):
        if use == 'hold':
            env.actor(release(index))
    for index in cancels:
        env.actor(cancel(index))

    final = {}

    def settled(env_, timeout):
        # nothing is going to happen on its own
        if final or problems:
            return False
        waiting = [
            index for index, use in enumerate(uses) if index in arrived and index not in entered and not tasks[index].is_done()
        ]
        if [index for index in waiting if uses[index] != 'wait'] and len(inside) < size:
            problems.append(f'{waiting} are waiting, while only {inside} hold the lock of size {size}')
        if waiting and not inside:
            problems.append(f'{waiting} are waiting, while the lock is free')
        return False

    env.on_wait = settled

    def on_idle(env_):
        if final:
            return False
        final['started'] = True
        # every user is gone, the lock has to be free again, for as many holders as it allows
        final['locked'] = lock.is_locked()
        final['probes'] = []

        async def probe(number):
            await lock.acquire()
            final['probes'].append(number)

        final['tasks'] = [Task(loop, probe(number)) for number in range(size + 1)]
        return True

    env.on_idle = on_idle
    env.run(setup)
    stats.evaluations += 1
    stats.transitions += env.steps

    def fail(message):
        raise Violation(
            f'lock:{kind}:{"+".join(uses)}:cancel={"+".join(map(str, cancels))}',
            f'{message}; lock={kind} uses={uses} cancels={cancels} entered={entered} cancelled={sorted(cancelled)} '
            f'schedule={chooser.choices()}',
            [kind, list(uses), list(cancels), late, chooser.choices()],
        )

    if problems:
        fail(problems[0])
    if env.finished == 'livelock':
        fail('livelock')
    escaped = callback_errors(env)
    if escaped:
        fail(f'exception escaped a callback: {escaped[0]!r}')
    for index, task in tasks.items():
        if not task.is_done():
            fail(f'participant {index} is stuck')
        if index in cancelled:
            if not task.is_cancelled():
                # leaving with its own exception wins
                if not (uses[index] == 'raise' and isinstance(task.get_exception(), Boom)):
                    fail(f'participant {index} was cancelled, but did not end as cancelled')
            continue
        exception = None if task.is_cancelled() else task.get_exception()
        if task.is_cancelled():
            fail(f'participant {index} was cancelled by an other one')
        if exception is not None and not (uses[index] == 'raise' and isinstance(exception, Boom)):
            fail(f'participant {index} failed with {exception!r}')
        if uses[index] != 'wait' and entered.count(index) != 1:
            fail(f'participant {index} entered {entered.count(index)} times')
    if inside:
        fail('someone is still inside')
    if final['locked']:
        fail('the lock stays locked after everyone left')
    if len(final['probes']) != size:
        fail(f'after everyone left {len(final["probes"])} could acquire instead of {size}')
    # first come, first served
    order = [index for index in entered if index not in cancelled]
    expected = [index for index in arrived if index in order]
    if order != expected:
        fail(f'acquired in order {order}, arrived in order {expected}')
    if hasattr(lock, 'get_acquired'):
        if lock.get_acquired() != size or lock.get_waiting() != 1:
            fail(f'get_acquired() = {lock.get_acquired()}, get_waiting() = {lock.get_waiting()}')

    if cancelled_waiting:
        stats.nontrivial += 1
    stats.outcome((kind, uses, tuple(entered), tuple(sorted(cancelled))))
    stats.state((kind, uses, cancels, tuple(item[0] for item in chooser.trace)))


class LockCheck(Check):
    id = 'C03'
    rule = (
        'every assignment of uses to the participants, every set of participants to cancel, every placement (up to the '
        'deviation bound) of the releases and cancellations at callback boundaries; a state is one complete schedule'
    )
    assumptions = ['single loop thread; participants created in a fixed order']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        jobs = []
        count = 3
        for kind in ('lock', '1', '2'):
            for uses in product(USES, repeat = count):
                jobs.append((kind, uses))
        small = ('with', 'hold')
        for kind in ('lock', '2', '3'):
            for uses in product(small, repeat = 4):
                if tier == 'quick' and uses.count('hold') == 4 and kind == 'lock':
                    continue
                jobs.append((kind, uses))
        if tier == 'thorough':
            for kind in ('lock', '2', '3'):
                for uses in product(('with', 'hold', 'manual', 'wait'), repeat = 4):
                    if uses not in jobs:
                        jobs.append((kind, uses))
                for uses in product(small, repeat = 5):
                    jobs.append((kind, uses))
        return jobs

    def run_job(self, job, stats, tier):
        kind, uses = job
        uses = tuple(uses)
        indexes = range(len(uses))
        sets = [()] + [(index,) for index in indexes] + list(combinations(indexes, 2))
        if tier == 'thorough':
            sets += list(combinations(indexes, 3))
        for cancels in sets:
            def run(chooser):
                try:
                    execute(chooser, kind, uses, cancels, False, stats)
                except Violation as violation:
                    stats.violate(violation.key, violation.message, violation.artefact)
                if not stats.evaluations % 300:
                    gc.collect()
            bound = max(1, 3 - (uses.count('hold') > 1) - (len(cancels) > 1)) if tier == "quick" else 4
            explore(run, bound = bound)
        stats.sample([kind, list(uses), list(cancels)])

    def replay(self, job, artefact, stats):
        kind, uses, cancels, late, choices = artefact
        execute(Chooser(tuple(choices)), kind, tuple(uses), tuple(cancels), late, stats)


CHECK = LockCheck()
