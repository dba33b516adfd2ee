"""
C08: the event loop calls every scheduled callback exactly once, in order, never early, never after it was cancelled.
"""
import gc
from itertools import product
from selectors import EVENT_READ, EVENT_WRITE

from mc.base import CLOCK, Check, Violation
from mc.explore import Chooser
from mc.vloop import Env, callback_errors, drive, quiet_stderr

RESOLUTION = 1e-3

OPERATIONS = (
    'run',          # let the loop run till it would wait
    'tick',         # run, then let 0.6 seconds pass
    'soon',
    'soon_ts',      # call_soon_thread_safe
    'soon_lazy',    # call_soon_thread_safe_lazy
    'after0',       # call_after(0.0)
    'after1',       # call_after(0.5)
    'after2',       # call_after(1.0)
    'at1',          # call_at(now + 0.5)
    'at_past',      # call_at(now - 1.0)
    'weak1',        # call_after_weak(0.5)
    'weak_m2',      # call_at_weak(now + 1.0, bound method)
    'drop',         # drops the oldest weakly scheduled thing
    'cancel_old',   # cancels the oldest pending handle
    'cancel_new',   # cancels the newest pending handle
    'nest',         # callback which schedules an other and a timer
    'raise',        # callback which raises
    'kill',         # callback which cancels the newest pending handle when called
    'sleep',        # sleep(0.5) future
    'far',          # call_after(a month)
    'never',        # call_after(infinite)
    'leap',         # run, then let more than that pass
)
FAR = 2.5e6 # more than what the system can wait at once; three times it the clock is still precise


class Target:
    """Something which is only referenced weakly by the loop."""
    def __init__(self, record):
        self.record = record

    def method(self, *parameters):
        self.record(*parameters)

    def __call__(self, *parameters):
        self.record(*parameters)


def run_sequence(sequence, stats):
    from scarletio import sleep
    env = Env(Chooser())
    loop = env.loop
    entries = []        # dicts, in order of scheduling
    calls = []
    errors = []
    expected_errors = [0]
    in_loop = [False]
    sleeps = []
    leaps = [0]

    def fail(message):
        errors.append(message)

    def now():
        return CLOCK.now

    def schedule(kind, function_name, *prefix, body = None, target = None):
        entry = {
            'id': len(entries), 'when': None, 'cancelled': False, 'target': None, 'called': 0, 'weak': False, 'kind': kind,
        }

        def record(*parameters):
            if not in_loop[0]:
                fail(f'{kind} was called outside of the loop')
            if parameters != ('p', entry['id']):
                fail(f'{kind} was called with {parameters}')
            entry['called'] += 1
            entry['at'] = now()
            calls.append(entry)
            if entry['called'] > 1:
                fail(f'{kind} was called {entry["called"]} times')
            if entry['cancelled']:
                fail(f'{kind} was called although it was cancelled')
            if entry['weak'] and entry['target'] is None:
                fail(f'{kind} was called although its target is gone')
            if entry['when'] is not None and now() < entry['when'] - RESOLUTION:
                fail(f'{kind} was called {entry["when"] - now()} early')
            if body is not None:
                body(entry)

        callback = record
        if target is not None:
            entry['weak'] = True
            thing = Target(record)
            entry['target'] = thing
            callback = thing.method if target == 'method' else thing
        if function_name in ('call_after', 'call_after_weak'):
            entry['when'] = now() + prefix[0]
        elif function_name in ('call_at', 'call_at_weak'):
            entry['when'] = prefix[0]
        entries.append(entry)
        handle = getattr(loop, function_name)(*prefix, callback, 'p', entry['id'])
        entry['handle'] = handle
        if handle is None:
            fail(f'{function_name} returned None on a running loop')
        elif entry['when'] is not None and abs(handle.when - entry['when']) > 1e-9:
            fail(f'{function_name} scheduled for {handle.when}, expected {entry["when"]}')
        return entry

    def pending():
        return [
            entry for entry in entries
            if not entry['called'] and not entry['cancelled'] and not (entry['weak'] and entry['target'] is None)
        ]

    def cancel(entry):
        entry['handle'].cancel()
        entry['cancelled'] = True
        if not entry['handle'].cancelled:
            fail('a cancelled handle does not report to be cancelled')

    def body_nest(entry):
        schedule('nested', 'call_soon')
        schedule('nested_after', 'call_after', 0.5)

    def body_raise(entry):
        expected_errors[0] += 1
        raise ValueError(entry['id'])

    def body_kill(entry):
        others = pending()
        if others:
            cancel(others[-1])

    def settle(where):
        """Nothing immediate to do: everything due has been called, in order."""
        for entry in pending():
            if entry['when'] is None:
                fail(f'{where}: {entry["kind"]} was not called')
            elif entry['when'] < now() - RESOLUTION:
                fail(f'{where}: {entry["kind"]} is due since {now() - entry["when"]}')
        for deadline, future in sleeps:
            if future.is_done() != (now() >= deadline - RESOLUTION):
                if abs(now() - deadline) > RESOLUTION:
                    fail(f'{where}: sleep is done: {future.is_done()} at {now() - deadline} relative to its end')
        soon = [entry['id'] for entry in calls if entry['when'] is None]
        if soon != sorted(soon):
            fail(f'{where}: callbacks were called in the order {soon}')
        # timers: by deadline, unless one was scheduled late
        for index, entry in enumerate(calls):
            if entry['when'] is None:
                continue
            for later in calls[index + 1:]:
                if later['when'] is None or later['when'] >= entry['when'] - RESOLUTION:
                    continue
                if later['known_at'] <= index:
                    fail(f'{where}: {later["kind"]} was called after {entry["kind"]}, but it was due before')

    original_schedule = schedule

    def schedule(kind, function_name, *prefix, **keywords):
        entry = original_schedule(kind, function_name, *prefix, **keywords)
        # how many calls happened before it was scheduled
        entry['known_at'] = len(calls) if not in_loop[0] else 10 ** 9
        return entry

    def driver():
        try:
            yield from inner()
        finally:
            in_loop[0] = False

    def inner():
        for operation in (*sequence, 'tick', 'tick', 'tick', *(('leap',) if 'far' in sequence else ())):
            stats.transitions += 1
            if operation == 'leap':
                leaps[0] += 1
                if leaps[0] > 3:
                    return
            if operation in ('run', 'tick', 'leap'):
                in_loop[0] = True
                start = now()
                duration = {'run': None, 'tick': 0.6, 'leap': FAR + 10.0}[operation]
                yield duration
                in_loop[0] = False
                if duration is not None and abs(now() - start - duration) > 1e-6:
                    fail(f'time passed {now() - start}')
                settle(operation)
            elif operation == 'soon':
                schedule('soon', 'call_soon')
            elif operation == 'soon_ts':
                schedule('soon_ts', 'call_soon_thread_safe')
            elif operation == 'soon_lazy':
                schedule('soon_lazy', 'call_soon_thread_safe_lazy')
            elif operation == 'after0':
                schedule('after0', 'call_after', 0.0)
            elif operation == 'after1':
                schedule('after1', 'call_after', 0.5)
            elif operation == 'after2':
                schedule('after2', 'call_after', 1.0)
            elif operation == 'far':
                schedule('far', 'call_after', FAR)
            elif operation == 'never':
                schedule('never', 'call_after', float('inf'))
            elif operation == 'at1':
                schedule('at1', 'call_at', now() + 0.5)
            elif operation == 'at_past':
                schedule('at_past', 'call_at', now() - 1.0)
            elif operation == 'weak1':
                schedule('weak1', 'call_after_weak', 0.5, target = 'callable')
            elif operation == 'weak_m2':
                schedule('weak_m2', 'call_at_weak', now() + 1.0, target = 'method')
            elif operation == 'drop':
                for entry in entries:
                    if entry['weak'] and entry['target'] is not None:
                        entry['target'] = None
                        break
            elif operation == 'cancel_old':
                others = pending()
                if others:
                    cancel(others[0])
            elif operation == 'cancel_new':
                others = pending()
                if others:
                    cancel(others[-1])
            elif operation == 'nest':
                schedule('nest', 'call_soon', body = body_nest)
            elif operation == 'raise':
                schedule('raise', 'call_soon', body = body_raise)
            elif operation == 'kill':
                schedule('kill', 'call_soon', body = body_kill)
            elif operation == 'sleep':
                future = sleep(0.5, loop)
                sleeps.append((now() + 0.5, future))
            if errors:
                return

    drive(env, driver())
    stats.evaluations += 1
    if env.finished == 'livelock':
        fail('the loop never became idle')
    escaped = callback_errors(env)
    if not errors and len(escaped) != expected_errors[0]:
        fail(f'{expected_errors[0]} callbacks raised, {len(escaped)} exceptions were reported: {escaped!r}')
    if errors:
        raise Violation('loop:' + ','.join(sequence), errors[0], ['sequence', list(sequence)])
    stats.outcome([(entry['kind'], entry['called'], entry['cancelled']) for entry in entries])


IO_OPERATIONS = (
    'run', 'add_r', 'add_r_once', 'add_w', 'add_w_kill_r', 'rem_r', 'rem_w', 'ready_r', 'ready_w', 'ready_rw', 'cancel_r',
)


def run_io(sequence, stats):
    """File descriptor callbacks."""
    env = Env(Chooser())
    loop = env.loop
    fd = 777
    errors = []
    registered = {'r': None, 'w': None}     # name -> entry
    ready = set()
    calls = []

    def fail(message):
        errors.append(message)

    def io(env_, timeout):
        if not ready:
            return []
        try:
            key = env.selector.get_key(fd)
        except KeyError:
            ready.clear()
            return []
        mask = 0
        if 'r' in ready:
            mask |= EVENT_READ
        if 'w' in ready:
            mask |= EVENT_WRITE
        mask &= key.events
        ready.clear()
        if not mask:
            return []
        return [(key, mask)]

    env.io = io

    def add(direction, kind, body = None):
        entry = {'kind': kind, 'expected': 0, 'called': 0}

        def callback(*parameters):
            entry['called'] += 1
            calls.append(kind)
            if parameters != ('x',):
                fail(f'{kind} was called with {parameters}')
            if registered[direction] is not entry:
                fail(f'{kind} was called although it is not registered anymore')
            if body is not None:
                body()
        function = loop.add_reader if direction == 'r' else loop.add_writer
        entry['handle'] = function(fd, callback, 'x')
        registered[direction] = entry

    def remove(direction):
        function = loop.remove_reader if direction == 'r' else loop.remove_writer
        result = function(fd)
        entry = registered[direction]
        expected = entry is not None
        registered[direction] = None
        if result is not expected and not (expected and entry.get('was_cancelled')):
            fail(f'removing returned {result}, expected {expected}')

    def check_selector():
        try:
            key = env.selector.get_key(fd)
        except KeyError:
            events = 0
        else:
            events = key.events
        for direction, mask in (('r', EVENT_READ), ('w', EVENT_WRITE)):
            entry = registered[direction]
            if entry is not None and not entry.get('was_cancelled') and not events & mask:
                fail(f'{entry["kind"]} is registered, but the selector does not watch it')
            if entry is None and events & mask:
                fail('the selector watches something removed')

    def driver():
        for operation in (*sequence, 'run'):
            stats.transitions += 1
            if operation == 'run':
                expected = {}
                for direction in 'rw':
                    entry = registered[direction]
                    if entry is not None:
                        expected[direction] = (
                            entry, entry['called'] + int(direction in ready and not entry.get('was_cancelled'))
                        )
                before = dict(registered)
                yield
                for direction, (entry, count) in expected.items():
                    if entry['called'] != count:
                        # The other one might have removed it right before
                        if direction == 'r' and registered['r'] is None and entry['called'] == count - 1:
                            continue
                        fail(f'{entry["kind"]} was called {entry["called"]} times, expected {count}')
                for direction in 'rw':
                    entry = registered[direction]
                    if entry is not None and entry.get('was_cancelled') and direction in ready:
                        registered[direction] = None
            elif operation == 'add_r':
                add('r', 'add_r')
            elif operation == 'add_r_once':
                add('r', 'add_r_once', lambda : remove('r'))
            elif operation == 'add_w':
                add('w', 'add_w')
            elif operation == 'add_w_kill_r':
                add('w', 'add_w_kill_r', lambda : remove('r'))
            elif operation == 'rem_r':
                remove('r')
            elif operation == 'rem_w':
                remove('w')
            elif operation == 'cancel_r':
                entry = registered['r']
                if entry is None or entry.get('was_cancelled'):
                    return
                entry['handle'].cancel()
                entry['was_cancelled'] = True
            elif operation.startswith('ready_'):
                ready.update(operation[6:])
                entry = registered['r']
                if 'r' in ready and entry is not None and entry.get('was_cancelled'):
                    # A cancelled reader is removed when it would be called
                    yield
                    if entry['called']:
                        pass
                    registered['r'] = None
            check_selector()
            if errors:
                return

    drive(env, driver())
    stats.evaluations += 1
    escaped = callback_errors(env)
    if escaped:
        fail(f'exception escaped a callback: {escaped[0]!r}')
    if errors:
        raise Violation('io:' + ','.join(sequence), errors[0], ['io', list(sequence)])
    stats.outcome(('io', calls))


class LoopCheck(Check):
    id = 'C08'
    rule = (
        'every sequence of scheduling, cancelling, dropping and running operations up to the depth on a fresh loop, and '
        'every sequence of reader / writer registrations and readiness events; a state is one distinct sequence'
    )
    assumptions = ['single loop thread', 'simulated selector and clock']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        depth = 4 if tier == 'quick' else 5
        jobs = [('sequence', depth, first, second) for first in OPERATIONS for second in OPERATIONS]
        depth = 5 if tier == 'quick' else 6
        jobs.extend(('io', depth, first, second) for first in IO_OPERATIONS for second in IO_OPERATIONS)
        return jobs

    def run_job(self, job, stats, tier):
        kind, depth, first, second = job
        operations, function = (OPERATIONS, run_sequence) if kind == 'sequence' else (IO_OPERATIONS, run_io)
        for rest in product(operations, repeat = depth - 2):
            sequence = (first, second, *rest)
            stats.state((kind, sequence))
            try:
                function(sequence, stats)
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
            if not stats.evaluations % 500:
                gc.collect()
        stats.sample([kind, list(sequence)])

    def replay(self, job, artefact, stats):
        kind, sequence = artefact
        (run_sequence if kind == 'sequence' else run_io)(tuple(sequence), stats)


CHECK = LoopCheck()
