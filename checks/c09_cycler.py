"""
C09: a cycler calls its functions once per cycle, in priority order, until it is cancelled - whatever is done to it, from
wherever (outside, its own functions, an other thread).
"""
import gc, threading
from itertools import product

from mc.base import CLOCK, Check, Violation
from mc.explore import Chooser
from mc.vloop import Env, callback_errors, drive, quiet_stderr

OUTSIDE = ('cancel', 'call_now', 'reschedule', 'fast', 'slow', 'append_late', 'append_first', 'remove_b', 'remove_missing')
INSIDE = (
    'in_cancel', 'in_call_now', 'in_reschedule', 'in_fast', 'in_append', 'in_remove_self', 'in_raise',
    'in_cancel_reschedule', 'in_reschedule_cancel',
)
OPERATIONS = ('tick', 'half', *OUTSIDE, *(f'{name}@thread' for name in ('cancel', 'call_now', 'reschedule', 'append_late', 'remove_b')), *INSIDE)


class Model:
    def __init__(self, now, created_outside):
        self.cycle = 1.0
        self.next = now + 1.0
        self.functions = [(0, 0, 'a'), (0, 1, 'b')]
        self.counter = 2
        self.queued = []
        self.inside = []
        self.calls = []
        self.errors = 0
        self.blur = set()

    def run(self, now):
        now = round(now, 6)
        start = self.next = object()
        nested = None
        for priority, index, name in [*self.functions]:
            self.calls.append((name, now))
            if name == 'a' and self.inside:
                nested = self.inside.pop(0)
                self.in_function(nested, now)
        if self.next is start:
            self.next = now + self.cycle

    def in_function(self, name, now):
        if name == 'in_cancel':
            self.next = None
        elif name == 'in_call_now':
            self.run(now)
        elif name == 'in_reschedule':
            self.next = now + self.cycle
        elif name == 'in_fast':
            self.cycle = 0.5
        elif name == 'in_append':
            self.append('n', 0, now)
        elif name == 'in_remove_self':
            self.remove('a')
        elif name == 'in_raise':
            self.errors += 1
        elif name == 'in_cancel_reschedule':
            self.next = now + self.cycle
        elif name == 'in_reschedule_cancel':
            self.next = None

    def append(self, name, priority, now):
        self.functions.append((priority, self.counter, name))
        self.counter += 1
        self.functions.sort(key = lambda item: item[0])
        self.blur.add((name, now))

    def remove(self, name):
        for item in self.functions:
            if item[2] == name:
                self.functions.remove(item)
                break

    def outside(self, name, now):
        if name == 'cancel':
            self.next = None
        elif name == 'call_now':
            self.run(now)
        elif name == 'reschedule':
            self.next = now + self.cycle
        elif name == 'fast':
            self.cycle = 0.5
        elif name == 'slow':
            self.cycle = 1.7
        elif name == 'append_late':
            self.append('late', 5, -1)
        elif name == 'append_first':
            self.append('first', -5, -1)
        elif name == 'remove_b':
            self.remove('b')

    def advance(self, now, target):
        while self.queued:
            self.outside(self.queued.pop(0), now)
        while self.next is not None and self.next <= target + 1e-6:
            self.run(self.next)


class Foreign:
    """Something else than the loop, executing temporarily."""
    def __enter__(self):
        ident = threading.get_ident()
        self.loop = threading._active[ident]
        threading._active[ident] = threading.main_thread()

    def __exit__(self, *_):
        threading._active[threading.get_ident()] = self.loop


def run_sequence(sequence, created_outside, stats):
    from scarletio.core import Cycler
    env = Env(Chooser())
    loop = env.loop
    calls = []
    errors = []
    inside = []
    box = {}
    zero = []

    def fail(message):
        errors.append(message)

    def now():
        return round(CLOCK.now - zero[0], 6)

    def check_parameter(parameter):
        if parameter is not box['cycler']:
            fail('a function was called with something else than its cycler')

    def a(cycler):
        check_parameter(cycler)
        calls.append(('a', now()))
        if inside:
            name = inside.pop(0)
            if name == 'in_cancel':
                cycler.cancel()
                if cycler.running:
                    fail('running right after cancel()')
            elif name == 'in_call_now':
                cycler.call_now()
            elif name == 'in_reschedule':
                cycler.reschedule()
            elif name == 'in_fast':
                cycler.set_cycle_time(0.5)
            elif name == 'in_append':
                cycler.append(functions['n'])
            elif name == 'in_remove_self':
                cycler.remove(a)
            elif name == 'in_cancel_reschedule':
                cycler.cancel()
                cycler.reschedule()
            elif name == 'in_reschedule_cancel':
                cycler.reschedule()
                cycler.cancel()
            elif name == 'in_raise':
                raise ValueError

    async def b(cycler):
        check_parameter(cycler)
        calls.append(('b', now()))

    def make(name):
        def function(cycler):
            check_parameter(cycler)
            calls.append((name, now()))
        return function

    functions = {'a': a, 'b': b, 'n': make('n'), 'late': make('late'), 'first': make('first'), 'missing': make('missing')}

    def perform(name):
        cycler = box['cycler']
        if name == 'cancel':
            cycler.cancel()
        elif name == 'call_now':
            cycler.call_now()
        elif name == 'reschedule':
            cycler.reschedule()
        elif name == 'fast':
            cycler.set_cycle_time(0.5)
        elif name == 'slow':
            cycler.set_cycle_time(1.7)
        elif name == 'append_late':
            cycler.append(functions['late'], 5)
        elif name == 'append_first':
            cycler.append(functions['first'], -5)
        elif name == 'remove_b':
            cycler.remove(b)
        elif name == 'remove_missing':
            cycler.remove(functions['missing'])

    def compare(where, model):
        # asynchronous functions run a bit later, but at the same time
        observed = sorted(((time, name) for name, time in calls if (name, time) not in model.blur), key = lambda item: item[0])
        expected = sorted(
            ((time, name) for name, time in model.calls if (name, time) not in model.blur), key = lambda item: item[0]
        )
        if sorted(observed) != sorted(expected):
            fail(f'{where}: called {observed}, expected {expected}')
        else:
            sync_observed = [item for item in observed if item[1] != 'b']
            sync_expected = [item for item in expected if item[1] != 'b']
            if sync_observed != sync_expected:
                fail(f'{where}: called in the order {sync_observed}, expected {sync_expected}')

    def compare_state(where, model):
        if model.queued:
            return
        cycler = box['cycler']
        if cycler.running is not (model.next is not None):
            fail(f'{where}: running is {cycler.running}, expected {model.next is not None}')
        expected = -1.0 if model.next is None else model.next - now()
        got = cycler.get_time_till_next_call()
        if abs(expected - got) > 1e-5:
            fail(f'{where}: time till next call is {got}, expected {expected}')
        expected = -1.0 if model.next is None else model.next + zero[0]
        got = cycler.get_time_of_next_call()
        if abs(expected - got) > 1e-5:
            fail(f'{where}: time of next call is {got}, expected {expected}')

    def driver():
        zero.append(CLOCK.now)
        model = Model(0.0, created_outside)
        if created_outside:
            with Foreign():
                box['cycler'] = Cycler(loop, 1, a, b)
        else:
            box['cycler'] = Cycler(loop, 1, a, b)
        compare_state('initially', model)
        for operation in (*sequence, 'tick', 'tick', 'tick'):
            stats.transitions += 1
            if operation in ('tick', 'half'):
                amount = 1.05 if operation == 'tick' else 0.3
                target = now() + amount
                model.advance(now(), target)
                yield amount
                compare(operation, model)
                compare_state(operation, model)
            elif operation.startswith('in_'):
                inside.append(operation)
                model.inside.append(operation)
            elif operation.endswith('@thread'):
                name = operation[:-len('@thread')]
                with Foreign():
                    perform(name)
                model.queued.append(name)
            else:
                if model.queued:
                    # keep the reference simple: the loop gets to what others asked for first
                    model.advance(now(), now())
                    yield
                perform(operation)
                model.outside(operation, now())
                compare_state(operation, model)
            if errors:
                return
        box['errors'] = model.errors
        repr(box['cycler'])

    drive(env, driver())
    stats.evaluations += 1
    if env.finished == 'livelock':
        fail('the loop never became idle')
    escaped = callback_errors(env)
    if not errors and len(escaped) != box['errors']:
        fail(f'{box["errors"]} functions raised, {len(escaped)} exceptions were reported: {escaped!r}')
    if errors:
        raise Violation(
            f'cycler:{int(created_outside)}:' + ','.join(sequence), errors[0], [list(sequence), created_outside]
        )
    stats.outcome([item[0] for item in calls])


class CyclerCheck(Check):
    id = 'C09'
    rule = (
        'every sequence of operations (from outside, from an other thread, from inside of a function) and passing time up '
        'to the depth on a fresh cycler compared with a reference model; a state is one distinct sequence'
    )
    assumptions = ['operations of other threads are atomic (their interleaving with the loop is explored in C10)']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        return [
            (4 if tier == 'quick' else 5, created_outside, first, second)
            for created_outside in (False, True) for first in OPERATIONS for second in OPERATIONS
        ]

    def run_job(self, job, stats, tier):
        depth, created_outside, first, second = job
        if created_outside:
            depth -= 1
        for rest in product(OPERATIONS, repeat = depth - 2):
            sequence = (first, second, *rest)
            if sum(name.startswith('in_') for name in sequence) > 2:
                continue
            stats.state((created_outside, sequence))
            try:
                run_sequence(sequence, created_outside, stats)
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
            if not stats.evaluations % 500:
                gc.collect()
        stats.sample([list(sequence), created_outside])

    def replay(self, job, artefact, stats):
        sequence, created_outside = artefact
        run_sequence(tuple(sequence), created_outside, stats)


CHECK = CyclerCheck()
