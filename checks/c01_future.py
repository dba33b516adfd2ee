"""
C01: a future completes at most once, its outcome never changes, everyone waiting is notified exactly once.

Every operation sequence over the alphabet below up to the depth, executed on real futures on a real event loop with a
virtual clock, compared with a small reference model after every operation.
"""
import gc
from itertools import product

from mc.base import Check, Stats, Violation, arm
from mc.explore import Chooser
from mc.vloop import Env, callback_errors, quiet_stderr


class E1(Exception):
    pass


class E2(Exception):
    pass


# name -> short operation; simplest first
OPERATIONS = (
    'run',            # let the loop run until there is nothing immediate to do
    'tick',           # as run, then let 1 second pass
    'result',         # set_result
    'result?',        # set_result_if_pending
    'exception',      # set_exception
    'exception?',     # set_exception_if_pending
    'cancel',
    'cancel_with',
    'cb_a',           # add_done_callback
    'cb_b',
    'cb_add_in_cb',   # callback which adds an other callback when it is called
    'rm_a',           # remove_done_callback
    'await',          # a task awaiting the future
    'await_c',        # a task awaiting only its completion
    'timeout',        # apply_timeout(0.5)
    'timeout0',       # apply_timeout(0.0)
    'get',            # get_result / get_exception
    'stop_iter',      # set_exception(StopIteration) is refused
    'silence',
)


class Model:
    """Reference: what a future is."""
    def __init__(self):
        self.state = 'pending'      # or ('return', value), ('raise', exception), ('cancel', exception or None)
        self.registered = []        # callback names, before completion
        self.expected = {}          # callback name -> how many times it has to be called at all
        self.deadline = None
        self.waiting = 0
        self.now = 0.0

    @property
    def done(self):
        return self.state != 'pending'

    def finish(self, state):
        if self.done:
            return False
        self.state = state
        for name in self.registered:
            self.expected[name] = self.expected.get(name, 0) + 1
        self.registered = []
        self.deadline = None
        return True

    def add(self, name):
        if self.done:
            self.expected[name] = self.expected.get(name, 0) + 1
        else:
            self.registered.append(name)


def describe_result(future):
    try:
        value = future.get_result()
    except BaseException as exception:
        return ('raised', type(exception).__name__, exception.args if isinstance(exception, (E1, E2)) else None)
    return ('returned', value)


def model_result(model):
    state = model.state
    if state == 'pending':
        return ('raised', 'InvalidStateError', None)
    kind, value = state
    if kind == 'return':
        return ('returned', value)
    if kind == 'raise':
        return ('raised', type(value).__name__, value.args if isinstance(value, (E1, E2)) else None)
    if value is None:
        return ('raised', 'CancelledError', None)
    return ('raised', type(value).__name__, value.args if isinstance(value, (E1, E2)) else None)


def run_sequence(sequence, stats):
    from scarletio import CancelledError, InvalidStateError
    env = Env(Chooser(), interleave = False)
    loop = env.loop
    model = Model()
    calls = {}
    wrong_argument = []
    waiters = []
    errors = []
    box = {}

    def fail(message):
        errors.append(message)

    def make_callback(name):
        def callback(future):
            calls[name] = calls.get(name, 0) + 1
            if future is not box['future']:
                wrong_argument.append(name)
            if not future.is_done():
                fail(f'callback {name} called before completion')
            if name == 'cb_add_in_cb':
                model.add('cb_nested')
                future.add_done_callback(callbacks['cb_nested'])
        return callback

    callbacks = {name: make_callback(name) for name in ('cb_a', 'cb_b', 'cb_add_in_cb', 'cb_nested')}

    async def awaiting(record, future):
        try:
            value = await future
        except BaseException as exception:
            record.append(
                ('raised', type(exception).__name__, exception.args if isinstance(exception, (E1, E2)) else None)
            )
        else:
            record.append(('returned', value))

    async def awaiting_completion(record, future):
        await future.wait_for_completion()
        if not future.is_done():
            fail('wait_for_completion returned on a pending future')
        record.append('completed')

    counter = [0]

    def check_observation(where):
        future = box['future']
        if future.is_done() != model.done:
            fail(f'{where}: is_done() is {future.is_done()}, expected {model.done}')
        if future.is_pending() != (not model.done):
            fail(f'{where}: is_pending() is {future.is_pending()}')
        expected_cancelled = model.done and model.state[0] == 'cancel'
        if future.is_cancelled() != expected_cancelled:
            fail(f'{where}: is_cancelled() is {future.is_cancelled()}, expected {expected_cancelled}')
        for name, count in calls.items():
            if count > model.expected.get(name, 0):
                fail(f'{where}: callback {name} called {count} times, expected {model.expected.get(name, 0)}')

    def check_settled(where):
        # the loop ran out of things to do: everything due has happened
        check_observation(where)
        for name, count in model.expected.items():
            if calls.get(name, 0) != count:
                fail(f'{where}: callback {name} called {calls.get(name, 0)} times, expected {count}')
        if wrong_argument:
            fail(f'{where}: callback got something else than its future')
        for kind, record in waiters:
            if model.done:
                expected = 'completed' if kind == 'await_c' else model_result(model)
                if record != [expected]:
                    fail(f'{where}: waiter ({kind}) got {record}, expected {[expected]}')
            elif record:
                fail(f'{where}: waiter ({kind}) woken on a pending future with {record}')

    def apply(name):
        future = box['future']
        counter[0] += 1
        value = counter[0]
        if name in ('result', 'result?', 'exception', 'exception?'):
            method = {
                'result': 'set_result', 'result?': 'set_result_if_pending', 'exception': 'set_exception',
                'exception?': 'set_exception_if_pending',
            }[name]
            parameter = value if name.startswith('result') else (E1(value) if value & 1 else E2)
            raised = None
            returned = None
            try:
                returned = getattr(future, method)(parameter)
            except InvalidStateError as exception:
                raised = exception
            if parameter is E2:
                parameter = E2()
            new = ('return', value) if name.startswith('result') else ('raise', parameter)
            changed = model.finish(new)
            if name.endswith('?'):
                if raised is not None:
                    fail(f'{method} raised {raised!r}')
                elif returned != int(changed):
                    fail(f'{method} returned {returned!r}, expected {int(changed)}')
            else:
                if changed and raised is not None:
                    fail(f'{method} on a pending future raised {raised!r}')
                if (not changed) and raised is None:
                    fail(f'{method} on a done future did not raise')
        elif name == 'cancel':
            returned = future.cancel()
            changed = model.finish(('cancel', None))
            if returned != int(changed):
                fail(f'cancel returned {returned!r}, expected {int(changed)}')
        elif name == 'cancel_with':
            exception = E1(value)
            returned = future.cancel_with(exception)
            changed = model.finish(('cancel', exception))
            if returned != int(changed):
                fail(f'cancel_with returned {returned!r}, expected {int(changed)}')
        elif name in ('cb_a', 'cb_b', 'cb_add_in_cb'):
            before = dict(calls)
            future.add_done_callback(callbacks[name])
            if calls != before:
                fail('callback called synchronously by add_done_callback')
            model.add(name)
        elif name == 'rm_a':
            expected = model.registered.count('cb_a')
            model.registered = [item for item in model.registered if item != 'cb_a']
            returned = future.remove_done_callback(callbacks['cb_a'])
            if returned != expected:
                fail(f'remove_done_callback returned {returned!r}, expected {expected}')
        elif name == 'await':
            record = []
            waiters.append((name, record))
            env.task(awaiting(record, future))
        elif name == 'await_c':
            record = []
            waiters.append((name, record))
            env.task(awaiting_completion(record, future))
        elif name == 'timeout':
            returned = future.apply_timeout(0.5)
            if returned != int(not model.done):
                fail(f'apply_timeout returned {returned!r}, expected {int(not model.done)}')
            if not model.done:
                deadline = model.now + 0.5
                if model.deadline is None or deadline < model.deadline:
                    model.deadline = deadline
        elif name == 'timeout0':
            returned = future.apply_timeout(0.0)
            changed = model.finish(('cancel', TimeoutError()))
            if returned != int(changed):
                fail(f'apply_timeout(0) returned {returned!r}, expected {int(changed)}')
        elif name == 'get':
            got = describe_result(future)
            if got != model_result(model):
                fail(f'get_result gave {got}, expected {model_result(model)}')
            try:
                exception = future.get_exception()
            except InvalidStateError:
                if model.done:
                    fail('get_exception raised on a done future')
            else:
                if not model.done:
                    fail('get_exception on a pending future did not raise')
                elif model.state[0] == 'return':
                    if exception is not None:
                        fail(f'get_exception gave {exception!r}')
                elif exception is None or type(exception).__name__ != model_result(model)[1]:
                    fail(f'get_exception gave {exception!r}, expected {model_result(model)}')
            cancellation = future.get_cancellation_exception()
            if (cancellation is not None) != (model.done and model.state[0] == 'cancel'):
                fail(f'get_cancellation_exception gave {cancellation!r}')
        elif name == 'stop_iter':
            try:
                future.set_exception(StopIteration())
            except TypeError:
                if model.done:
                    fail('wrong exception')
            except InvalidStateError:
                if not model.done:
                    fail('wrong exception')
            else:
                fail('StopIteration accepted')
        elif name == 'silence':
            future.silence()
            if not future.is_silenced():
                fail('not silenced after silence()')

    state = {'index': 0, 'final': 0, 'wake': None}

    def proceed():
        """Performs operations until one which gives control back. Returns whether the loop should go on."""
        while state['index'] < len(sequence):
            name = sequence[state['index']]
            state['index'] += 1
            stats.transitions += 1
            if name == 'run':
                return True
            if name == 'tick':
                state['wake'] = model.now + 1.0
                return True
            apply(name)
            check_observation(name)
            stats.state((sequence[:state['index']],))
            if errors:
                return False
        if state['final'] < 2:
            # let 5 seconds pass at the end
            state['final'] += 1
            if state['final'] == 1:
                state['wake'] = model.now + 5.0
            return True
        return False

    def idle(env_, timeout = None):
        """Nothing immediate to do; `timeout` is the time till the next timer or `None`."""
        if errors:
            return stop()
        check_settled('after ' + repr(sequence[:state['index']]))
        wake = state['wake']
        if wake is not None:
            # time passes till `wake`, timers fire in between
            from mc.base import CLOCK
            target = 1000.0 + wake
            if timeout is not None and CLOCK.now + timeout <= target + 1e-6:
                CLOCK.now += timeout
                model.now = CLOCK.now - 1000.0
                if model.deadline is not None and model.now >= model.deadline - 1e-6:
                    model.finish(('cancel', TimeoutError()))
                return True
            CLOCK.now = target
            model.now = wake
            state['wake'] = None
            if model.deadline is not None and model.now >= model.deadline - 1e-6:
                fail('a timeout was due, but no timer is pending')
                return stop()
        if not proceed():
            return stop()
        return True

    def stop():
        from mc.vloop import ExecutionDone
        env.finished = 'idle'
        raise ExecutionDone()

    env.on_idle = idle
    env.on_wait = idle

    def setup():
        box['future'] = env.future()
        check_observation('initially')
        proceed()

    env.run(setup)
    stats.evaluations += 1
    if env.finished == 'livelock':
        fail('the loop never became idle')
    for exception in callback_errors(env):
        fail(f'exception escaped a callback of the loop: {exception!r}')
    stats.outcome((model.state[0] if model.done else 'pending', sorted(calls.items()), len(waiters)))
    if model.done and (waiters or calls):
        stats.nontrivial += 1
    if errors:
        raise Violation('future:' + ','.join(sequence), errors[0], list(sequence))


class FutureCheck(Check):
    id = 'C01'
    level = 'model_checking'
    rule = (
        'every sequence of operations of the alphabet up to the depth, on a fresh future; a state is a distinct operation '
        'prefix, a transition one operation; each execution compared with the reference model after every operation and '
        'whenever the loop is idle'
    )
    assumptions = ['single loop thread (cross thread completion is C10)', 'the clock and the selector are simulated']

    def setup(self):
        quiet_stderr()
        gc.disable()

    def jobs(self, tier):
        depth = 4 if tier == 'quick' else 5
        return [(depth, first, second) for first in OPERATIONS for second in OPERATIONS]

    def run_job(self, job, stats, tier):
        depth, first, second = job
        done = 0
        if first == 'run' or first == 'tick':
            return # same as the sequences one shorter
        for rest in product(OPERATIONS, repeat = depth - 2):
            sequence = (first, second, *rest)
            try:
                run_sequence(sequence, stats)
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
            done += 1
            if not done % 500:
                gc.collect()
        stats.sample(list(sequence))

    def replay(self, job, artefact, stats):
        run_sequence(tuple(artefact), stats)


CHECK = FutureCheck()
