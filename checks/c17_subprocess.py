"""
C17: subprocesses: their streams carry exactly what was written, their end is told once to everyone waiting, and they are signaled only if asked.

The real event loop, pipe transports and `AsyncProcess` over real pipes; the child is a stand-in inside of the harness (`Popen` is replaced), whose
every action is an operation of the explored sequences.
"""
import gc, os, select, signal, socket as module_socket, subprocess as module_subprocess
from itertools import product
from selectors import EVENT_READ, EVENT_WRITE

from mc.base import CLOCK, Check, Violation
from mc.explore import Chooser
from mc.vloop import Env, callback_errors, drive, quiet_stderr

PIPE = module_subprocess.PIPE
DEVNULL = module_subprocess.DEVNULL
STDOUT = module_subprocess.STDOUT

BIG = 300000
CURRENT = None # the case being executed


class Child:
    """The far side: what the process does."""
    def __init__(self):
        self.ends = {}
        self.got = bytearray()
        self.got_eof = False
        self.written = {1: bytearray(), 2: bytearray()}
        self.exit_code = None
        self.reaped = False
        self.signals = []
        self.problems = []
        self.shared = False
        self.counter = 0

    def write(self, descriptor):
        end = self.ends.get(descriptor)
        if end is None:
            return False
        self.counter += 1
        data = b'%d:%d\n' % (descriptor, self.counter)
        try:
            os.write(end, data)
        except BrokenPipeError:
            return True
        self.written[1 if self.shared else descriptor] += data
        return True

    def read(self):
        end = self.ends.get(0)
        if end is None:
            return False
        while True:
            try:
                data = os.read(end, 1 << 20)
            except BlockingIOError:
                return True
            except ConnectionResetError:
                data = b''
            if not data:
                self.got_eof = True
                return True
            if self.got_eof:
                self.problems.append('data after eof on stdin')
            self.got += data

    def close_end(self, descriptor):
        end = self.ends.pop(descriptor, None)
        if end is None:
            return False
        os.close(end)
        return True

    def exit(self, code, leave = False):
        if self.exit_code is not None:
            return False
        self.exit_code = code
        if not leave:
            for descriptor in (0, 1, 2):
                self.close_end(descriptor)
        return True

    def has_output(self, descriptor):
        return descriptor in self.ends or (descriptor == 1 and self.shared and 2 in self.ends)


class FakePopen:
    def __init__(self, args, bufsize = -1, executable = None, stdin = None, stdout = None, stderr = None, **parameters):
        case = CURRENT
        case.started = self
        self.args = args
        self.pid = 4242
        self.returncode = None
        self.child = child = case.child
        self.stdin = self.stdout = self.stderr = None
        if stdin == PIPE:
            read_end, write_end = os.pipe()
            self.stdin = open(write_end, 'wb', 0)
            child.ends[0] = read_end
        elif stdin is not None and stdin != DEVNULL:
            child.ends[0] = os.dup(stdin if isinstance(stdin, int) else stdin.fileno())
        if stdout == PIPE:
            read_end, child.ends[1] = os.pipe()
            self.stdout = open(read_end, 'rb', 0)
        if stderr == PIPE:
            read_end, child.ends[2] = os.pipe()
            self.stderr = open(read_end, 'rb', 0)
        elif stderr == STDOUT and 1 in child.ends:
            child.ends[2] = os.dup(child.ends[1])
            child.shared = True
        for end in child.ends.values():
            os.set_blocking(end, False)

    def poll(self):
        if self.returncode is None:
            self.returncode = self.child.exit_code
        return self.returncode

    def wait(self, timeout = None):
        if self.poll() is None:
            raise Violation('', 'waiting for the process blocks the event loop')
        return self.returncode

    def send_signal(self, number):
        if self.poll() is None:
            child = self.child
            child.signals.append(int(number))
            if number != signal.SIGUSR1:
                child.exit(-int(number))

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


CONFIGURATIONS = {
    'all': (PIPE, PIPE, PIPE),
    'merged': (PIPE, PIPE, STDOUT),
    'input': (PIPE, DEVNULL, None),
    'output': (None, PIPE, None),
    'none': (DEVNULL, None, DEVNULL),
}

CHILD = ('o', 'e', 'O', 'E', 'r', 'I', 'x', 'g')
PARENT = ('w', 'W', 'd', 'c', 'R', 'S', 'v', 't', 'T', 'X', 'm', 'u', 'k', 'z', 'C', 'N', 'D', 'p')


class Waiting:
    """Something the user awaits."""
    def __init__(self, kind, task, since, timeout = None, start = 0):
        self.kind = kind
        self.task = task
        self.deadline = None if timeout is None else since + timeout
        self.cancelled = False
        self.start = start
        self.checked = False


class Case:
    def __init__(self, configuration, operations, settled, late, backwards):
        self.configuration = configuration
        self.operations = operations
        self.settled = settled
        self.late = late
        self.backwards = backwards
        self.child = Child()
        self.started = None
        self.process = None
        self.waiting = []
        self.executor = []
        self.sent = bytearray()
        self.input_closed = False
        self.input_owned = False # by `communicate`
        self.input_unknown = False
        self.killing = False
        self.reading = {1: False, 2: False}
        self.signals = []
        self.ended_by_us = False
        self.told_exit = False
        self.time_of_exit = None

    def key(self):
        return f'{self.configuration}:{"".join(self.operations)}:{"s" if self.settled else "-"}{"l" if self.late else "-"}{"b" if self.backwards else "-"}'

    def fail(self, message):
        raise Violation(self.key(), f'{message} (operations {" ".join(self.operations)}; {self.configuration}, settled {self.settled}, late {self.late}, backwards {self.backwards})')

    # loop side

    def io(self, env, timeout):
        events = []
        keys = [key for key in env.selector.get_map().values() if key.fd not in self.base]
        if not keys:
            return events
        poller = select.poll()
        for key in keys:
            poller.register(key.fd, (select.POLLIN if key.events & EVENT_READ else 0) | (select.POLLOUT if key.events & EVENT_WRITE else 0))
        by_descriptor = {key.fd: key for key in keys}
        for descriptor, event in sorted(poller.poll(0), reverse = self.backwards):
            if event & select.POLLNVAL:
                raise Violation(self.key(), 'a closed file descriptor is watched')
            mask = 0
            if event & ~select.POLLIN:
                mask |= EVENT_WRITE
            if event & ~select.POLLOUT:
                mask |= EVENT_READ
            key = by_descriptor[descriptor]
            mask &= key.events
            if mask:
                events.append((key, mask))
        return events

    def execute(self, function):
        from scarletio import Future
        future = Future(self.env.loop)
        self.executor.append((function, future))
        self.deliver(False)
        return future

    def deliver(self, now):
        """Functions in executors end when the process does."""
        if self.child.exit_code is None or (self.late and not now):
            return False
        done = False
        while self.executor:
            function, future = self.executor.pop(0)
            if future.is_done():
                continue
            done = True
            try:
                result = function()
            except BaseException as exception:
                future.set_exception(exception)
            else:
                future.set_result(result)
        return done

    # operations

    def perform(self, name):
        """Returns whether it was anything."""
        from scarletio import Task
        child = self.child
        process = self.process
        loop = self.env.loop
        if name == 'o':
            return child.write(1)
        if name == 'e':
            return child.write(2)
        if name == 'O':
            return child.close_end(1)
        if name == 'E':
            return child.close_end(2)
        if name == 'I':
            return child.close_end(0)
        if name == 'r':
            return child.read()
        if name in ('x', 'g'):
            result = child.exit(3, name == 'g')
            self.deliver(False)
            return result
        if name in ('w', 'W'):
            stdin = process.stdin
            if stdin is None or self.input_owned:
                return False
            data = b'in\n' if name == 'w' else bytes(BIG)
            if not self.input_closed:
                self.sent += data
            stdin.write(data)
            return True
        if name == 'c':
            if process.stdin is None or self.input_owned:
                return False
            self.input_closed = True
            process.stdin.close()
            return True
        if name == 'd':
            if process.stdin is None:
                return False
            self.wait_for('drain', process.stdin.drain())
            return True
        if name in ('R', 'S'):
            descriptor = 1 if name == 'R' else 2
            stream = process.stdout if name == 'R' else process.stderr
            if stream is None or self.reading[descriptor]:
                return False
            self.reading[descriptor] = True
            self.wait_for(descriptor, stream.read())
            return True
        if name == 'v':
            self.wait_for('wait', process.wait())
            return True
        if name == 't':
            self.wait_for('wait', process.wait(1.0), 1.0)
            return True
        if name in ('C', 'N', 'D'):
            if self.reading[1] or self.reading[2] or (name == 'C' and self.input_closed):
                return False
            self.reading[1] = self.reading[2] = True
            if name == 'N':
                coroutine = process.communicate()
            elif name == 'D':
                coroutine = process.communicate(None, 1.0)
            else:
                if process.stdin is not None:
                    self.sent += bytes(BIG)
                coroutine = process.communicate(bytes(BIG))
            self.input_closed = self.input_owned = True
            self.wait_for('communicate', coroutine, 1.0 if name == 'D' else None)
            return True
        if name == 'X':
            for waiting in reversed(self.waiting):
                if waiting.kind != 'kill' and not waiting.cancelled and not waiting.task.is_done():
                    waiting.cancelled = True
                    if waiting.kind == 'communicate':
                        self.input_unknown = True
                    waiting.task.cancel()
                    return True
            return False
        if name in ('m', 'u'):
            alive = child.exit_code is None
            number = signal.SIGTERM if name == 'm' else signal.SIGUSR1
            if alive:
                self.signals.append(int(number))
            try:
                process.terminate() if name == 'm' else process.send_signal(number)
            except ProcessLookupError:
                if alive:
                    self.fail('the process can not be signaled while it is alive')
            self.deliver(False)
            return True
        if name in ('k', 'z'):
            if child.exit_code is None:
                self.signals.append(int(signal.SIGKILL))
                # killing is a coroutine, something else might come before it starts
                self.killing = self.killing or (name == 'k' and not self.settled)
            self.ended_by_us = True
            if name == 'k':
                task = Task(loop, process.kill())
                self.waiting.append(Waiting('kill', task, CLOCK.now))
            else:
                process.close()
                if not process.is_closing():
                    self.fail('the process is not closing after it was closed')
            return True
        if name == 'p':
            code = process.poll()
            if code != child.exit_code and (code is not None or self.told_exit):
                self.fail(f'`poll` tells {code} instead of {child.exit_code}')
            return True
        if name == 'T':
            return True
        raise AssertionError(name)

    def wait_for(self, kind, coroutine, timeout = None):
        from scarletio import Task
        self.waiting.append(Waiting(kind, Task(self.env.loop, coroutine), CLOCK.now, timeout))

    # verdict

    def check(self):
        """Nothing immediate is left to do."""
        child = self.child
        process = self.process
        if child.signals != self.signals and not (self.killing and [number for number in self.signals if number != signal.SIGKILL] == [number for number in child.signals if number != signal.SIGKILL]):
            self.fail(f'the process received the signals {child.signals} instead of {self.signals}')
        if child.problems:
            self.fail(child.problems[0])
        for waiting in self.waiting:
            self.check_waiting(waiting)
        if not self.sent.startswith(child.got):
            self.fail('the process received an other input than what was sent')
        if child.got_eof and 0 in child.ends:
            if not self.input_closed and not self.ended_by_us:
                self.fail('the input of the process ended, but it was not closed')
            if not self.ended_by_us and not self.input_unknown and len(child.got) != len(self.sent):
                self.fail(f'the input of the process ended after {len(child.got)} bytes instead of {len(self.sent)}')
        exited = child.exit_code
        if exited is not None:
            self.told_exit = True
        if process.return_code is not None and process.return_code != exited:
            self.fail(f'the return code is {process.return_code} instead of {exited}')

    def check_waiting(self, waiting):
        if waiting.checked:
            return
        child = self.child
        task = waiting.task
        kind = waiting.kind
        exited = child.exit_code
        now = CLOCK.now
        done = task.is_done()
        timed_out = waiting.deadline is not None and now >= waiting.deadline
        if done:
            waiting.checked = True
        exception = None
        result = None
        cancelled = False
        if done:
            if task.is_cancelled():
                cancelled = True
            else:
                exception = task.get_exception()
                if exception is None:
                    result = task.get_result()
        name = {1: 'reading stdout', 2: 'reading stderr'}.get(kind, kind)
        if cancelled:
            if not waiting.cancelled:
                self.fail(f'{name} was cancelled, but not by us')
            return
        if waiting.cancelled and not done:
            self.fail(f'{name} does not end when it is cancelled')
        if kind == 'wait' or kind == 'kill':
            if kind == 'kill':
                if not done or exception is not None:
                    self.fail(f'killing did not end: {exception!r}')
                return
            if done:
                if exception is not None:
                    if not isinstance(exception, (module_subprocess.TimeoutExpired, TimeoutError)) or not timed_out:
                        self.fail(f'waiting for the process failed with {exception!r}')
                    if exited is not None and self.time_of_exit < waiting.deadline:
                        self.fail('waiting for the process timed out after the process exited')
                elif exited is None or result != exited:
                    self.fail(f'waiting for the process returned {result!r}, the exit code is {exited}')
            else:
                if exited is not None:
                    self.fail('waiting for the process goes on after the process exited')
                if timed_out:
                    self.fail('waiting for the process does not time out')
            return
        if kind == 'communicate':
            ended = exited is not None and not child.has_output(1) and not child.has_output(2)
            if not done:
                if timed_out:
                    self.fail('communicating with the process does not time out')
                if ended and 0 not in child.ends:
                    self.fail('communicating with the process does not end')
                return
            if exception is not None:
                if isinstance(exception, (module_subprocess.TimeoutExpired, TimeoutError)) and timed_out:
                    self.input_unknown = True
                    return
                self.fail(f'communicating with the process failed with {exception!r}')
            if self.ended_by_us:
                return
            if exited is None:
                self.fail('communicating ended before the process exited')
            wanted = tuple(
                None if configured is not True else bytes(child.written[descriptor])
                for descriptor, configured in ((1, CONFIGURATIONS[self.configuration][1] == PIPE), (2, CONFIGURATIONS[self.configuration][2] == PIPE))
            )
            if result != wanted:
                self.fail(f'communicating returned {result!r} instead of {wanted!r}')
            return
        if kind == 'drain':
            if self.ended_by_us:
                if not done and 0 not in child.ends:
                    self.fail('draining does not end after the process is closed')
                return
            if not done:
                if 0 not in child.ends:
                    self.fail('draining does not end if the process closed its input')
                if len(child.got) == len(self.sent):
                    self.fail('draining does not end after everything was received')
                return
            if exception is not None:
                if not isinstance(exception, (BrokenPipeError, ConnectionError)) or (0 in child.ends and not self.input_closed):
                    self.fail(f'draining failed with {exception!r}')
            elif 0 in child.ends and len(self.sent) - len(child.got) > BIG * 2:
                self.fail(f'draining ended while too much is unsent')
            return
        # reading
        if not done:
            if not child.has_output(kind):
                self.fail(f'{name} does not end after the process closed it')
            if self.ended_by_us:
                self.fail(f'{name} does not end after the process was closed')
            return
        if exception is not None:
            self.fail(f'{name} failed with {exception!r}')
        if self.ended_by_us:
            if not child.written[kind].startswith(result):
                self.fail(f'{name} gave an other data than what was written')
            return
        if child.has_output(kind):
            self.fail(f'{name} ended before the process closed it')
        if result != child.written[kind]:
            self.fail(f'{name} gave {result!r} instead of {bytes(child.written[kind])!r}')

    def driver(self):
        from scarletio import Task
        loop = self.env.loop
        self.base = {key.fd for key in self.env.selector.get_map().values()}
        stdin, stdout, stderr = CONFIGURATIONS[self.configuration]
        before_start = self.operations.index('|') if '|' in self.operations else 0
        task = Task(loop, loop.subprocess_exec('program', 'parameter', stdin = stdin, stdout = stdout, stderr = stderr))
        operations = self.operations
        if before_start:
            # things happening while connecting to the process
            for name in operations[:before_start]:
                yield ('step', 1)
                if self.started is not None:
                    self.perform(name)
            operations = operations[before_start + 1:]
        yield None
        if not task.is_done():
            self.fail('starting the process does not end')
        exception = task.get_exception()
        if exception is not None:
            self.fail(f'starting the process failed with {exception!r}')
        self.process = task.get_result()
        for index, name in enumerate((*operations, 'end')):
            if name == 'end':
                break
            if not self.perform(name) and not before_start:
                self.pointless = True
                break
            if self.child.exit_code is not None and self.time_of_exit is None:
                self.time_of_exit = CLOCK.now
            if name == 'T':
                yield None
                if self.deliver(True):
                    yield None
                yield 2.0
                yield None
                if self.child.exit_code is not None and self.time_of_exit is None:
                    self.time_of_exit = CLOCK.now
                self.check()
            elif self.settled:
                yield None
                if self.child.exit_code is not None and self.time_of_exit is None:
                    self.time_of_exit = CLOCK.now
                self.deliver(False)
                yield None
                if self.late and self.deliver(True):
                    yield None
                self.check()
        yield None
        if self.child.exit_code is not None and self.time_of_exit is None:
            self.time_of_exit = CLOCK.now
        self.deliver(True)
        yield None
        if self.executor:
            self.deliver(True)
            yield None
        self.check()
        # the end: the process consumes everything and exits
        child = self.child
        for repeat in range(64):
            if 0 not in child.ends or len(child.got) == len(self.sent):
                break
            child.read()
            yield None
        self.check()
        if 0 in child.ends and not self.ended_by_us and not self.input_unknown and len(child.got) != len(self.sent):
            self.fail(f'the process received {len(child.got)} bytes of the {len(self.sent)} sent')
        if 0 in child.ends and self.input_closed and not self.input_unknown:
            child.read()
            if not child.got_eof:
                self.fail('the input of the process was closed, but it is not told')
        child.exit(3)
        for descriptor in (0, 1, 2):
            child.close_end(descriptor)
        if self.time_of_exit is None:
            self.time_of_exit = CLOCK.now
        yield None
        self.deliver(True)
        yield None
        self.check()
        for waiting in self.waiting:
            if not waiting.task.is_done():
                self.fail(f'{waiting.kind} never ends')
        process = self.process
        last = Task(loop, process.wait())
        yield None
        self.deliver(True)
        yield None
        if not last.is_done() or last.get_result() != child.exit_code or process.return_code != child.exit_code or process.poll() != child.exit_code:
            self.fail(f'the process exited with {child.exit_code}, its return code is {process.return_code}')
        process.close()
        yield None
        self.check()
        left = [key.fd for key in self.env.selector.get_map().values() if key.fd not in self.base]
        if left:
            self.fail('file descriptors are watched after the process ended')
        for stream in (self.started.stdin, self.started.stdout, self.started.stderr):
            if stream is not None and not stream.closed:
                self.fail('a pipe is left open after the process ended')
        errors = callback_errors(self.env)
        if errors:
            self.fail(f'an exception escaped: {errors[0]!r}')
        self.completed = True

    def run(self):
        global CURRENT
        CURRENT = self
        self.pointless = False
        self.completed = False
        descriptors = len(os.listdir('/proc/self/fd'))
        self.env = env = Env(Chooser([]), horizon = 3000, interleave = False)
        env.executor_handler = self.execute
        env.io = self.io
        created = len(os.listdir('/proc/self/fd')) - descriptors
        try:
            drive_steps(env, self.driver())
            if env.finished == 'livelock':
                self.fail('the loop never comes to rest')
            if not self.pointless and not self.completed:
                self.fail(f'the execution did not complete: {env.finished}')
            if self.completed:
                now = len(os.listdir('/proc/self/fd')) - descriptors - created
                if now > 0:
                    self.fail(f'{now} file descriptors are left open')
            return self.completed
        finally:
            child = self.child
            for descriptor in list(child.ends):
                child.close_end(descriptor)
            if self.pointless and self.started is not None:
                process = self.started
                for stream in (process.stdin, process.stdout, process.stderr):
                    if stream is not None:
                        stream.close()
            CURRENT = None


def drive_steps(env, driver):
    """As `drive`, but `yield ('step', n)` lets only `n` cycles of the loop pass."""
    state = {'steps': None}

    def inner():
        value = None
        while True:
            try:
                wanted = driver.send(None)
            except StopIteration:
                return
            if isinstance(wanted, tuple):
                state['steps'] = wanted[1]
                yield None
                state['steps'] = None
            else:
                yield wanted

    real_io = env.io

    def io(env_, timeout):
        steps = state['steps']
        if steps is not None:
            if steps == 0:
                # let the driver act now
                env.on_idle(env, None)
                return []
            state['steps'] = steps - 1
        return real_io(env_, timeout)

    env.io = io
    try:
        return drive(env, inner())
    finally:
        driver.close()


def alphabet_of(configuration):
    stdin, stdout, stderr = CONFIGURATIONS[configuration]
    names = []
    for name in (*CHILD, *PARENT):
        if name in 'wWdcIr' and stdin != PIPE:
            continue
        if name in 'oOR' and stdout != PIPE:
            continue
        if name in 'eE' and stderr != PIPE and not (stderr == STDOUT and stdout == PIPE):
            continue
        if name == 'S' and stderr != PIPE:
            continue
        names.append(name)
    return names


class SubprocessCheck(Check):
    id = 'C17'
    rule = 'a case is a distinct sequence of actions of the process and of its user, with the loop running between them or not, and the exit being told early or late'
    assumptions = [
        'the child process is a stand-in acting over real pipes; the parameters given to `Popen` are not checked',
        'each stream is read by one reader at a time',
    ]

    def setup(self):
        quiet_stderr()
        module_subprocess.Popen = FakePopen
        import scarletio.core.subprocess.subprocess as module
        if hasattr(module, 'Popen'):
            module.Popen = FakePopen
        gc.disable()

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for configuration in CONFIGURATIONS:
            alphabet = alphabet_of(configuration)
            depth = (4 if configuration == 'none' else 3) + (not quick)
            for first in alphabet:
                for second in alphabet:
                    jobs.append(('operations', configuration, (first, second), depth))
            jobs.append(('connecting', configuration, 3 if quick else 4))
        return jobs

    def run_job(self, job, stats, tier):
        kind, configuration, *rest = job
        alphabet = alphabet_of(configuration)
        if kind == 'operations':
            prefix, depth = rest
            lengths = range(0, depth - 1)
            for length in lengths:
                for tail in product(alphabet, repeat = length):
                    operations = (*prefix, *tail)
                    for settled in (True, False):
                        for late, backwards in ((False, False), (True, True)) if length == depth - 2 else product((False, True), repeat = 2):
                            self.one(Case(configuration, operations, settled, late, backwards), stats)
        else:
            child_only = [name for name in alphabet if name in CHILD and name != 'g']
            for length in range(1, rest[0] + 1):
                for start in product(child_only, repeat = length):
                    for after in ((), ('R',), ('C',), ('v',)):
                        if after and after[0] not in alphabet:
                            continue
                        for late in (False, True):
                            self.one(Case(configuration, (*start, '|', *after), True, late, False), stats)
        stats.sample(repr(job))

    def one(self, case, stats):
        try:
            completed = case.run()
        except Violation as violation:
            stats.violate(violation.key or case.key(), violation.message, [case.configuration, list(case.operations), case.settled, case.late, case.backwards])
            completed = True
        if completed:
            stats.evaluations += 1
            stats.transitions += case.env.steps
            stats.state(case.key())
            stats.outcome(repr((case.child.exit_code, [waiting.task.is_cancelled() for waiting in case.waiting], bytes(case.child.written[1]))))
        case.env.loop.env = None
        if stats.evaluations % 200 == 0:
            gc.collect()


CHECK = SubprocessCheck()
