"""
Controlled scheduler for real threads: exactly one controlled thread runs at a time, switches happen only at scheduling
points (where the interpreter itself may switch threads inside of the selected files of the code under test: at entering a
function, after a line with a call, after jumping back; and at every blocking operation), and which thread goes on is the
chooser's decision. Preempting a thread which could go on costs one deviation; so does letting a
timeout elapse while an other thread could go on.
"""
import dis, gc, os, sys, threading
from collections import deque
from selectors import DefaultSelector
from _thread import allocate_lock

from .base import CLOCK, REPO, Hang, Violation

_original_start = threading.Thread.start
_RealEvent = threading.Event
_RealLock = threading.Lock


_hashes = [0]


def _thread_hash(thread):
    # sets of threads have to be iterated in the same order every time
    try:
        return thread._verif_hash
    except AttributeError:
        _hashes[0] += 1
        thread._verif_hash = _hashes[0]
        return _hashes[0]


threading.Thread.__hash__ = _thread_hash


class Abort(BaseException):
    pass


class Record:
    __slots__ = ('name', 'gate', 'blocked', 'deadline', 'timed_out', 'finished', 'thread', 'attached', 'where')

    def __init__(self, name):
        self.name = name
        self.gate = allocate_lock()
        self.gate.acquire()
        self.blocked = None         # predicate, when blocked
        self.deadline = None
        self.timed_out = False
        self.finished = False
        self.thread = None
        self.attached = _RealEvent()
        self.where = ''


_calling_lines_cache = {}


def _calling_lines(code):
    """The lines of a code object which contain an instruction at which the interpreter might switch threads."""
    lines = _calling_lines_cache.get(code)
    if lines is None:
        lines = set()
        for instruction in dis.get_instructions(code):
            name = instruction.opname
            if name.startswith(('CALL', 'JUMP_BACKWARD', 'BEFORE_WITH', 'RESUME', 'SEND')) or name == 'WITH_EXCEPT_START':
                if instruction.positions is not None:
                    lines.add(instruction.positions.lineno)
        _calling_lines_cache[code] = lines
    return lines


class _FrameTracer:
    __slots__ = ('scheduler', 'lines', 'previous')

    def __init__(self, scheduler, code):
        self.scheduler = scheduler
        self.lines = _calling_lines(code)
        self.previous = None

    def __call__(self, frame, event, argument):
        if event == 'line':
            line = frame.f_lineno
            previous = self.previous
            self.previous = line
            if previous is None or line <= previous or previous in self.lines:
                self.scheduler.point(frame)
        elif event == 'call':
            # a generator or coroutine continued
            self.previous = None
        return self


class Scheduler:
    """One execution with controlled threads."""
    current_scheduler = None

    def __init__(self, chooser, files, horizon = 20000):
        _hashes[0] = 10
        self.chooser = chooser
        self.prefixes = tuple(os.path.join(os.path.realpath(REPO), 'scarletio', name) for name in files)
        self.file_cache = {}
        self.records = []
        self.by_ident = {}
        self.current = None
        self.lock = _RealLock()
        self.finished = _RealEvent()
        self.verdict = None
        self.points = 0
        self.steps = 0
        self.horizon = horizon
        self.pending_records = {}
        self.switching = True
        self.errors = []
        self.trace = []
        self.aborting = False

    # -- tracing

    def _monitored(self, code):
        try:
            return self.file_cache[code]
        except KeyError:
            filename = os.path.realpath(code.co_filename) if code.co_filename.startswith('/') else code.co_filename
            value = filename.startswith(self.prefixes) and '__repr__' not in code.co_name
            self.file_cache[code] = value
            return value

    def _global_trace(self, frame, event, argument):
        record = self.by_ident.get(threading.get_ident())
        if record is None:
            # first call of a just started thread
            thread = threading.current_thread()
            record = self.pending_records.get(id(thread))
            if record is None:
                sys.settrace(None)
                return None
            self.by_ident[threading.get_ident()] = record
            record.attached.set()
            record.gate.acquire()
            if self.aborting:
                self._park()
        if self._monitored(frame.f_code):
            return _FrameTracer(self, frame.f_code)
        return None

    def _end_thread(self):
        sys.settrace(None)
        ident = threading.get_ident()
        record = self.by_ident.pop(ident, None)
        if record is None:
            return
        record.finished = True
        self._switch(record)

    # -- scheduling

    def _enabled(self, record):
        if record.finished:
            return False
        predicate = record.blocked
        return predicate is None or bool(predicate())

    def point(self, frame = None):
        """Scheduling point of a running thread."""
        if self.aborting:
            self._park()
        if not self.switching:
            return
        record = self.current
        if record is None or self.by_ident.get(threading.get_ident()) is not record:
            return
        self.steps += 1
        if self.steps > self.horizon:
            self._conclude('livelock')
            self._park()
        if frame is not None:
            record.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}'
        others = [other for other in self.records if other is not record and self._enabled(other)]
        timeouts = [
            other for other in self.records
            if other is not record and not other.finished and other.blocked is not None and other.deadline is not None and other not in others
        ]
        if not others and not timeouts:
            return
        self.points += 1
        choice = self.chooser.choose(1 + len(others) + len(timeouts))
        if not choice:
            return
        if choice <= len(others):
            target = others[choice - 1]
        else:
            target = timeouts[choice - 1 - len(others)]
            self._elapse(target)
        self.trace.append((record.where, target.name))
        self._hand_over(record, target)

    def _elapse(self, record):
        if record.deadline > CLOCK.now:
            CLOCK.now = record.deadline
        record.timed_out = True
        record.blocked = None
        record.deadline = None

    def _hand_over(self, record, target):
        self.current = target
        target.gate.release()
        record.gate.acquire()
        if self.aborting:
            self._park()

    def _switch(self, record):
        """The running thread can not go on (blocked or finished): picks an other."""
        while True:
            enabled = [other for other in self.records if self._enabled(other)]
            if enabled:
                if len(enabled) == 1:
                    target = enabled[0]
                else:
                    target = enabled[self.chooser.choose(len(enabled))]
                break
            timed = [other for other in self.records if not other.finished and other.deadline is not None]
            if not timed:
                if all(other.finished for other in self.records):
                    self._conclude('finished')
                else:
                    self._conclude('deadlock')
                if not record.finished:
                    self._park()
                return
            target = min(timed, key = lambda other: other.deadline)
            self._elapse(target)
            break
        if target is record:
            return
        self.trace.append((record.where, target.name))
        self.current = target
        target.gate.release()
        if not record.finished:
            record.gate.acquire()
            if self.aborting:
                self._park()

    def block(self, predicate, timeout = None):
        """Blocks the running thread till the predicate is true. Returns whether it is."""
        if self.aborting:
            self._park()
        record = self.by_ident.get(threading.get_ident())
        if record is None:
            raise RuntimeError('blocking from a not controlled thread')
        self.point()
        if predicate():
            return True
        if timeout is not None and timeout <= 0.0:
            return False
        record.blocked = predicate
        record.deadline = None if timeout is None else CLOCK.now + timeout
        record.timed_out = False
        self._switch(record)
        record.blocked = None
        record.deadline = None
        timed_out = record.timed_out
        record.timed_out = False
        if timed_out:
            return bool(predicate())
        return True

    def _conclude(self, verdict):
        if self.verdict is None:
            self.verdict = verdict
        if verdict != 'finished':
            self.aborting = True
        self.finished.set()

    def _park(self):
        # The execution is over; the thread is of no use anymore and must not touch anything.
        sys.settrace(None)
        lock = allocate_lock()
        lock.acquire()
        lock.acquire()

    # -- api

    def spawn(self, name, function):
        """Adds a controlled thread before the execution starts."""
        def run():
            try:
                function()
            except BaseException as exception:
                self.errors.append((name, exception))
        thread = threading.Thread(target = run, daemon = True, name = name)
        self._register(thread, name)
        return thread

    def _register(self, thread, name):
        record = Record(name)
        record.thread = thread
        self.pending_records[id(thread)] = record
        return record

    def _start_thread(self, thread):
        ident = threading.get_ident()
        parent = self.by_ident.get(ident)
        if parent is None:
            return _original_start(thread)
        if thread._started.is_set():
            raise RuntimeError('threads can only be started once')
        record = self.pending_records.get(id(thread))
        if record is None:
            record = self._register(thread, f'{type(thread).__name__}-{len(self.records)}')
        switching = self.switching
        self.switching = False
        previous = sys.gettrace()
        sys.settrace(None)
        try:
            _original_start(thread)
            record.attached.wait(20.0)
            self.records.append(record)
        finally:
            sys.settrace(previous)
            self.switching = switching
        self.point()

    def run(self, threads, timeout = 25.0):
        previous_trace = threading.gettrace()
        previous_start = threading.Thread.start
        patched = patch_modules()
        gc_enabled = gc.isenabled()
        gc.disable()
        CLOCK.active = True
        CLOCK.now = 1000.0
        Scheduler.current_scheduler = self
        scheduler = self
        threading.Thread.start = lambda thread: scheduler._start_thread(thread)
        threading.settrace(self._global_trace)
        previous_delete = threading.Thread._delete

        def _delete(thread):
            # called at the very end of a thread
            sys.settrace(None)
            scheduler._end_thread()
            previous_delete(thread)

        threading.Thread._delete = _delete
        try:
            for thread in threads:
                record = self.pending_records[id(thread)]
                _original_start(thread)
                record.attached.wait(20.0)
                self.records.append(record)
            index = self.chooser.choose(len(self.records)) if len(self.records) > 1 else 0
            self.current = self.records[index]
            self.current.gate.release()
            if not self.finished.wait(timeout):
                self.verdict = 'stuck'
                self.aborting = True
        finally:
            threading.settrace(previous_trace)
            threading.Thread.start = previous_start
            threading.Thread._delete = previous_delete
            CLOCK.active = False
            Scheduler.current_scheduler = None
            unpatch_modules(patched)
            if gc_enabled:
                gc.enable()
        return self

    def where(self):
        return ', '.join(f'{record.name} at {record.where}' for record in self.records if not record.finished)


class CoopEvent:
    """Stands for `threading.Event` inside of the code under test."""
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout = None):
        scheduler = Scheduler.current_scheduler
        return scheduler.block(lambda: self._flag, timeout)


class CoopLock:
    """Stands for `threading.Lock` inside of the code under test."""
    def __init__(self):
        self._owner = None

    def acquire(self, blocking = True, timeout = -1):
        scheduler = Scheduler.current_scheduler
        if not blocking or scheduler is None or threading.get_ident() not in scheduler.by_ident:
            if self._owner is not None:
                return False
        elif not scheduler.block(lambda: self._owner is None, None if timeout < 0 else timeout):
            return False
        self._owner = threading.get_ident()
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *parameters):
        self.release()


class CoopRLock(CoopLock):
    def __init__(self):
        CoopLock.__init__(self)
        self._count = 0

    def acquire(self, blocking = True, timeout = -1):
        if self._owner == threading.get_ident():
            self._count += 1
            return True
        if CoopLock.acquire(self, blocking, timeout):
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != threading.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None


class CoopCondition:
    def __init__(self, lock = None):
        self._lock = CoopRLock() if lock is None else lock
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *parameters):
        self._lock.__exit__(*parameters)

    def wait(self, timeout = None):
        token = [False]
        self._waiters.append(token)
        self._lock.release()
        try:
            return Scheduler.current_scheduler.block(lambda: token[0], timeout)
        finally:
            if token in self._waiters:
                self._waiters.remove(token)
            self._lock.acquire()

    def wait_for(self, predicate, timeout = None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n = 1):
        for token in self._waiters[:n]:
            token[0] = True
            self._waiters.remove(token)

    def notify_all(self):
        self.notify(len(self._waiters))


class CoopSemaphore:
    def __init__(self, value = 1):
        self._value = value

    def acquire(self, blocking = True, timeout = None):
        if not blocking:
            if not self._value:
                return False
        elif not Scheduler.current_scheduler.block(lambda: self._value > 0, timeout):
            return False
        self._value -= 1
        return True

    def release(self, n = 1):
        self._value += n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *parameters):
        self.release()


class CoopSelector(DefaultSelector):
    """The real selector, which blocks through the scheduler."""
    def select(self, timeout = None):
        scheduler = Scheduler.current_scheduler
        if scheduler is None:
            return DefaultSelector.select(self, timeout)
        poll = DefaultSelector.select
        events = poll(self, 0)
        if not events and (timeout is None or timeout > 0.0):
            scheduler.block(lambda: bool(poll(self, 0)), timeout)
            events = poll(self, 0)
        else:
            scheduler.point()
        return events


_REPLACEMENTS = {
    threading.Event: CoopEvent,
    threading.Lock: CoopLock,
    threading.RLock: CoopRLock,
    threading.Condition: CoopCondition,
    threading.Semaphore: CoopSemaphore,
    threading.BoundedSemaphore: CoopSemaphore,
    DefaultSelector: CoopSelector,
}


class ThreadingProxy:
    """Stands for the `threading` module inside of the code under test."""
    Event = CoopEvent
    Lock = CoopLock
    RLock = CoopRLock
    Condition = CoopCondition
    Semaphore = CoopSemaphore
    BoundedSemaphore = CoopSemaphore

    def __getattr__(self, name):
        return getattr(threading, name)


_patches = None


def patch_modules():
    global _patches
    if _patches is None:
        _patches = []
        proxy = ThreadingProxy()
        for name, module in [*sys.modules.items()]:
            if name != 'scarletio' and not name.startswith('scarletio.'):
                continue
            for attribute, value in [*vars(module).items()]:
                try:
                    replacement = _REPLACEMENTS.get(value)
                except TypeError:
                    continue
                if value is threading:
                    replacement = proxy
                if replacement is not None:
                    _patches.append((module, attribute, value, replacement))
    for module, attribute, value, replacement in _patches:
        setattr(module, attribute, replacement)
    return _patches


def unpatch_modules(patches):
    for module, attribute, value, replacement in patches:
        setattr(module, attribute, value)
