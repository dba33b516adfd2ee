"""
Runs the real event loop of the code under test deterministically: virtual clock, fake selector, and a hook before every
callback where the environment may act.
"""
import sys, threading
from collections import deque
from selectors import EVENT_READ, EVENT_WRITE, _BaseSelectorImpl

from .base import CLOCK, Hang, Violation
from .explore import Divergence


class ExecutionDone(BaseException):
    pass


class _Ready(deque):
    """The loop's ready queue with a hook right before a callback is taken out of it."""
    hook = None

    def popleft(self):
        hook = self.hook
        if hook is not None:
            hook()
        return deque.popleft(self)


# `epoll_wait` takes milliseconds as a 32 bit signed integer
MAXIMUM_TIMEOUT = (1 << 31) // 1000


class VSelector(_BaseSelectorImpl):
    """Selector answering from the harness."""
    env = None

    def select(self, timeout = None):
        if timeout is not None and timeout > MAXIMUM_TIMEOUT:
            # as the one of the operating system
            raise OverflowError('timeout is too large')
        return self.env._on_select(timeout)

    def modify(self, fileobj, events, data = None):
        # same behaviour as unregister + register, keeps the key
        key = self._fd_to_key[self._fileobj_lookup(fileobj)]
        key = key._replace(events = events, data = data)
        self._fd_to_key[key.fd] = key
        return key


_loop_type = None


def _get_loop_type():
    global _loop_type
    if _loop_type is None:
        from scarletio import EventThread, Future

        class VLoop(EventThread):
            env = None

            def is_alive(self):
                return True

            def run_in_executor(self, function):
                env = self.env
                if env is not None and env.executor_handler is not None:
                    return env.executor_handler(function)
                if env is not None:
                    exception = exception_of(function)
                    if isinstance(exception, (Hang, ExecutionDone, Violation, Divergence)):
                        env.escalate = exception
                    env.background.append(function)
                future = Future(self)
                future.set_result(None)
                return future

        _loop_type = VLoop
    return _loop_type


def exception_of(function):
    """Tries to dig out the exception from a queued exception-writer function."""
    seen = set()
    pending = [function]
    while pending:
        item = pending.pop()
        if id(item) in seen:
            continue
        seen.add(id(item))
        if isinstance(item, BaseException):
            return item
        if isinstance(item, (tuple, list)):
            pending.extend(item)
        elif isinstance(item, dict):
            pending.extend(item.values())
        else:
            for name in getattr(type(item), '__slots__', ()) or ():
                try:
                    pending.append(getattr(item, name))
                except Exception:
                    pass
    return None


class Env:
    """
    One execution.

    actors : list of lists of callables; each actor's operations happen in order, at any point the chooser picks.
    io : optional callable `io(env, timeout) -> list of (key, mask)`, called from select; when it returns a non-empty list
         those events are delivered.
    """
    def __init__(self, chooser, horizon = 4000, interleave = True):
        self.chooser = chooser
        self.horizon = horizon
        self.steps = 0
        self.actors = []
        self.background = []
        self.executor_handler = None
        self.io = None
        self.on_idle = None
        self.interleave = interleave
        self.on_wait = None
        self.finished = False
        self.escalate = None
        self.cleanup = []
        self.log = []
        loop = _get_loop_type()()
        self.loop = loop
        loop.env = self
        selector = loop.selector
        if selector is not None:
            selector.close()
        self.selector = VSelector()
        self.selector.env = self
        loop.selector = self.selector
        ready = _Ready()
        ready.hook = self._on_step
        # the ready queue: the only deque of a fresh loop
        for name in ('_ready',):
            if isinstance(getattr(loop, name, None), deque):
                setattr(loop, name, ready)
                break
        else:
            for name in dir(loop):
                if type(getattr(loop, name, None)) is deque and name.find('exec') == -1:
                    setattr(loop, name, ready)
                    break
        self.ready = ready
        self.in_hook = False

    # -- harness side

    def actor(self, *operations):
        self.actors.append(list(operations))

    def task(self, coroutine):
        from scarletio import Task
        return Task(self.loop, coroutine)

    def future(self):
        from scarletio import Future
        return Future(self.loop)

    def _options(self):
        return [actor for actor in self.actors if actor]

    def _perform(self, actor):
        operation = actor.pop(0)
        operation()

    def _on_step(self):
        if self.escalate is not None:
            raise self.escalate
        self.steps += 1
        if self.steps > self.horizon:
            self.finished = 'livelock'
            raise ExecutionDone()
        if not self.interleave or self.in_hook:
            return
        self.in_hook = True
        try:
            while True:
                options = self._options()
                if not options:
                    return
                choice = self.chooser.choose(len(options) + 1)
                if not choice:
                    return
                self._perform(options[choice - 1])
        finally:
            self.in_hook = False

    def _on_select(self, timeout):
        if self.escalate is not None:
            raise self.escalate
        self.steps += 1
        if self.steps > self.horizon:
            self.finished = 'livelock'
            raise ExecutionDone()

        io = self.io
        if io is not None:
            events = io(self, timeout)
            if events:
                return events

        if timeout is not None and timeout <= 0.0:
            return []

        on_wait = self.on_wait
        if on_wait is not None and on_wait(self, timeout):
            return []

        options = self._options()
        if timeout is not None:
            # A timer is pending: let it fire by default, or act before.
            if options and self.interleave:
                choice = self.chooser.choose(len(options) + 1)
                if choice:
                    self._perform(options[choice - 1])
                    return []
            CLOCK.now += timeout
            return []

        if options:
            choice = self.chooser.choose(len(options), cost = 0)
            self._perform(options[choice])
            return []

        on_idle = self.on_idle
        if on_idle is not None and on_idle(self):
            return []

        self.finished = 'idle'
        raise ExecutionDone()

    def run(self, setup):
        """Starts the loop, calls `setup()` inside of it, and runs till nothing can happen anymore."""
        loop = self.loop
        CLOCK.active = True
        CLOCK.now = 1000.0
        ident = threading.get_ident()
        previous = threading._active.get(ident)
        hooks = sys.get_asyncgen_hooks()
        threading._active[ident] = loop
        loop.started = True
        loop._started.set()
        try:
            original_enter = loop.context.__enter__
            try:
                # setup runs in the context of the running loop, before its first cycle
                setup_state = [False]
                real_select = self._on_select

                def first_select(timeout):
                    self._on_select = real_select
                    self.in_hook = True
                    try:
                        setup()
                    finally:
                        self.in_hook = False
                    return []

                self._on_select = first_select
                loop.runner()
            except ExecutionDone:
                pass
            else:
                self.finished = 'stopped'
        finally:
            CLOCK.active = False
            sys.set_asyncgen_hooks(*hooks)
            if previous is None:
                threading._active.pop(ident, None)
            else:
                threading._active[ident] = previous
            for function in self.cleanup:
                function()
        return self


def drive(env, driver):
    """
    Runs the loop under the control of `driver`, a generator.

    `yield None` : lets the loop run till there is nothing immediate to do.
    `yield seconds` : as above, then lets that much time pass (timers fire at their own time).
    When the generator finishes the execution ends. Actors are not used.
    """
    state = {'target': None}

    def proceed():
        try:
            wanted = driver.send(None)
        except StopIteration:
            env.finished = 'idle'
            raise ExecutionDone() from None
        if wanted is not None:
            state['target'] = CLOCK.now + wanted

    def idle(env_, timeout = None):
        target = state['target']
        if target is not None:
            if timeout is not None and CLOCK.now + timeout <= target + 1e-6:
                CLOCK.now += max(timeout, 0.0)
                return True
            CLOCK.now = target
            state['target'] = None
        proceed()
        return True

    env.on_idle = idle
    env.on_wait = idle
    env.interleave = False
    try:
        return env.run(proceed)
    finally:
        driver.close()


def callback_errors(env):
    """Exceptions which escaped callbacks run by the loop (not the un-retrieved exception notices)."""
    errors = []
    for function in env.background:
        text = _texts_of(function)
        if 'never retrieved' in text:
            continue
        exception = exception_of(function)
        if exception is not None:
            errors.append(exception)
    return errors


def _texts_of(function):
    seen = set()
    texts = []
    pending = [function]
    while pending:
        item = pending.pop()
        if id(item) in seen:
            continue
        seen.add(id(item))
        if isinstance(item, str):
            texts.append(item)
        elif isinstance(item, (tuple, list)):
            pending.extend(item)
        elif isinstance(item, dict):
            pending.extend(item.values())
        elif not isinstance(item, BaseException):
            for name in getattr(type(item), '__slots__', ()) or ():
                try:
                    pending.append(getattr(item, name))
                except Exception:
                    pass
    return '\n'.join(texts)


def quiet_stderr():
    """The code under test reports un-retrieved exceptions on stderr; not a verdict."""
    import os
    null = open(os.devnull, 'w')
    sys.stderr = null
    return null
