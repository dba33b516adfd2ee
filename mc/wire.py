"""
A transport which records what is written, ways of cutting byte strings, and running many small cases on real loops.
"""
import gc
from itertools import combinations

from .base import Violation
from .explore import Chooser
from .vloop import Env, callback_errors, drive


class Wire:
    """Transport stand-in: records everything."""
    def __init__(self):
        self.written = []
        self.closing = False
        self.aborted = False
        self.paused = False
        self.eof = False
        self.protocol = None
        self.extra = {}
        self.refuse = None

    def write(self, data):
        if self.refuse is not None:
            raise self.refuse
        self.written.append(bytes(data))

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def take(self):
        data = b''.join(self.written)
        self.written.clear()
        return data

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.eof = True

    def close(self):
        self.closing = True

    def abort(self):
        self.closing = True
        self.aborted = True

    def is_closing(self):
        return self.closing

    def pause_reading(self):
        if self.paused:
            return False
        self.paused = True
        return True

    def resume_reading(self):
        if not self.paused:
            return False
        self.paused = False
        return True

    def get_extra_info(self, name, default = None):
        return self.extra.get(name, default)


def cuts(data, amount):
    """Every way to cut `data` at up to `amount` places."""
    length = len(data)
    for count in range(0, amount + 1):
        if count and count > length - 1:
            break
        for places in combinations(range(1, length), count):
            result = []
            start = 0
            for place in places:
                result.append(data[start:place])
                start = place
            if start < length:
                result.append(data[start:])
            yield tuple(result)


def single_bytes(data):
    return tuple(data[index : index + 1] for index in range(len(data)))


def run_cases(functions, stats, job, per_loop = 1500, limit = 12, tolerated = None):
    """
    functions : iterator of callables; each is called with the running `Env` and returns a generator (see `vloop.drive`).
    """
    iterator = iter(functions)
    gc.disable()
    while True:
        env = Env(Chooser(), horizon = 10 ** 9)
        state = {'more': False, 'stop': False}

        def driver():
            for count, function in enumerate(iterator, 1):
                try:
                    yield from function(env)
                except Violation as violation:
                    stats.violate(violation.key, violation.message, violation.artefact)
                    if len(stats.violations) > limit:
                        state['stop'] = True
                        return
                if count >= per_loop:
                    state['more'] = True
                    return

        drive(env, driver())
        if env.escalate is not None and isinstance(env.escalate, Violation):
            stats.violate(env.escalate.key, env.escalate.message, env.escalate.artefact)
        for exception in callback_errors(env):
            if tolerated is not None and tolerated(exception):
                continue
            stats.violate('escaped', f'exception escaped: {exception!r} (job {job!r})')
        gc.collect()
        if env.finished == 'livelock':
            stats.violate('livelock', f'the loop never becomes idle (job {job!r})')
            break
        if not state['more'] or state['stop']:
            break


def run_one(function, stats):
    run_cases([function], stats, 'replay')


def outcome_of(task):
    """('pending',) / ('cancelled', ) / ('result', value) / ('exception', exception)"""
    if not task.is_done():
        return ('pending',)
    if task.is_cancelled():
        return ('cancelled',)
    exception = task.get_exception()
    if exception is not None:
        return ('exception', exception)
    return ('result', task.get_result())


class Sequences:
    """
    Every sequence over an alphabet of the given length, lexicographically. `prune(index)` skips the ones sharing the current one's first
    `index + 1` elements (used when the element at `index` turned out to be impossible there).
    """
    def __init__(self, alphabet, depth, prefix = ()):
        self.alphabet = tuple(alphabet)
        self.depth = depth
        self.fixed = len(prefix)
        self.current = [self.alphabet.index(element) for element in prefix] + [0] * (depth - len(prefix))
        self.next_increment = None
        self.finished = depth < len(prefix)

    def prune(self, index):
        self.next_increment = index

    def __iter__(self):
        while not self.finished:
            self.next_increment = self.depth - 1
            yield tuple(self.alphabet[index] for index in self.current)
            position = self.next_increment
            for rest in range(position + 1, self.depth):
                self.current[rest] = 0
            while position >= self.fixed:
                self.current[position] += 1
                if self.current[position] < len(self.alphabet):
                    break
                self.current[position] = 0
                position -= 1
            else:
                self.finished = True
