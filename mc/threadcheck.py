"""
What the checks exploring thread interleavings share: the context of a scenario and the check running scenarios.
"""
import gc, io, sys

from .base import CLOCK, Check, Violation
from .explore import Chooser, explore
from .threads import Scheduler, patch_modules


class Context:
    def __init__(self, scheduler):
        self.scheduler = scheduler
        self.loops = []
        self.results = {}
        self.problems = []
        self.threads_left = None
        self.log = []

    def loop(self, start = True):
        from scarletio import EventThread
        loop = EventThread(daemon = True, name = f'loop{len(self.loops)}')
        self.loops.append(loop)
        scheduler = self.scheduler
        scheduler._register(loop, loop.name)
        if start:
            self.quietly(lambda: self.start(loop))
        return loop

    def start(self, loop):
        loop.call_soon_thread_safe(int)
        self.settle(loop)

    def record(self, thread):
        for record in self.scheduler.records:
            if record.thread is thread:
                return record

    def settle(self, loop):
        """Waits till the loop has nothing to do."""
        self.scheduler.block(lambda: self.record(loop) is not None and self.record(loop).blocked is not None and not loop._ready)

    def quietly(self, function):
        scheduler = self.scheduler
        previous = scheduler.switching
        scheduler.switching = False
        try:
            return function()
        finally:
            scheduler.switching = previous

    def stop(self):
        scheduler = self.scheduler
        def stopping():
            for loop in self.loops:
                record = self.record(loop)
                if record is None or record.finished:
                    continue
                loop.stop()
                scheduler.block(lambda: record.finished)
        self.quietly(stopping)

    def result_of(self, function):
        try:
            result = function()
        except BaseException as exception:
            return (type(exception).__name__, *(item for item in exception.args if isinstance(item, (int, str))))
        return ('ok', result)


def execute(check, chooser, spec, stats):
    name, *parameters = spec
    scheduler = Scheduler(chooser, check.files)
    context = Context(scheduler)
    scenario = check.scenarios[name](context, *parameters)
    captured = sys.stderr = io.StringIO()
    patch_modules()
    threads = [scheduler.spawn(thread_name, function) for thread_name, function in next(scenario)]
    scheduler.run(threads)
    choices = chooser.choices()
    stats.transitions += scheduler.steps
    where = f'{spec!r} schedule {choices}'
    key = f'{spec!r}'
    for record in scheduler.records:
        record.thread = None
    if scheduler.verdict != 'finished':
        raise Violation(
            f'{key}:{scheduler.verdict}',
            f'{where}: {scheduler.verdict}; left: {scheduler.where()}; switches: {scheduler.trace[-12:]}', choices
        )
    for thread_name, exception in scheduler.errors:
        raise Violation(f'{key}:error', f'{where}: {thread_name} failed with {exception!r}; switches: {scheduler.trace[-12:]}', choices)
    for _ in scenario:
        pass
    text = captured.getvalue()
    if text and 'never retrieved' not in text:
        context.problems.append(f'reported on stderr: {text[-400:]}')
    if context.problems:
        raise Violation(f'{key}:wrong', f'{where}: {context.problems}; switches: {scheduler.trace[-12:]}', choices)
    stats.outcome((name, sorted(context.results.items())))
    return scheduler


class ThreadCheck(Check):
    files = ()
    scenarios = {}

    def specs(self, tier):
        raise NotImplementedError

    rule = (
        'a state is a distinct schedule (sequence of choices) of a scenario; every execution is a complete run of real threads, with every '
        'placement of preemptions (where the interpreter might switch threads in the explored files) up to the bound'
    )
    assumptions = [
        'threads are switched in the explored files at entering functions, after lines with calls, at backward jumps (where CPython 3.12 may release its lock), and at blocking operations',
        'threading.Event / Lock / selectors are replaced by cooperative ones with the same semantics',
    ]

    def setup(self):
        pass

    def bound(self, spec, tier):
        return 1 if tier == 'quick' else 2

    def jobs(self, tier):
        return [(spec, self.bound(spec, tier)) for spec in self.specs(tier)]

    def run_job(self, job, stats, tier):
        spec, bound = job
        stderr = sys.stderr
        found = []

        def run(chooser):
            try:
                execute(self, chooser, spec, stats)
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
                found.append(violation)
                if len(found) >= 3 or violation.key.endswith(':stuck'):
                    raise StopExploring() from None
            stats.state((spec, chooser.choices()))
            stats.evaluations += 1
            if stats.evaluations % 50 == 0:
                gc.collect()

        gc.collect()
        gc.disable()
        try:
            limit = 30000 if tier == 'quick' else 40000
            executions, capped = explore(run, bound, limit)
        except StopExploring:
            return
        finally:
            sys.stderr = stderr
            gc.enable()
        stats.sample({'scenario': repr(spec), 'schedules': executions})
        stats.count('schedules_' + spec[0], executions)
        if capped:
            stats.capped.append(f'{spec}: {executions}')

    def replay(self, job, artefact, stats):
        spec, bound = job
        stderr = sys.stderr
        try:
            execute(self, Chooser(tuple(artefact or ())), spec, stats)
        finally:
            sys.stderr = stderr


class StopExploring(Exception):
    pass

