"""
Running the same program on the asyncio compatible extension of scarletio and on the asyncio of the standard library.

The programs are sequences of operations; what is observable is compared each time both sides became idle. The last operations of a program
can also be done without letting the loops run between them: then the outcome has to be one which the standard library gives for any of
the ways to let it run (or, where the library is free to do so, for any order of those operations).
"""
from itertools import permutations, product

from . import stdaio
from .base import Check, Violation
from .vloop import quiet_stderr
from .wire import Sequences, run_cases, run_one


# --- the two sides

class Tested:
    name = 'scarletio'

    def __init__(self, env):
        from scarletio.ext.asyncio import asyncio
        self.aio = asyncio
        self.loop = env.loop

    def call(self, function, *positional):
        return function(*positional)


class Model:
    name = 'asyncio'

    def __init__(self):
        self.aio = stdaio.load()
        self.loop = stdaio.new_loop()

    def call(self, function, *positional):
        with stdaio.Inside(self.loop):
            return function(*positional)

    def settle(self):
        stdaio.settle(self.loop)

    def advance(self, seconds):
        stdaio.advance(self.loop, seconds)


IMPOSSIBLE = ('impossible',)


def described(exception):
    """Cancellation and the rest are told by their names: both libraries have their own types."""
    return type(exception).__name__, tuple(argument for argument in exception.args if isinstance(argument, (int, bytes)))


def state_of(future):
    if not future.done():
        return 'pending'
    if future.cancelled():
        return 'cancelled'
    exception = future.exception()
    if exception is not None:
        return described(exception)
    return 'result', future.result()


class World:
    """Users (tasks) of an object. Subclasses implement the operations."""
    users_limit = 3

    def __init__(self, side, configuration):
        self.side = side
        self.aio = side.aio
        self.configuration = configuration
        self.users = []
        self.log = []
        self.futures = []

    def start(self, function, *positional):
        if sum(not user.done() for user in self.users) >= self.users_limit:
            return IMPOSSIBLE
        index = len(self.users)
        self.users.append(self.aio.create_task(self.user(index, function, positional)))
        return None

    async def user(self, index, function, positional):
        try:
            result = await function(index, *positional)
        except BaseException as exception:
            self.log.append((index, described(exception)))
            raise
        self.log.append((index, 'done', result))
        return result

    def cancel(self, position):
        """Cancels the `position`-th user who did not finish yet."""
        alive = [user for user in self.users if not user.done()]
        if position >= len(alive):
            return IMPOSSIBLE
        alive[position].cancel()

    def gate(self):
        future = self.side.loop.create_future()
        self.futures.append(future)
        return future

    def go(self):
        for future in self.futures:
            if not future.done():
                future.set_result(None)
                return
        return IMPOSSIBLE

    def apply(self, operation):
        name, *positional = operation
        try:
            return getattr(self, name)(*positional)
        except Exception as exception:
            return described(exception)

    def view(self):
        return ()

    def observe(self):
        return tuple(state_of(user) for user in self.users), tuple(self.log), self.view()

    def finish(self):
        for user in self.users:
            if not user.done():
                user.cancel()
        for future in self.futures:
            future.cancel()


# --- running

def differs(what, configuration, program, tested, accepted):
    raise Violation(
        f'{what}: {configuration!r}',
        f'{what} ({configuration!r}) after {program!r}: got {tested!r}, asyncio gives {accepted!r}',
        {'what': what, 'configuration': configuration, 'program': program},
    )


def passing(operation):
    return operation[0] == 'pass'


def model_outcomes(world_type, configuration, operations, batch, any_order):
    """Every outcome of the model: the last `batch` operations with or without running between them."""
    outcomes = []
    settled = len(operations) - batch
    if any_order:
        # which one of those which happen in the same instant counts as the first is up to the library
        orders = [(*operations[: settled], *order) for order in permutations(operations[settled :])]
    else:
        orders = [operations]
    for operations, pattern in product(orders, product((True, False), repeat = max(batch - 1, 0))):
        pattern = (*(True for _ in range(len(operations) - batch)), *pattern, True)
        side = Model()
        world = side.call(world_type, side, configuration)
        results = []
        for operation, settled in zip(operations, pattern):
            if passing(operation):
                side.advance(operation[1])
                result = None
            else:
                result = side.call(world.apply, operation)
                if settled:
                    side.settle()
            results.append(result)
        outcomes.append((tuple(results) if not any_order else None, side.call(world.observe)))
        side.call(world.finish)
        side.settle()
    return outcomes


def normalized(value):
    """json turns tuples into lists."""
    if isinstance(value, (list, tuple)):
        return tuple(map(normalized, value))
    return value


def by_user(outcome):
    """The order of what different users do in the same instant is not told: what they end up with is."""
    results, (states, log, view) = outcome
    return results, (states, tuple(sorted(log, key = lambda entry: entry[0])), view)


def settled_case(check, what, configuration, operations, stats, prune):
    world_type = check.worlds[what]

    """Comparing after every operation."""
    def case(env):
        tested_side = Tested(env)
        model_side = Model()
        tested = world_type(tested_side, configuration)
        model = model_side.call(world_type, model_side, configuration)
        for index, operation in enumerate(operations):
            if passing(operation):
                model_side.advance(operation[1])
                yield operation[1]
                result = expected = None
            else:
                expected = model_side.call(model.apply, operation)
                if expected is IMPOSSIBLE:
                    prune(index)
                    break
                result = tested.apply(operation)
                yield None
                model_side.settle()
            observed = result, tested.observe()
            wanted = expected, model_side.call(model.observe)
            stats.transitions += 1
            if normalized(observed) != normalized(wanted):
                prune(index)
                tested.finish()
                yield None
                differs(what, configuration, operations[: index + 1], observed, wanted)
            stats.state(hash((what, configuration, operations[: index + 1])))
        tested.finish()
        model_side.call(model.finish)
        model_side.settle()
        yield None
        stats.evaluations += 1
    return case


def batch_case(check, what, configuration, operations, batch, stats, prune):
    world_type = check.worlds[what]
    any_order = what in check.any_order

    """The last operations without running between them."""
    def case(env):
        tested = world_type(Tested(env), configuration)
        results = []
        limit = len(operations) - batch
        for index, operation in enumerate(operations):
            if passing(operation):
                yield operation[1]
                results.append(None)
                continue
            result = tested.apply(operation)
            if result is IMPOSSIBLE:
                prune(index)
                tested.finish()
                yield None
                return
            results.append(result)
            if index < limit:
                yield None
        yield None
        observed = normalized((tuple(results) if not any_order else None, tested.observe()))
        tested.finish()
        yield None
        stats.evaluations += 1
        stats.transitions += len(operations)
        accepted = model_outcomes(world_type, configuration, operations, batch, any_order)
        if (not any_order) and any(IMPOSSIBLE in results for results, _ in accepted):
            return
        observed = by_user(observed)
        accepted = [by_user(normalized(outcome)) for outcome in accepted]
        if observed not in accepted and not check.excused(what, operations[limit :], observed, accepted):
            differs(what, configuration, ('batch', batch, *operations), observed, accepted)
        stats.state(hash((what, configuration, operations, batch)))
    return case


class TwinCheck(Check):
    rule = 'a state is a distinct program (sequence of operations, how many of the last ones are done at once) on an object'
    worlds = {}
    alphabets = {}
    any_order = () # worlds where the order of what happens in the same instant is up to the library

    def excused(self, what, batch, observed, accepted):
        return False

    def plan(self, quick):
        """Yields `(what, configuration, prefix, depth, batch)`-s."""
        raise NotImplementedError

    def setup(self):
        quiet_stderr()
        stdaio.load()
        import scarletio.ext.asyncio

    def jobs(self, tier):
        return list(self.plan(tier == 'quick'))

    def run_job(self, job, stats, tier):
        what, configuration, prefix, depth, batch = job
        configuration = normalized(configuration)
        sequences = Sequences(self.alphabets[what], depth, normalized(prefix))

        def cases():
            for operations in sequences:
                if batch:
                    yield batch_case(self, what, configuration, operations, batch, stats, sequences.prune)
                else:
                    yield settled_case(self, what, configuration, operations, stats, sequences.prune)

        run_cases(cases(), stats, job)
        stats.sample(repr(job))

    def replay(self, artefact, stats):
        what, configuration = artefact['what'], normalized(artefact['configuration'])
        program = normalized(artefact['program'])
        if program[0] == 'batch':
            case = batch_case(self, what, configuration, program[2:], program[1], stats, lambda index: None)
        else:
            case = settled_case(self, what, configuration, program, stats, lambda index: None)
        run_one(case, stats)
