"""
Explicit state exploration of data structures: the reachable states of a model, every operation applied in each of them on the real object next to the model.

Two passes are done for each system:
- `sequences`: every sequence of operations up to a depth, with nothing merged (so state of the real object which the model does not know is reached too);
- `states`: breadth first over the states of the model till nothing new is found (or the model says it grew enough); the real object of a state is rebuilt by replaying the path to it.
"""
from .base import Stats, Violation


class System:
    """
    - `starts`: names of the initial objects
    - `letters`: the operations
    """
    starts = ()
    letters = ()

    def build(self, start):
        """Returns `(real, model)`."""
        raise NotImplementedError

    def apply(self, real, model, letter):
        """Applies the operation on both, compares the outcome; returns `(real, model)`."""
        raise NotImplementedError

    def observe(self, real, model):
        """Compares everything which can be seen."""
        raise NotImplementedError

    def key(self, model):
        raise NotImplementedError

    def enabled(self, model, letter):
        return True

    def run(self, start, path, stats, every = True):
        real, model = self.build(start)
        where = [start]
        try:
            if every:
                self.observe(real, model)
            for index, letter in enumerate(path):
                where.append(letter)
                real, model = self.apply(real, model, letter)
                stats.transitions += 1
                if every:
                    self.observe(real, model)
            if every is False:
                self.observe(real, model)
        except Violation as violation:
            raise Violation(violation.key, f'{violation} | history: {where!r}', [start, *path]) from None
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as exception:
            raise Violation('unexpected:' + type(exception).__name__, f'unexpected {exception!r} | history: {where!r}', [start, *path]) from exception
        return model


def guarded(system, start, path, stats, every):
    try:
        return system.run(start, path, stats, every)
    except Violation as violation:
        stats.violate(violation.key, str(violation), violation.artefact)
        return None


def sequences(system, start, first, depth, stats):
    """Every sequence starting with `first` of `depth` operations; observed at its end only (shorter ones are run on their own)."""
    letters = system.letters

    def extend(path):
        model = guarded(system, start, path, stats, False)
        if model is None:
            return
        stats.evaluations += 1
        stats.nontrivial += 1
        stats.state(system.key(model))
        if len(path) < depth:
            for letter in letters:
                if system.enabled(model, letter):
                    extend((*path, letter))

    _, model = system.build(start)
    if system.enabled(model, letters[first]):
        extend((letters[first],))


def states(system, start, stats, part = 0, parts = 1, limit = None):
    """Every reachable state of the model, every operation in each. The work is shared between `parts` jobs."""
    position = 0
    model = guarded(system, start, (), stats, True)
    if model is None:
        return
    seen = {system.key(model)}
    queue = [((), model)]
    while queue:
        following = []
        for path, model in queue:
            for letter in system.letters:
                if not system.enabled(model, letter):
                    continue
                position += 1
                if position % parts == part:
                    stats.evaluations += 1
                    new = guarded(system, start, (*path, letter), stats, True)
                else:
                    # another job looks at this one
                    try:
                        new = system.run(start, (*path, letter), Stats(), None)
                    except Violation:
                        new = None
                if new is None:
                    continue
                key = system.key(new)
                if key not in seen:
                    seen.add(key)
                    stats.state(key)
                    following.append(((*path, letter), new))
        queue = following
        if limit is not None and len(seen) > limit:
            raise RuntimeError(f'more states than expected: {len(seen)}')
    if not part:
        stats.count('reachable', len(seen))
    stats.outcome(('states', start))


def result_of(function):
    """`('returned', value)` or `('raised', type)`."""
    try:
        return 'returned', function()
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as exception:
        return 'raised', type(exception)


def compare(key, expected, got, message):
    if expected != got or type(expected) is not type(got):
        raise Violation(key, f'{message}: expected {expected!r}, got {got!r}')
