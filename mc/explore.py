"""
Stateless exhaustive exploration over choice points.
"""

class Divergence(Exception):
    """Replaying a prefix met a different choice point: nondeterminism which the harness does not own."""


class Chooser:
    __slots__ = ('prefix', 'trace')

    def __init__(self, prefix = ()):
        self.prefix = prefix
        self.trace = [] # (chosen, count, cost)

    def choose(self, count, cost = 1):
        """
        Picks one out of `count` options. Option 0 is the default and is free; any other option costs `cost` deviations.
        """
        if count <= 0:
            raise ValueError('no options')
        index = len(self.trace)
        if index < len(self.prefix):
            chosen = self.prefix[index]
            if chosen >= count:
                raise Divergence(f'choice {index}: {chosen} out of {count}')
        else:
            chosen = 0
        self.trace.append((chosen, count, cost))
        return chosen

    def choices(self):
        choices = [item[0] for item in self.trace]
        while choices and not choices[-1]:
            choices.pop()
        return choices


def explore(run, bound = None, limit = None, start = ()):
    """
    Explores every choice sequence with at most `bound` deviations (`None`: all).

    run(chooser) executes one complete execution.
    Returns (executions, capped).
    """
    stack = [tuple(start)]
    executions = 0
    while stack:
        prefix = stack.pop()
        chooser = Chooser(prefix)
        run(chooser)
        executions += 1
        trace = chooser.trace
        if len(trace) < len(prefix):
            raise Divergence(f'execution ended after {len(trace)} choices out of {len(prefix)}')
        if limit is not None and executions >= limit:
            return executions, bool(stack)

        spent = 0
        costs = []
        for chosen, count, cost in trace:
            costs.append(spent)
            if chosen:
                spent += cost
        choices = [item[0] for item in trace]
        # deepest alternatives are pushed first so the shortest deviation is explored last .. order is irrelevant for
        # completeness; push so that early deviations pop last (keeps the stack small).
        for index in range(len(prefix), len(trace)):
            chosen, count, cost = trace[index]
            if bound is not None and costs[index] + cost > bound:
                continue
            head = tuple(choices[:index])
            for alternative in range(1, count):
                stack.append(head + (alternative,))
    return executions, False
