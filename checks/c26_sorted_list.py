"""
C26: sorted lists stay sorted and complete.

Explicit state: every reachable state (up to a length) of a model of a sorted list, every operation applied in each of them, and every sequence of operations up to a depth, on the real `SortedList` next to the model.
"""
import copy, pickle

from mc.base import Check, Violation
from mc.states import System, compare, result_of, sequences, states


class Item:
    """Ordered and compared by its key; the label tells which one it is."""
    __slots__ = ('key', 'label')

    def __init__(self, key, label):
        self.key = key
        self.label = label

    def __eq__(self, other):
        return self.key == other.key

    def __ne__(self, other):
        return self.key != other.key

    def __lt__(self, other):
        return self.key < other.key

    def __gt__(self, other):
        return self.key > other.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f'{self.key}{self.label}'


def show(items):
    return [repr(item) for item in items]


def key_of(item):
    return item.key


class Model:
    """Groups of equal elements, from the smallest one; within a group the order is left open."""
    def __init__(self, reverse, items = ()):
        self.reverse = reverse
        self.items = sorted(items, key = key_of)

    def group(self, key):
        return [item for item in self.items if item.key == key]


def check_content(where, real, model):
    """Takes over the order of equal elements from the real one (it is left open)."""
    items = [list.__getitem__(real, index) for index in range(list.__len__(real))]
    if sorted(show(items)) != sorted(show(model.items)):
        raise Violation('content', f'{where}: expected {show(model.items)} in some order, got {show(items)}')
    keys = [item.key for item in items]
    if keys != sorted(keys, reverse = model.reverse):
        raise Violation('order', f'{where}: not sorted (reverse = {model.reverse}): {show(items)}')
    model.items = items[::-1] if model.reverse else items


KEYS = (1, 2, 3)
LISTS = ((), ('2x',), ('3x', '1x'), ('1x', '1y'), ('2x', '1x', '3x'), ('3y', '2x', '2y'))


def item(text):
    return Item(int(text[0]), text[1])


class SortedLists(System):
    def __init__(self, limit, narrow = False):
        from scarletio.utils import SortedList
        self.type = SortedList
        self.limit = limit
        letters = []
        for key in KEYS:
            letters += [('add', f'{key}a'), ('add', f'{key}b'), ('remove', key), ('pop', key), ('pop', key, 7)]
        letters += [('remove', 0), ('remove', 9), ('pop', 0), ('pop', 9, 7)]
        letters += [('del', index) for index in (0, 1, -1, 5)] + [('del-slice', 1, 3), ('clear',), ('copy',), ('copy-module',), ('deepcopy',), ('pickle', 0), ('pickle', 4), ('rebuild', False), ('rebuild', True), ('resort',), ('mutate',), ('failed-extend',), ('failed-add',)]
        letters += [('reverse', False), ('reverse', True)]
        for index in range(len(LISTS)):
            letters += [('extend', index, form) for form in ('list', 'generator', 'sorted', 'reversed')]
        letters += [('extend', 3, 'derived'), ('extend', 'self')]
        if narrow:
            letters = [letter for letter in letters if letter in (
                ('add', '1a'), ('add', '2a'), ('add', '2b'), ('remove', 2), ('pop', 1), ('del', 0), ('reverse', True), ('reverse', False), ('extend', 2, 'list'), ('extend', 5, 'reversed'), ('extend', 5, 'sorted'), ('copy',), ('pickle', 4), ('extend', 'self'))]
        self.letters = tuple(letters)
        self.starts = tuple(f'{reverse}-{form}-{index}' for reverse in ('up', 'down') for form in ('list', 'generator', 'sorted', 'reversed') for index in range(len(LISTS)))

    def source(self, form, index):
        items = [item(text) for text in LISTS[index]]
        if form == 'list':
            return items
        if form == 'generator':
            return (value for value in items)
        if form == 'derived':
            class Derived(self.type):
                __slots__ = ()
            return Derived(items, True)
        return self.type(items, form == 'reversed')

    def build(self, start):
        direction, form, index = start.split('-')
        reverse = direction == 'down'
        source = self.source(form, int(index))
        real = self.type(source, reverse) if reverse or form == 'list' else self.type(source)
        model = Model(reverse, [item(text) for text in LISTS[int(index)]])
        check_content('built', real, model)
        return real, model

    def key(self, model):
        return (model.reverse, tuple(show(model.items)))

    def enabled(self, model, letter):
        length = len(model.items)
        if letter[0] == 'add':
            return length < self.limit
        if letter[0] == 'extend':
            return length + (length if letter[1] == 'self' else len(LISTS[letter[1]])) <= self.limit
        return True

    def apply(self, real, model, letter):
        name, *rest = letter
        before = list(model.items)
        if name == 'add':
            value = item(rest[0])
            compare('add', None, real.add(value), 'add')
            group = model.group(value.key)
            if len(group) <= 1:
                # replaces the one equal to it
                model.items = sorted([other for other in model.items if other.key != value.key] + [value], key = key_of)
            else:
                # one of those is replaced, which one is left open
                labels = [show([*(other for position, other in enumerate(group) if position != index), value]) for index in range(len(group))]
                got = [other for other in real if other.key == value.key]
                if sorted(show(got)) not in [sorted(label) for label in labels]:
                    raise Violation('add', f'add of {value} to {show(before)} gave {show(real)}')
                model.items = sorted([other for other in model.items if other.key != value.key] + got, key = key_of)
        elif name == 'remove':
            compare('remove', None, real.remove(Item(rest[0], '?')), 'remove')
            self.one_less(real, model, rest[0], None)
        elif name == 'pop':
            key = rest[0]
            got = real.pop(key, key_of, *rest[1:])
            if not model.group(key):
                compare('pop', rest[1] if len(rest) > 1 else None, got, f'pop({key}) of {show(before)}')
            elif got not in model.group(key) or repr(got) not in show(model.group(key)):
                raise Violation('pop', f'pop({key}) of {show(before)} gave {got!r}')
            else:
                self.one_less(real, model, key, got)
        elif name == 'del':
            outcome = result_of(lambda: real.__delitem__(rest[0]))
            items = model.items[::-1] if model.reverse else list(model.items)
            expected = result_of(lambda: items.__delitem__(rest[0]))
            compare('del', expected, outcome, f'del [{rest[0]}] of {show(before)}')
            model.items = items[::-1] if model.reverse else items
        elif name == 'del-slice':
            items = model.items[::-1] if model.reverse else list(model.items)
            del items[rest[0] : rest[1]]
            del real[rest[0] : rest[1]]
            model.items = items[::-1] if model.reverse else items
        elif name == 'clear':
            real.clear()
            model.items = []
        elif name in ('copy', 'copy-module', 'deepcopy', 'pickle', 'rebuild'):
            original = real
            if name == 'copy':
                real = original.copy()
            elif name == 'copy-module':
                real = copy.copy(original)
            elif name == 'deepcopy':
                real = copy.deepcopy(original)
            elif name == 'pickle':
                # protocol 0 and 1 need the state of the items too
                real = pickle.loads(pickle.dumps(original, max(rest[0], 2)))
            else:
                real = self.type(original, rest[0])
                model.reverse = rest[0]
            if type(real) is not self.type or real is original:
                raise Violation('copy', f'{name} gave {real!r}')
            if name != 'rebuild':
                # equal elements keep their order too
                compare('copy', show(original), show(real), f'{name} of {original!r}')
                compare('copy', original.reverse, real.reverse, f'direction of {name}')
            original.clear()
            original.add(Item(2, 'z'))
            original.reverse = not original.reverse
        elif name == 'resort':
            real.resort()
        elif name == 'mutate':
            # the elements' keys are changed, then it is told
            items = [Item(4 - value.key, value.label) for value in model.items]
            real = real.copy()
            for index, value in enumerate(list(real)):
                list.__setitem__(real, index, Item(4 - value.key, value.label))
            real.resort()
            model.items = sorted(items, key = key_of)
        elif name == 'failed-extend':
            def values():
                yield Item(1, 'q')
                raise KeyError(4)
            compare('failed', ('raised', KeyError), result_of(lambda: real.extend(values())), 'extending failed')
        elif name == 'failed-add':
            if model.items:
                compare('failed', ('raised', AttributeError), result_of(lambda: real.add(5)), 'adding something which can not be compared')
        elif name == 'reverse':
            real.reverse = rest[0]
            model.reverse = rest[0]
        elif name == 'extend':
            if rest[0] == 'self':
                # could go on forever
                class Guard(Exception):
                    pass
                added = before
                source = real
                self.extend_guarded(real)
            else:
                source = self.source(rest[1], rest[0])
                added = [item(text) for text in LISTS[rest[0]]]
                compare('extend', None, real.extend(source), 'extend')
                if rest[1] in ('sorted', 'reversed', 'list', 'derived') and sorted(show(source)) != sorted(LISTS[rest[0]]):
                    raise Violation('extend', f'extend changed what it was extended with: {show(source)}')
                if rest[1] in ('sorted', 'reversed'):
                    source.clear()
            model.items = sorted([*model.items, *added], key = key_of)
        else:
            raise RuntimeError(letter)
        check_content(f'{name} of {show(before)}', real, model)
        return real, model

    def extend_guarded(self, real):
        from mc.base import Hang
        import sys
        limit = [5000]

        def trace(frame, event, arg):
            limit[0] -= 1
            if limit[0] < 0:
                raise Hang
            return trace

        sys.settrace(trace)
        try:
            real.extend(real)
        except Hang:
            raise Violation('endless', f'extending a sorted list with itself never ends (its length is {len(real)} already)') from None
        finally:
            sys.settrace(None)

    def one_less(self, real, model, key, gone):
        group = model.group(key)
        if not group:
            return
        got = show([value for value in real if value.key == key])
        for index, value in enumerate(group):
            if gone is not None and repr(value) != repr(gone):
                continue
            left = show(other for position, other in enumerate(group) if position != index)
            if sorted(left) == sorted(got):
                model.items.remove(value)
                for position, other in enumerate(model.items):
                    pass
                model.items = sorted([other for other in model.items if other.key != key] + [other for position, other in enumerate(group) if position != index], key = key_of)
                return
        raise Violation('remove', f'exactly one of {show(group)} should be gone, left: {got}')

    def observe(self, real, model):
        items = model.items[::-1] if model.reverse else list(model.items)
        keys = [value.key for value in items]
        compare('len', len(items), len(real), 'len')
        compare('bool', bool(items), bool(real), 'bool')
        compare('iter', show(items), show(real), 'iterating')
        compare('iter', show(items[::-1]), show(reversed(real)), 'reversed')
        compare('getitem', show(items), [repr(real[index]) for index in range(len(items))], 'indexing')
        compare('getitem', show(items[1:]), show(real[1:]), 'slicing')
        compare('getitem', ('raised', IndexError), result_of(lambda: real[len(items)]), 'indexing past its end')
        compare('reverse', model.reverse, real.reverse, 'reverse')
        for key in (0, *KEYS, 1.5, 9):
            probe = Item(key, '?')
            present = key in keys
            compare('contains', present, probe in real, f'{key} in {show(items)}')
            outcome = result_of(lambda: real.index(probe))
            compare('index', ('returned', keys.index(key)) if present else ('raised', ValueError), outcome, f'index of {key} in {show(items)}')
            compare('count', keys.count(key), real.count(probe), f'count of {key}')
            for found in (real.relative_index(probe), real.keyed_relative_index(key, key_of)):
                # everything before the index belongs before, everything from it is the same or belongs after
                if model.reverse:
                    expected = sum(other > key for other in keys)
                else:
                    expected = sum(other < key for other in keys)
                compare('relative_index', expected, found, f'relative index of {key} in {show(items)} (reverse = {model.reverse})')
            for got, default in ((real.get(key, key_of), None), (real.get(key, key_of, 7), 7)):
                if present:
                    if repr(got) not in show(model.group(key)):
                        raise Violation('get', f'get({key}) of {show(items)} gave {got!r}')
                else:
                    compare('get', default, got, f'get({key}) of {show(items)}')
        for name in ('insert', 'append', 'sort', '__setitem__', '__iadd__', '__imul__', '__add__', '__mul__'):
            if hasattr(real, name):
                raise Violation('removed', f'{name} could break the order')
        for statement in ('real[0] = 1', 'real += [1]', 'real *= 2', 'real[0:1] = [1]', 'real.insert(0, 1)', 'real.append(1)'):
            try:
                exec(statement, {'real': real})
            except (AttributeError, TypeError, IndexError):
                pass
            else:
                raise Violation('removed', f'{statement} is allowed')
        text = repr(real)
        if '[' + ', '.join(show(items)) + ']' not in text:
            raise Violation('repr', f'{text} of {show(items)}')


class SortedListCheck(Check):
    id = 'C26'
    rule = 'at least one operation was applied'
    assumptions = ['the elements are totally ordered and those which are neither before nor after each other are equal', 'the order of equal elements is left open (copies keep it)']

    def jobs(self, tier):
        limit = 3 if tier == 'quick' else 4
        jobs = [('starts', limit)]
        jobs += [('states', start, limit, part, 8) for start in ('up-list-0', 'down-list-0') for part in range(8)]
        for narrow, depth in ((False, 2 if tier == 'quick' else 3), (True, 4 if tier == 'quick' else 5)):
            for start in ('up-list-0', 'down-list-0'):
                jobs += [('sequences', start, narrow, first, depth) for first in range(len(SortedLists(limit, narrow).letters))]
        return jobs

    def run_job(self, job, stats, tier):
        if job[0] == 'starts':
            system = SortedLists(job[1])
            for start in system.starts:
                for letter in system.letters:
                    try:
                        system.run(start, (letter,), stats, True)
                    except Violation as violation:
                        stats.violate(violation.key, violation.message, violation.artefact)
                    stats.evaluations += 1
        elif job[0] == 'states':
            states(SortedLists(job[2]), job[1], stats, job[3], job[4])
        else:
            sequences(SortedLists(12, job[2]), job[1], job[3], job[4], stats)

    def replay(self, job, artefact, stats):
        start, *path = artefact
        for every in (True, False):
            try:
                SortedLists(12).run(start, [tuple(letter) for letter in path], stats, every)
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)


CHECK = SortedListCheck()
