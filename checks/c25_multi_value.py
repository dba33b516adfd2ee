"""
C25: dictionaries with more values per key (headers): nothing is lost, in whichever case its key is written.

Explicit state: every reachable state of an ordered model over small alphabets with every operation applied in each, and every sequence of operations up to a depth, on the real dictionaries next to the model.
"""
import copy, pickle
from itertools import product

from mc.base import Check, Violation
from mc.states import System, compare, result_of, sequences, states

VALUES = (1, 2)
KEYS = {'multi': ('a', 'A', 'b'), 'ignore': ('key', 'KEY', 'b', 'B')}
# what is given to constructors / extend / |=; values of the pairs are added one by one
MAPPINGS = {
    'multi': ((), (('a', 1),), (('b', 2), ('a', 2), ('b', 1)), (('a', 1), ('a', 1), ('A', 2))),
    'ignore': ((), (('KEY', 2), ('b', 1)), (('b', 1), ('key', 2), ('KEY', 1)), (('B', 2), ('b', 2), ('b', 1))),
}
FORMS = ('dict', 'multi', 'ignore')


def types():
    from scarletio.utils import IgnoreCaseMultiValueDictionary, MultiValueDictionary
    return {'multi': MultiValueDictionary, 'ignore': IgnoreCaseMultiValueDictionary}


class Model:
    """Ordered: folded key -> (key as first given, values)."""
    def __init__(self, kind, lines = None):
        self.kind = kind
        self.lines = {} if lines is None else lines

    def fold(self, key):
        return key.casefold() if self.kind == 'ignore' else key

    def add(self, key, value):
        line = self.lines.setdefault(self.fold(key), (key, []))[1]
        if value not in line:
            line.append(value)

    def line(self, key):
        line = self.lines.get(self.fold(key))
        return None if line is None else line[1]

    def remove_first(self, key):
        line = self.line(key)
        value = line.pop(0)
        if not line:
            del self.lines[self.fold(key)]
        return value

    def items(self):
        return [(key, value) for key, values in self.lines.values() for value in values]

    def copy(self):
        return Model(self.kind, {fold: (key, values.copy()) for fold, (key, values) in self.lines.items()})


def pairs_of(form, pairs):
    """What is left of the pairs in a mapping of the given type, in the order of its items."""
    if form == 'dict':
        return list(dict(pairs).items())
    model = Model(form)
    for key, value in pairs:
        model.add(key, value)
    return model.items()


class Dictionaries(System):
    def __init__(self, kind, narrow = False):
        self.kind = kind
        self.type = types()[kind]
        keys = KEYS[kind]
        letters = []
        for key in keys:
            letters += [('set', key, value) for value in VALUES]
            letters += [('del', key), ('setdefault', key, 2), ('pop', key), ('pop', key, None), ('pop_one', key), ('pop_one', key, 7), ('pop_all', key), ('pop_all', key, 7), ('take-all', key)]
        letters += [('popitem',), ('clear',), ('copy',), ('copy-module',), ('deepcopy',), ('pickle',), ('rebuild',), ('rebuild-items',), ('extend-self',)]
        for index, form in product(range(len(MAPPINGS[kind])), FORMS):
            letters += [('extend', index, form), ('or', index, form)]
        letters.append(('ior', 2, 'dict'))
        letters.append(('ior', 2, 'multi'))
        letters.append(('ror', 2, 'dict'))
        letters += [('fromkeys', 1)]
        if narrow:
            letters = [letter for letter in letters if letter[0] in ('set', 'del', 'pop_all', 'popitem', 'copy', 'pickle') and (letter[0] in ('set', 'del', 'popitem', 'copy') or letter[1:] in (('KEY',), ('a',)))]
        self.letters = tuple(letters)
        self.starts = ('empty', *(f'{form}-{index}' for form in (*FORMS, 'list', 'generator') for index in range(len(MAPPINGS[kind]))))

    def mapping(self, form, index):
        pairs = MAPPINGS[self.kind][index]
        if form == 'dict':
            return dict(pairs)
        if form == 'list':
            return list(pairs)
        if form == 'generator':
            return (pair for pair in pairs)
        mapping = types()[form]()
        for key, value in pairs:
            mapping[key] = value
        return mapping

    def build(self, start):
        model = Model(self.kind)
        if start == 'empty':
            return self.type(), model
        form, index = start.split('-')
        index = int(index)
        source = self.mapping(form, index)
        for key, value in (MAPPINGS[self.kind][index] if form in ('list', 'generator') else pairs_of(form, MAPPINGS[self.kind][index])):
            model.add(key, value)
        real = self.type(source)
        # the source is independent
        if hasattr(source, 'clear'):
            for key in list(source):
                if isinstance(key, str) and not isinstance(source, list):
                    source[key] = 9
        return real, model

    def key(self, model):
        return tuple(model.items()) + tuple(model.lines)

    def apply(self, real, model, letter):
        name, *rest = letter
        if name == 'set':
            real[rest[0]] = rest[1]
            model.add(*rest)
        elif name == 'del':
            outcome = result_of(lambda: real.__delitem__(rest[0]))
            if model.line(rest[0]) is None:
                compare('del', ('raised', KeyError), outcome, f'del of a missing key {rest[0]!r}')
            else:
                compare('del', ('returned', None), outcome, f'del of {rest[0]!r}')
                model.remove_first(rest[0])
        elif name == 'setdefault':
            line = model.line(rest[0])
            expected = rest[1] if line is None else line[0]
            if line is None:
                model.add(*rest)
            compare('setdefault', expected, real.setdefault(*rest), f'setdefault{tuple(rest)}')
        elif name in ('pop', 'pop_one', 'pop_all'):
            outcome = result_of(lambda: getattr(real, name)(*rest))
            line = model.line(rest[0])
            if line is None:
                expected = ('raised', KeyError) if len(rest) == 1 else ('returned', rest[1])
            elif name == 'pop_all':
                expected = ('returned', line)
                del model.lines[model.fold(rest[0])]
            else:
                expected = ('returned', model.remove_first(rest[0]))
            compare(name, expected, outcome, f'{name}{tuple(rest)}')
        elif name == 'take-all':
            # what was given out is independent
            taken = real.get_all(rest[0])
            compare('get_all', model.line(rest[0]), taken, f'get_all({rest[0]!r})')
            if taken is not None:
                taken.append(9)
        elif name == 'popitem':
            outcome = result_of(real.popitem)
            if not model.lines:
                compare('popitem', ('raised', KeyError), outcome, 'popitem of an empty dictionary')
            else:
                if outcome[0] != 'returned' or type(outcome[1]) is not tuple or outcome[1] not in model.items():
                    raise Violation('popitem', f'popitem gave {outcome} of {model.items()}')
                key, value = outcome[1]
                line = model.line(key)
                line.remove(value)
                if not line:
                    del model.lines[model.fold(key)]
        elif name == 'clear':
            real.clear()
            model.lines.clear()
        elif name in ('copy', 'copy-module', 'deepcopy', 'pickle', 'rebuild', 'rebuild-items'):
            original = real
            if name == 'copy':
                real = original.copy()
            elif name == 'copy-module':
                real = copy.copy(original)
            elif name == 'deepcopy':
                real = copy.deepcopy(original)
            elif name == 'pickle':
                real = pickle.loads(pickle.dumps(original))
            elif name == 'rebuild':
                real = self.type(original)
            else:
                real = self.type(list(original.items()))
            if type(real) is not self.type or real is original:
                raise Violation('copy', f'{name} gave {real!r}')
            if not (real == original) or real != original:
                raise Violation('copy', f'{name} of {original!r} is not equal to it: {real!r}')
            # the original is independent
            for key in list(original):
                original[key] = 9
        elif name == 'extend-self':
            real.extend(real)
        elif name == 'extend':
            source = self.mapping(rest[1], rest[0])
            if real.extend(source) is not None:
                raise Violation('extend', 'extend returned something')
            for key, value in pairs_of(rest[1], MAPPINGS[self.kind][rest[0]]):
                model.add(key, value)
            for key in list(source):
                if rest[1] != 'dict':
                    source[key] = 9
        elif name in ('or', 'ior'):
            source = self.mapping(rest[1], rest[0])
            if name == 'ior':
                original = real
                real |= source
                if real is not original:
                    raise Violation('ior', '|= gave an other object')
            else:
                left = real
                before = list(left.items())
                real = left | source
                if list(left.items()) != before:
                    raise Violation('or', f'| changed its left side: {before} -> {list(left.items())}')
            if type(real) is not self.type and not (rest[1] == 'ignore' and type(real) is types()['ignore']):
                raise Violation('or', f'{name} gave a {type(real).__name__}')
            if type(real) is not self.type:
                # an ignore case one was produced by its reflected method: go on with an equal one of our type
                real = left.copy()
                real.extend(source)
            for key, value in pairs_of(rest[1], MAPPINGS[self.kind][rest[0]]):
                model.add(key, value)
        elif name == 'ror':
            source = self.mapping(rest[1], rest[0])
            before = list(real.items())
            combined = source | real
            if type(combined) is not self.type:
                raise Violation('or', f'reflected | gave a {type(combined).__name__}')
            new = Model(self.kind)
            for key, value in [*pairs_of(rest[1], MAPPINGS[self.kind][rest[0]]), *model.items()]:
                new.add(key, value)
            if list(real.items()) != before:
                raise Violation('or', '| changed its right side')
            real, model = combined, new
        elif name == 'fromkeys':
            real = self.type.fromkeys(KEYS[self.kind], rest[0])
            model = Model(self.kind)
            for key in KEYS[self.kind]:
                model.add(key, rest[0])
        else:
            raise RuntimeError(letter)
        return real, model

    def observe(self, real, model):
        items = model.items()
        keys = [key for key, _ in model.lines.values()]
        got = [(str(key), value) for key, value in real.items()]
        if sorted(got) != sorted(items):
            raise Violation('items', f'items: expected {items}, got {got}')
        # the order of the values of a key is kept, and so are its keys in the order they were added
        if got != items:
            raise Violation('order', f'items are in an other order: expected {items}, got {got}')
        compare('keys', keys, [str(key) for key in real], 'iterating')
        compare('keys', keys, [str(key) for key in real.keys()], 'keys')
        compare('values', [value for _, value in items], list(real.values()), 'values')
        compare('len', len(keys), len(real), 'len')
        compare('len', len(items), len(real.items()), 'len of items')
        compare('len', len(items), len(real.values()), 'len of values')
        compare('bool', bool(items), bool(real), 'bool')
        for key in (*KEYS[self.kind], 'missing'):
            line = model.line(key)
            for form in self.written(key):
                compare('contains', line is not None, form in real, f'{form!r} in')
                compare('getitem', ('raised', KeyError) if line is None else ('returned', line[0]), result_of(lambda: real[form]), f'[{form!r}]')
                compare('get', None if line is None else line[0], real.get(form), f'get({form!r})')
                compare('get', 7 if line is None else line[0], real.get(form, 7), f'get({form!r}, 7)')
                compare('get', 7 if line is None else line[0], real.get_one(form, 7), f'get_one({form!r}, 7)')
                compare('get_all', line, real.get_all(form), f'get_all({form!r})')
                compare('get_all', 7 if line is None else line, real.get_all(form, 7), f'get_all({form!r}, 7)')
                for value in (*VALUES, 3):
                    compare('contains', line is not None and value in line, (form, value) in real.items(), f'({form!r}, {value}) in items')
        for value in (*VALUES, 3):
            compare('contains', any(value == item[1] for item in items), value in real.values(), f'{value} in values')
        compare('contains', False, ('a', 1, 2) in real.items(), 'a longer tuple in items')
        compare('contains', False, 'a' in real.items(), 'a string in items')
        compare('kwargs', {key: values[-1] for key, values in model.lines.values()}, {str(key): value for key, value in real.kwargs().items()}, 'kwargs')
        self.equality(real, model)
        text = repr(real)
        position = 0
        for key, value in items:
            found = text.find(f'{key!r}: {value!r}', position)
            if found < 0:
                raise Violation('repr', f'{text} shows not everything of {items} in order')
            position = found + 1

    def written(self, key):
        yield key
        if self.kind == 'ignore':
            from scarletio.utils import IgnoreCaseString
            yield IgnoreCaseString(key)
            yield IgnoreCaseString(key.encode())

    def equality(self, real, model):
        items = model.items()
        same = self.type()
        for key, value in reversed(items):
            pass
        for key, value in items:
            same[key] = value
        lists = [item for item in items]
        for other, equal in (
            (same, True), (lists, True), (dict(items), len(dict(items)) == len(items)), (self.type([*items, ('other', 1)]), False), ([*items, ('other', 1)], False), (self.type(items[1:]), not items), (5, False), (None, False), ([1], False),
            ([(key, value) for key, value in items if key != items[0][0]], not items),
        ):
            for left, right in ((real, other), (other, real)):
                compare('eq', equal, left == right, f'{left!r} == {right!r}')
                compare('eq', not equal, left != right, f'{left!r} != {right!r}')
        if self.kind == 'ignore':
            swapped = self.type([(key.swapcase(), value) for key, value in items])
            compare('eq', True, real == swapped, f'{real!r} == {swapped!r}')
        compare('eq', True, real.items() == list(items), f'items of {real!r} == {items}')
        compare('eq', True, real.values() == [value for _, value in items], f'values of {real!r} == the same')
        compare('eq', False, real.items() == [*items, ('x', 1)], f'items of {real!r} == more')


TEXTS = ('', 'a', 'A', 'aB', 'Ab', 'ab', 'ß', 'ss', 'SS', 'ẞ', 'é', 'É', 'İ', 'ı', 'i', 'I', 'ς', 'σ', 'Σ', 'Content-Type', 'content-TYPE', 'ab ', '0')


def ignore_case_strings(stats):
    from scarletio.utils import IgnoreCaseString

    class Text(str):
        pass

    class Derived(IgnoreCaseString):
        __slots__ = ()

    def forms(text):
        string = IgnoreCaseString(text)
        yield string
        yield IgnoreCaseString(text.encode())
        yield IgnoreCaseString(bytearray(text.encode()))
        yield IgnoreCaseString(text.encode('utf-16'), 'utf-16')
        yield IgnoreCaseString(Text(text))
        yield IgnoreCaseString(string)
        yield pickle.loads(pickle.dumps(string))
        yield copy.copy(string)
        yield copy.deepcopy(string)
        yield Derived(text)

    for left, right in product(TEXTS, repeat = 2):
        equal = left.casefold() == right.casefold()
        for string in forms(left):
            stats.evaluations += 1
            stats.state((left, right))
            if str(string) != left or len(string) != len(left) or not isinstance(string, IgnoreCaseString):
                stats.violate('text', f'{left!r} became {string!r}', [left, right])
            for other in (*forms(right), right, Text(right)):
                stats.transitions += 1
                # an other derived type of `str` decides on its own
                for first, second in ((string, other), (other, string))[:1 if type(other) is Text else 2]:
                    if (first == second) is not equal or (first != second) is equal:
                        stats.violate('equality', f'{first!r} ({type(first).__name__}) == {second!r} ({type(second).__name__}): {first == second}; !=: {first != second}; expected equal: {equal}', [left, right])
                if equal and isinstance(other, IgnoreCaseString) and hash(string) != hash(other):
                    stats.violate('hash', f'{string!r} and {other!r} are equal, but their hashes differ', [left, right])
                if equal and isinstance(other, IgnoreCaseString) and ({string: 1}.get(other) != 1 or other not in {string} or other not in [string]):
                    stats.violate('hash', f'{other!r} is not found by {string!r}', [left, right])
            for other in (1, None, right.encode(), (right,), str, object()):
                got = result_of(lambda: (string == other, string != other, other == string, other != string))
                if got != ('returned', (False, True, False, True)):
                    stats.violate('equality', f'{string!r} compared to {other!r}: {got}', [left, right])
        stats.outcome(('strings', equal))


class MultiValueCheck(Check):
    id = 'C25'
    rule = 'at least one operation was applied'
    assumptions = ['keys are strings, values are hashable and compare by value', 'which item `popitem` takes is left open']

    def jobs(self, tier):
        jobs = [('strings',)]
        for kind in ('multi', 'ignore'):
            system = Dictionaries(kind)
            jobs += [('states', kind, start, part, 8) for part in range(8) for start in (('empty',) if tier == 'quick' else system.starts)]
            jobs += [('starts', kind)]
            for narrow, depth in ((False, 2 if tier == 'quick' else 3), (True, 4 if tier == 'quick' else 5)):
                jobs += [('sequences', kind, narrow, first, depth) for first in range(len(Dictionaries(kind, narrow).letters))]
        return jobs

    def run_job(self, job, stats, tier):
        if job[0] == 'strings':
            ignore_case_strings(stats)
            return
        system = Dictionaries(job[1], job[0] == 'sequences' and job[2])
        if job[0] == 'states':
            states(system, job[2], stats, job[3], job[4])
        elif job[0] == 'starts':
            for start in system.starts:
                for letter in system.letters:
                    try:
                        system.run(start, (letter,), stats, True)
                    except Violation as violation:
                        stats.violate(violation.key, str(violation), violation.artefact)
                    stats.evaluations += 1
        else:
            sequences(system, 'empty', job[3], job[4], stats)

    def replay(self, job, artefact, stats):
        if job[0] == 'strings':
            return ignore_case_strings(stats)
        system = Dictionaries(job[1])
        start, *path = artefact
        path = [tuple(letter) for letter in path]
        for every in (True, False):
            try:
                system.run(start, path, stats, every)
            except Violation as violation:
                stats.violate(violation.key, str(violation), violation.artefact)


CHECK = MultiValueCheck()
