"""
C24: weak collections behave as the plain ones restricted to what is alive, at every moment, also while being iterated over.
"""
import copy, gc, pickle
from itertools import product

from mc.base import Check, Violation
from mc.wire import Sequences


class Thing:
    """Compared by identity."""
    __slots__ = ('__weakref__', 'name')

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Equal(Thing):
    """Compared by name."""
    __slots__ = ()

    def __eq__(self, other):
        return isinstance(other, Equal) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


MISSING = object()

# which part of the entries is held weakly
KINDS = {
    'WeakKeyDictionary': ('weak', 'plain'),
    'WeakValueDictionary': ('plain', 'weak'),
    'WeakItemDictionary': ('weak', 'weak'),
    'HybridValueDictionary': ('plain', 'mixed'),
}
VALUES = {'plain': ('5', 'None'), 'weak': ('X', 'Y'), 'mixed': ('X', '5', 'None')}


def alphabet_of(kind, tier):
    """core: used at larger depth; all: at smaller"""
    keys, values = KINDS[kind]
    names = VALUES[values]
    core = ['set A ' + names[0], 'set A ' + names[1], 'set B ' + names[0], 'open items', 'next', 'close', 'pop A', 'kill A' if keys == 'weak' else 'kill X', 'popitem', 'get A']
    if keys == 'weak' and values == 'weak':
        core.append('kill X')
    more = ['set C ' + names[0], 'set B ' + names[-1], 'set A ' + names[-1], 'open keys', 'open values', 'open self', 'del A', 'del B', 'pop B', 'pop-default A', 'setdefault A ' + names[0], 'setdefault B ' + names[1], 'clear', 'update A', 'update C', 'update-self',
            'copy', 'len', 'in A', 'item-in A ' + names[0], 'item-in A ' + names[-1], 'value-in ' + names[0], 'repr', 'equal', 'get B', 'index A', 'odd', 'pickle', 'set A= ' + names[1], 'get A=']
    if keys == 'weak':
        more.append('kill B')
    if values != 'plain':
        more.append('kill Y')
    if values == 'mixed':
        more.remove('kill Y')
    return core, list(dict.fromkeys(core + more))


class World:
    """Objects by name, the collection, its model and the opened iterators."""
    def __init__(self, kind, artefact):
        import scarletio
        self.kind = kind
        self.artefact = artefact
        self.keys, self.values = KINDS[kind]
        self.type = getattr(scarletio, kind)
        self.collection = self.type()
        self.others = []
        self.objects = {}
        self.model = {}             # key name -> value name
        self.iterators = []
        self.was_open = False

    def fail(self, message):
        raise Violation(f'{self.kind}: {message[:60]}', f'{self.kind}: {message}; model {self.model}; after {self.artefact[-1]}', self.artefact)

    def thing(self, name):
        try:
            return self.objects[name]
        except KeyError:
            value = self.objects[name] = Thing(name)
            return value

    def key(self, name):
        if self.keys == 'plain':
            return name
        return self.thing(name)

    def value(self, name):
        if name == '5':
            return 5
        if name == 'None':
            return None
        return self.thing(name)

    def name_of(self, value):
        if value is None:
            return 'None'
        if isinstance(value, int):
            return str(value)
        return value.name

    def kill(self, name):
        self.objects.pop(name, None)
        if name in 'XY':
            for model in (self.model, *(model for collection, model in self.others)):
                for key in [key for key, value in model.items() if value == name]:
                    del model[key]
        else:
            for model in (self.model, *(model for collection, model in self.others)):
                model.pop(name, None)

    def structural(self):
        for iterator in self.iterators:
            iterator['undefined'] = True

    def is_held(self, name):
        """Iterators hold what they gave last."""
        return any(name in iterator.get('held', ()) for iterator in self.iterators)

    def run(self, call, expected, label):
        """The call should return the expected or raise it."""
        try:
            result = call()
        except Exception as exception:
            if isinstance(expected, type) and isinstance(exception, expected):
                return
            self.fail(f'{label} raised {exception!r}, expected {expected!r}')
        if isinstance(expected, type) or result is not expected and result != expected:
            self.fail(f'{label} gave {result!r}, expected {expected!r}')

    def apply(self, op):
        collection = self.collection
        model = self.model
        name, *parameters = op.split()
        if name == 'set':
            key, value = parameters
            if key.endswith('='):
                # an equal key, which is an other object
                key = key[:-1]
                if self.keys != 'plain' or key not in model:
                    return False
                collection[''.join([*key])] = self.value(value)
            else:
                if key not in model:
                    self.structural()
                collection[self.key(key)] = self.value(value)
            model[key] = value
        elif name == 'kill':
            if parameters[0] not in self.objects or self.is_held(parameters[0]):
                return False
            self.kill(parameters[0])
        elif name in ('open',):
            if len(self.iterators) >= 2:
                return False
            what = parameters[0]
            iterator = iter(collection if what == 'self' else getattr(collection, what)())
            self.iterators.append({'what': what, 'iterator': iterator, 'undefined': False, 'left': None})
            self.was_open = True
        elif name == 'next':
            if not self.iterators:
                return False
            self.advance(self.iterators[-1])
        elif name == 'close':
            if not self.iterators:
                return False
            self.iterators.pop(0)['iterator'].close()
        elif name in ('get', 'index', 'pop', 'pop-default', 'del', 'in'):
            key = parameters[0]
            if key.endswith('='):
                key = key[:-1]
            expected = self.value(model[key]) if key in model else MISSING
            key_object = self.key(key)
            if name == 'get':
                self.run(lambda: collection.get(key_object, MISSING), expected, op)
            elif name == 'index':
                self.run(lambda: collection[key_object], KeyError if expected is MISSING else expected, op)
            elif name == 'in':
                self.run(lambda: key_object in collection, expected is not MISSING, op)
            else:
                if key in model:
                    self.structural()
                    del model[key]
                elif self.was_open:
                    self.structural()
                if name == 'pop':
                    self.run(lambda: collection.pop(key_object), KeyError if expected is MISSING else expected, op)
                elif name == 'pop-default':
                    self.run(lambda: collection.pop(key_object, 'default'), 'default' if expected is MISSING else expected, op)
                elif expected is MISSING:
                    if self.iterators:
                        # might be there, dead
                        return False
                    self.run(lambda: collection.__delitem__(key_object), KeyError, op)
                else:
                    self.run(lambda: collection.__delitem__(key_object), None, op)
        elif name == 'setdefault':
            key, value = parameters
            if key not in model:
                self.structural()
                model[key] = value
            key_object = self.key(key)
            self.run(lambda: collection.setdefault(key_object, self.value(value)), self.value(model[key]), op)
        elif name == 'popitem':
            if model:
                self.structural()
                try:
                    key, value = collection.popitem()
                except Exception as exception:
                    self.fail(f'popitem raised {exception!r}')
                if self.keys == 'weak':
                    key = key.name
                value = self.name_of(value)
                if model.pop(key, None) != value:
                    self.fail(f'popitem gave {key!r} {value!r}')
            else:
                self.structural()
                self.run(collection.popitem, KeyError, op)
        elif name == 'clear':
            self.structural()
            collection.clear()
            model.clear()
        elif name == 'update':
            key = parameters[0]
            names = VALUES[self.values]
            pairs = [(key, names[0]), ('B', names[1])]
            for other, value in pairs:
                if other not in model:
                    self.structural()
            given = [(self.key(other), self.value(value)) for other, value in pairs]
            if key == 'A':
                collection.update(given)
            else:
                collection.update(dict(given))
            for other, value in pairs:
                model[other] = value
        elif name == 'update-self':
            if self.iterators:
                return False
            collection.update(collection)
        elif name in ('copy', 'pickle'):
            if self.others:
                return False
            if name == 'copy':
                new = collection.copy()
            else:
                new = copy.copy(collection)
            if type(new) is not self.type:
                self.fail(f'{name} gave {new!r}')
            self.others.append((collection, model))
            self.collection = new
            self.model = dict(model)
            for iterator in self.iterators:
                iterator['iterator'].close()
            self.iterators.clear()
        elif name == 'item-in':
            key, value = parameters
            item = (self.key(key), self.value(value))
            self.run(lambda: item in collection.items(), model.get(key) == value, op)
        elif name == 'value-in':
            value = self.value(parameters[0])
            self.run(lambda: value in collection.values(), parameters[0] in model.values(), op)
        elif name == 'repr':
            text = repr(collection)
            for key, value in model.items():
                if f'{self.key(key)!r}: {self.value(value)!r}' not in text:
                    self.fail(f'the representation is {text}')
            if text.count(': ') != len(model):
                self.fail(f'the representation is {text}')
        elif name == 'len':
            self.run(lambda: len(collection), len(model), op)
        elif name == 'equal':
            self.equal()
        elif name == 'odd':
            # what can not be a key or a value is not there
            self.run(lambda: 12 in collection, False, '12 in')
            self.run(lambda: (12, 12) in collection.items(), False, '(12, 12) in items')
            self.run(lambda: 12 in collection.values(), False, '12 in values')
            self.run(lambda: 12 in collection.keys(), False, '12 in keys')
        else:
            raise RuntimeError(op)
        return True

    def plain(self):
        return {self.key(key): self.value(value) for key, value in self.model.items()}

    def equal(self):
        collection = self.collection
        expected = self.plain()
        if not collection == expected or collection != expected:
            self.fail(f'not equal to {expected}')
        other = {**expected, self.key('Z'): self.value(VALUES[self.values][0])}
        if collection == other or not collection != other:
            self.fail(f'equal to {other}')
        if not collection == collection.copy() or collection != collection.copy():
            self.fail('not equal to its copy')
        if expected and (collection == self.type() or not collection != self.type()):
            self.fail('equal to an empty one')

    def convert(self, what, item):
        if what in ('keys', 'self'):
            return item if self.keys == 'plain' else item.name
        if what == 'values':
            return self.name_of(item)
        key, value = item
        return (key if self.keys == 'plain' else key.name, self.name_of(value))

    def advance(self, iterator):
        """Performs a step of an iterator."""
        if iterator['left'] is None:
            # it starts at its first step
            iterator['left'] = list(self.model)
            iterator['undefined'] = False
        try:
            item = next(iterator['iterator'])
        except StopIteration:
            self.iterators.remove(iterator)
            if not iterator['undefined'] and any(key in self.model for key in iterator['left']):
                self.fail('the iterator ended early')
            return
        except RuntimeError as exception:
            self.iterators.remove(iterator)
            if not iterator['undefined']:
                self.fail(f'the iterator raised {exception!r}')
            return
        except Exception as exception:
            self.fail(f'the iterator raised {exception!r}')
        what = iterator['what']
        try:
            item = self.convert(what, item)
        except AttributeError:
            self.fail(f'the iterator gave {item!r}')
        iterator['held'] = item if what == 'items' else (item,)
        if iterator['undefined']:
            return
        left = iterator['left']
        for key in [key for key in left if key in self.model]:
            expected = key if what in ('keys', 'self') else self.model[key] if what == 'values' else (key, self.model[key])
            if item == expected:
                left.remove(key)
                return
        self.fail(f'the iterator gave {item!r}, left were {left}')

    def observe(self):
        for collection, model in ((self.collection, self.model), *self.others):
            self.collection = collection
            self.model = model
            self.run(lambda: len(collection), len(model), 'len')
            self.equal()
            self.run(lambda: len(collection), len(model), 'len after comparing')
            for what in ('keys', 'values', 'items', 'self'):
                view = collection if what == 'self' else getattr(collection, what)()
                items = [self.convert(what, item) for item in view]
                expected = list(model) if what in ('keys', 'self') else list(model.values()) if what == 'values' else list(model.items())
                if sorted(items, key = repr) != sorted(expected, key = repr) or (not self.was_open and items != expected):
                    self.fail(f'{what} are {items}, expected {expected}')
                if what != 'self':
                    self.run(lambda: len(view), len(model), f'len of {what}')
            for key in 'ABC':
                key_object = self.key(key)
                self.run(lambda: key_object in collection, key in model, f'{key} in')
                self.run(lambda: key_object in collection.keys(), key in model, f'{key} in keys')
                self.run(lambda: collection.get(key_object, MISSING), self.value(model[key]) if key in model else MISSING, f'get {key}')
                for value in VALUES[self.values]:
                    value_object = self.value(value)
                    self.run(lambda: (key_object, value_object) in collection.items(), model.get(key) == value, f'({key}, {value}) in items')
            self.run(lambda: len(collection), len(model), 'len after lookups')

    def finish(self):
        self.observe()
        while self.iterators:
            self.iterators.pop()['iterator'].close()
        self.observe()
        collections = [self.collection, *(collection for collection, model in self.others)]
        for collection in collections:
            if dict.__len__(collection) != len(collection):
                self.fail('dead entries are left')
        for name in [*self.objects]:
            self.kill(name)
        left = {'weak': 0}.get(self.keys)
        for collection, model in ((self.collection, self.model), *self.others):
            self.run(lambda: len(collection), len(model), 'len after everything died')
            if dict.__len__(collection) != len(model):
                self.fail('dead entries are left after everything died')


def dictionary_case(kind, names, stats, prune = None):
    world = World(kind, ['dictionary', kind, list(names)])
    for index, op in enumerate(names):
        try:
            possible = world.apply(op)
        except Violation:
            raise
        except Exception as exception:
            world.fail(f'{op} raised {exception!r}')
        if not possible:
            if prune is not None:
                prune(index)
            break
        stats.transitions += 1
    world.finish()
    stats.evaluations += 1
    stats.state(repr((kind, names)))
    stats.outcome((kind, len(world.model), len(world.others)))


# equal, but not identical keys

def equal_case(kind, names, stats, prune):
    """The first of the equal keys is the one which is held, its death ends the entry."""
    import scarletio
    artefact = ['equal', kind, list(names)]
    collection = getattr(scarletio, kind)()
    objects = {}
    held = None
    value = None

    def fail(message):
        raise Violation(f'{kind} equal: {message[:60]}', f'{kind}: {message}; after {names}', artefact)

    values = {'X': Thing('X'), 'Y': Thing('Y')}
    for index, op in enumerate(names):
        name, *parameters = op.split()
        if name == 'set':
            which, value_name = parameters
            key = objects.setdefault(which, Equal('key'))
            if kind == 'WeakMap':
                if collection.set(key) is not (objects[held] if held is not None else key):
                    fail('set gave the wrong element')
                if held is None:
                    held = which
            elif kind == 'WeakSet':
                collection.add(key)
                if held is None:
                    held = which
            else:
                collection[key] = values[value_name]
                value = value_name
                if held is None:
                    held = which
        elif name == 'kill':
            which, = parameters
            if which not in objects:
                prune(index)
                break
            del objects[which]
            key = None
            if held == which:
                held = None
        elif name == 'remove':
            which, = parameters
            key = objects.setdefault(which, Equal('key'))
            if held is None:
                prune(index)
                break
            if kind == 'WeakSet':
                collection.remove(key)
            else:
                collection.pop(key)
            held = None
        key = None
        stats.transitions += 1
    probe = Equal('key')
    if (probe in collection) != (held is not None) or len(collection) != (held is not None):
        fail(f'contained {probe in collection}, length {len(collection)}, held {held}')
    if held is not None:
        if kind == 'WeakMap':
            if collection.get(probe) is not objects[held]:
                fail('the wrong element is held')
        elif kind != 'WeakSet':
            if collection[probe] is not values[value]:
                fail(f'the value is {collection[probe]}')
        if [*collection][0] is not objects[held]:
            fail('the wrong key is held')
    values.clear()
    objects.clear()
    if len(collection) and kind not in ('WeakKeyDictionary',):
        fail('an entry is left')
    if len(collection):
        fail('an entry is left')
    stats.evaluations += 1
    stats.state(repr((kind, names)))


# weak sets and maps

SET_OPS = [
    'add A', 'add B', 'add C', 'kill A', 'kill B', 'remove A', 'discard A', 'discard B', 'pop', 'clear', 'open', 'next', 'close', 'copy', 'pickle', 'update A', 'len', 'in A', 'repr', 'equal', 'get A',
]
SET_CORE = ['add A', 'add B', 'kill A', 'remove A', 'pop', 'open', 'next', 'close', 'copy', 'get A']


class SetWorld:
    def __init__(self, kind, artefact):
        import scarletio
        self.kind = kind
        self.artefact = artefact
        self.type = getattr(scarletio, kind)
        self.collection = self.type()
        self.others = []
        self.objects = {}
        self.model = []
        self.iterators = []
        self.was_open = False

    fail = World.fail
    thing = World.thing
    run = World.run
    structural = World.structural
    is_held = World.is_held

    def add(self, name):
        if name not in self.model:
            self.structural()
            self.model.append(name)
        if self.kind == 'WeakMap':
            thing = self.thing(name)
            self.run(lambda: self.collection.set(thing), thing, 'set')
        else:
            self.collection.add(self.thing(name))

    def apply(self, op):
        collection = self.collection
        model = self.model
        name, *parameters = op.split()
        parameter = parameters[0] if parameters else None
        is_map = self.kind == 'WeakMap'
        if name == 'add':
            self.add(parameter)
        elif name == 'kill':
            if parameter not in self.objects or self.is_held(parameter):
                return False
            del self.objects[parameter]
            for model in (self.model, *(model for collection, model in self.others)):
                if parameter in model:
                    model.remove(parameter)
        elif name in ('remove', 'discard'):
            thing = self.thing(parameter)
            there = parameter in model
            self.structural()
            if there:
                model.remove(parameter)
            if is_map:
                if name == 'discard':
                    self.run(lambda: collection.pop(thing, 'default'), thing if there else 'default', op)
                elif parameter == 'A' and there:
                    self.run(lambda: collection.__delitem__(thing), None, op)
                else:
                    self.run(lambda: collection.pop(thing), thing if there else KeyError, op)
            elif name == 'remove':
                self.run(lambda: collection.remove(thing), None if there else KeyError, op)
            else:
                self.run(lambda: collection.discard(thing), None, op)
        elif name == 'pop':
            if is_map:
                return False
            self.structural()
            if model:
                thing = collection.pop()
                if thing is None or thing.name not in model:
                    self.fail(f'pop gave {thing}')
                model.remove(thing.name)
            else:
                self.run(collection.pop, KeyError, op)
        elif name == 'clear':
            self.structural()
            collection.clear()
            model.clear()
        elif name == 'open':
            if len(self.iterators) >= 2:
                return False
            self.was_open = True
            self.iterators.append({'iterator': iter(collection), 'undefined': False, 'left': None})
        elif name == 'next':
            if not self.iterators:
                return False
            self.advance(self.iterators[-1])
        elif name == 'close':
            if not self.iterators:
                return False
            self.iterators.pop(0)['iterator'].close()
        elif name in ('copy', 'pickle'):
            if self.others:
                return False
            new = collection.copy() if name == 'copy' else copy.copy(collection)
            if type(new) is not self.type:
                self.fail(f'{name} gave {new!r}')
            self.others.append((collection, model))
            self.collection = new
            self.model = list(model)
            for iterator in self.iterators:
                iterator['iterator'].close()
            self.iterators.clear()
        elif name == 'update':
            for other in ('A', 'B'):
                if other not in model:
                    self.structural()
                    model.append(other)
            collection.update([self.thing('A'), self.thing('B'), self.thing('A')])
        elif name == 'len':
            self.run(lambda: len(collection), len(model), op)
        elif name == 'in':
            thing = self.thing(parameter)
            self.run(lambda: thing in collection, parameter in model, op)
            self.run(lambda: 12 in collection, False, '12 in')
        elif name == 'get':
            if not is_map:
                return False
            thing = self.thing(parameter)
            self.run(lambda: collection.get(thing, MISSING), thing if parameter in model else MISSING, op)
            self.run(lambda: collection[thing], thing if parameter in model else KeyError, op)
            self.run(lambda: collection.get(12, MISSING), MISSING, op)
            self.run(lambda: collection.pop(12, MISSING), MISSING, op)
        elif name == 'repr':
            text = repr(collection)
            inside = text[text.index('{') + 1 : text.index('}')]
            if sorted(piece for piece in inside.split(', ') if piece) != sorted(model):
                self.fail(f'the representation is {text}')
        elif name == 'equal':
            self.equal()
        else:
            raise RuntimeError(op)
        return True

    def equal(self):
        expected = {self.thing(name) for name in self.model}
        collection = self.collection
        if not collection == expected or collection != expected:
            self.fail(f'not equal to {expected}')
        other = {*expected, self.thing('Z')}
        if collection == other or not collection != other:
            self.fail(f'equal to {other}')
        if not collection == collection.copy() or collection != collection.copy():
            self.fail('not equal to its copy')

    def advance(self, iterator):
        if iterator['left'] is None:
            iterator['left'] = list(self.model)
            iterator['undefined'] = False
        try:
            item = next(iterator['iterator'])
        except StopIteration:
            self.iterators.remove(iterator)
            if not iterator['undefined'] and any(name in self.model for name in iterator['left']):
                self.fail('the iterator ended early')
            return
        except RuntimeError as exception:
            self.iterators.remove(iterator)
            if not iterator['undefined']:
                self.fail(f'the iterator raised {exception!r}')
            return
        if item is None:
            self.fail('the iterator gave a dead element')
        iterator['held'] = (item.name,)
        if iterator['undefined']:
            return
        if item.name not in iterator['left'] or item.name not in self.model:
            self.fail(f'the iterator gave {item!r}')
        iterator['left'].remove(item.name)

    def observe(self):
        for collection, model in ((self.collection, self.model), *self.others):
            self.collection = collection
            self.model = model
            self.run(lambda: len(collection), len(model), 'len')
            self.equal()
            names = [thing.name for thing in collection]
            if sorted(names) != sorted(model):
                self.fail(f'the elements are {names}')
            for name in 'ABC':
                thing = self.thing(name)
                self.run(lambda: thing in collection, name in model, f'{name} in')
                if self.kind == 'WeakMap':
                    self.run(lambda: collection.get(thing), thing if name in model else None, f'get {name}')
            self.run(lambda: len(collection), len(model), 'len after lookups')

    def finish(self):
        base = dict if self.kind == 'WeakMap' else set
        self.observe()
        while self.iterators:
            self.iterators.pop()['iterator'].close()
        self.observe()
        for collection, model in ((self.collection, self.model), *self.others):
            if base.__len__(collection) != len(collection):
                self.fail('dead elements are left')
        self.objects.clear()
        for collection, model in ((self.collection, self.model), *self.others):
            if base.__len__(collection) or len(collection):
                self.fail('dead elements are left after everything died')


def set_case(kind, names, stats, prune = None):
    world = SetWorld(kind, ['set', kind, list(names)])
    for index, op in enumerate(names):
        try:
            possible = world.apply(op)
        except Violation:
            raise
        except Exception as exception:
            world.fail(f'{op} raised {exception!r}')
        if not possible:
            if prune is not None:
                prune(index)
            break
        stats.transitions += 1
    world.finish()
    stats.evaluations += 1
    stats.state(repr((kind, names)))
    stats.outcome((kind, len(world.model), len(world.others)))


# set algebra

BINARY = {
    '&': lambda a, b: a & b, '|': lambda a, b: a | b, '-': lambda a, b: a - b, '^': lambda a, b: a ^ b,
    'intersection': None, 'union': None, 'difference': None, 'symmetric_difference': None,
}
IN_PLACE = {'&=': '__iand__', '|=': '__ior__', '-=': '__isub__', '^=': '__ixor__'}
METHODS_IN_PLACE = ('intersection_update', 'update', 'difference_update', 'symmetric_difference_update')
RELATIONS = {
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
}
RELATION_METHODS = ('issubset', 'issuperset', 'isdisjoint')
PLAIN = {
    'intersection_update': lambda a, b: a & b, 'update': lambda a, b: a | b, 'difference_update': lambda a, b: a - b, 'symmetric_difference_update': lambda a, b: a ^ b,
}
OTHERS = ('WeakSet', 'set', 'frozenset', 'list', 'tuple', 'dict', 'generator', 'self')


def algebra_case(left, right, dead, holding, other_type, op, reverse, stats):
    """left, right, dead : name strings; holding : whether both are being iterated meanwhile the elements died"""
    import operator
    from scarletio import WeakSet
    artefact = ['algebra', left, right, dead, holding, other_type, op, reverse]

    def fail(message):
        raise Violation(f'algebra: {op} {other_type} {message[:40]}', f'{message}; WeakSet of {left} {op} {other_type} of {right}, reversed {reverse}, dead {dead}, iterated {holding}', artefact)

    objects = {name: Thing(name) for name in 'ABCDE'}
    first = WeakSet(objects[name] for name in left)
    iterators = []
    if other_type == 'self':
        second = first
        right = left
    elif other_type == 'WeakSet':
        second = WeakSet(objects[name] for name in right)
    if holding:
        for item in ((first, second) if other_type in ('self', 'WeakSet') else (first,)):
            iterator = iter(item)
            held = next(iterator, None)
            if held is not None:
                # it is held by the iterator
                dead = dead.replace(held.name, '')
                held = None
            iterators.append(iterator)
    for name in dead:
        del objects[name]
    left = {objects[name] for name in left if name in objects}
    right_names = [name for name in right if name in objects]
    right = {objects[name] for name in right_names}
    if other_type not in ('self', 'WeakSet'):
        listed = [objects[name] for name in right_names]
        listed += listed[:1]
        second = {'set': set, 'frozenset': frozenset, 'list': list, 'tuple': tuple, 'dict': dict.fromkeys, 'generator': iter}[other_type](listed)
    a, b = (right, left) if reverse else (left, right)
    c, d = (second, first) if reverse else (first, second)
    expected_left = left
    if op in BINARY:
        if BINARY[op] is None:
            call = lambda: getattr(c, op)(d)
            expected = getattr(a, op)(b)
        else:
            call = lambda: BINARY[op](c, d)
            expected = BINARY[op](a, b)
    elif op in RELATIONS:
        call = lambda: RELATIONS[op](c, d)
        expected = RELATIONS[op](a, b)
    elif op in RELATION_METHODS:
        call = lambda: getattr(c, op)(d)
        expected = getattr(a, op)(b)
    elif op in IN_PLACE:
        call = lambda: getattr(operator, IN_PLACE[op])(c, d)
        expected = expected_left = BINARY[op[:-1]](a, b)
    else:
        call = lambda: getattr(c, op)(d)
        expected = None
        expected_left = PLAIN[op](a, b)
    try:
        result = call()
    except Exception as exception:
        fail(f'raised {exception!r}')
    if isinstance(expected, set):
        if not isinstance(result, WeakSet):
            fail(f'gave {result!r}')
        if set(iter(result)) != expected or len(result) != len(expected):
            fail(f'gave {set(iter(result))} expected {expected}')
        if op in IN_PLACE:
            if result is not first:
                fail('gave an other set')
        elif result is first or result is second:
            fail('gave itself')
    elif result is not expected:
        fail(f'gave {result!r} instead of {expected!r}')
    if set(iter(first)) != expected_left or len(first) != len(expected_left):
        fail(f'left {set(iter(first))}, expected {expected_left}, length {len(first)}')
    if other_type == 'WeakSet' and (set(iter(second)) != right or len(second) != len(right)):
        fail(f'changed the operand to {set(iter(second))}')
    for iterator in iterators:
        iterator.close()
    if set(iter(first)) != expected_left or len(first) != len(expected_left) or set.__len__(first) != len(expected_left):
        fail(f'left {set(iter(first))}, expected {expected_left}, length {len(first)}')
    iterators.clear()
    weak = [first]
    if isinstance(result, WeakSet):
        weak.append(result)
    # everything dies
    del listed_names[:]
    stats.evaluations += 1
    stats.transitions += 3
    stats.state(repr(artefact))
    stats.outcome((op, len(expected_left)))
    del objects, left, right, a, b, c, d, expected, expected_left, second, call, iterators
    if other_type not in ('self', 'WeakSet'):
        del listed
    iterator = item = None
    for collection in weak:
        if len(collection) or set.__len__(collection):
            fail(f'{len(collection)} elements are left after they died')


listed_names = []


class WeakCheck(Check):
    id = 'C24'
    rule = 'a state is a distinct history of operations, deaths and iterations, or a distinct pair of operands'
    assumptions = ['objects die when their last reference is dropped (reference counting)', 'iterating over a collection whose keys are changed is only required not to damage it']

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for kind in KINDS:
            core, every = alphabet_of(kind, tier)
            for depth in range(1, (5 if quick else 6) + 1):
                if depth > 3:
                    for first in core:
                        jobs.append(('dictionary', kind, 'core', depth, first))
            for depth in range(1, (3 if quick else 4) + 1):
                for first in every:
                    jobs.append(('dictionary', kind, 'every', depth, first))
        for kind in ('WeakSet', 'WeakMap'):
            for depth in range(4, (5 if quick else 7) + 1):
                for first in SET_CORE:
                    jobs.append(('set', kind, 'core', depth, first))
            for depth in range(1, (4 if quick else 5) + 1):
                for first in SET_OPS:
                    jobs.append(('set', kind, 'every', depth, first))
        for kind in ('WeakKeyDictionary', 'WeakItemDictionary', 'WeakMap', 'WeakSet'):
            jobs.append(('equal', kind, 5 if quick else 7))
        for other_type in OTHERS:
            jobs.append(('algebra', other_type))
        return jobs

    def cases(self, job, stats):
        kind = job[0]
        if kind == 'dictionary':
            _, name, which, depth, first = job
            core, every = alphabet_of(name, None)
            sequences = Sequences(core if which == 'core' else every, depth, (first,))
            for names in sequences:
                yield lambda: dictionary_case(name, names, stats, sequences.prune)
        elif kind == 'set':
            _, name, which, depth, first = job
            sequences = Sequences(SET_CORE if which == 'core' else SET_OPS, depth, (first,))
            for names in sequences:
                yield lambda: set_case(name, names, stats, sequences.prune)
        elif kind == 'equal':
            _, name, depth = job
            ops = ['set 1 X', 'set 2 Y', 'set 3 X', 'kill 1', 'kill 2', 'kill 3', 'remove 1', 'remove 2']
            if name == 'WeakItemDictionary':
                pass
            for length in range(1, depth + 1):
                sequences = Sequences(ops, length)
                for names in sequences:
                    yield lambda: equal_case(name, names, stats, sequences.prune)
        else:
            _, other_type = job
            for left, right in product(('', 'A', 'AB', 'ABC', 'BC', 'D', 'ABCD'), ('', 'A', 'AB', 'BCD', 'E', 'ABC')):
                if other_type == 'self' and right:
                    continue
                for dead in ('', 'A', 'AB', 'B', 'ABCDE'):
                    for holding in (False, True):
                        for op in (*BINARY, *IN_PLACE, *METHODS_IN_PLACE, *RELATIONS, *RELATION_METHODS):
                            yield lambda: algebra_case(left, right, dead, holding, other_type, op, False, stats)
                            if other_type == 'set' and op in ('&', '|', '-', '^', *RELATIONS):
                                yield lambda: algebra_case(left, right, dead, holding, other_type, op, True, stats)

    def run_job(self, job, stats, tier):
        gc.disable()
        for case in self.cases(job, stats):
            try:
                case()
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
                if len(stats.violations) > 12:
                    break
        gc.enable()
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        kind = artefact[0]
        try:
            if kind == 'dictionary':
                dictionary_case(artefact[1], tuple(artefact[2]), stats)
            elif kind == 'set':
                set_case(artefact[1], tuple(artefact[2]), stats)
            elif kind == 'equal':
                equal_case(artefact[1], tuple(artefact[2]), stats, lambda index: None)
            else:
                algebra_case(*artefact[1:], stats)
        except Violation as violation:
            stats.violate(violation.key, violation.message, violation.artefact)


CHECK = WeakCheck()
