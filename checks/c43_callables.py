"""
C43: what is told about callables is what calling them does.

Every small signature, in every kind of callable, analyzed by the real analyzer; the oracle is python: what the calls themselves accept, and what `inspect` tells.
"""
import inspect
from itertools import product

from mc.base import Check, Violation
from mc.vloop import quiet_stderr


ARGUMENT_COUNT = 7
FLAVORS = ('', 'generator', 'async', 'async generator')


def signatures(limit):
    """
    Yields `(positional only, positional, defaulted, *args, keyword only (each defaulted?), **kwargs)`, of up to `limit` named parameters.
    """
    for positional_only, positional in product(range(limit + 1), repeat = 2):
        if positional_only + positional > limit:
            continue
        for defaulted in range(positional_only + positional + 1):
            for keyword_only_count in range(limit - positional_only - positional + 1):
                for keyword_only in product((False, True), repeat = keyword_only_count):
                    for has_args, has_kwargs in product((False, True), repeat = 2):
                        yield positional_only, positional, defaulted, has_args, keyword_only, has_kwargs


def source_of(signature, leading, annotated):
    positional_only, positional, defaulted, has_args, keyword_only, has_kwargs = signature
    names = [f'p{index}' for index in range(positional_only + positional)]
    parts = list(leading)
    for index, name in enumerate(names):
        part = name
        if annotated and index % 2 == 0:
            part += f': "A{index}"'
        if index >= len(names) - defaulted:
            part += f' = D[{index}]'
        parts.append(part)
        if index == positional_only - 1:
            parts.append('/')
    if has_args:
        parts.append('*args: "AA"' if annotated else '*args')
    elif keyword_only:
        parts.append('*')
    for index, has_default in enumerate(keyword_only):
        part = f'k{index}'
        if annotated and index % 2:
            part += f': "K{index}"'
        if has_default:
            part += f' = D[{10 + index}]'
        parts.append(part)
    if has_kwargs:
        parts.append('**kwargs: "KK"' if annotated else '**kwargs')
    return ', '.join(parts)


def define(name, parameters, flavor, indent = '', body = None):
    prefix = 'async ' if flavor.startswith('async') else ''
    if body is None:
        body = 'yield 1' if flavor.endswith('generator') else 'return 1'
    return f'{indent}{prefix}def {name}({parameters}):\n{indent}    {body}\n'


class Default:
    def __init__(self, index):
        self.index = index

    def __repr__(self):
        return f'D{self.index}'


DEFAULTS = {index: Default(index) for index in range(20)}


def build(kind, signature, flavor, annotated = False):
    """
    Returns the analyzed object, whether it is analyzed as a method, what can be called as it is told, and what its signature is.
    """
    namespace = {'D': DEFAULTS}
    if kind == 'function':
        exec(define('f', source_of(signature, (), annotated), flavor), namespace)
        function = namespace['f']
        return function, False, function, function, 0
    if kind == 'as method':
        exec(define('f', source_of(signature, ('self',), annotated), flavor), namespace)
        function = namespace['f']
        return function, True, function.__get__(1), function, 1
    if kind in ('method', 'class method', 'static method'):
        leading = {'method': ('self',), 'class method': ('cls',), 'static method': ()}[kind]
        decorator = {'method': '', 'class method': '    @classmethod\n', 'static method': '    @staticmethod\n'}[kind]
        exec('class T:\n' + decorator + define('f', source_of(signature, leading, annotated), flavor, '    '), namespace)
        method = namespace['T']().f
        return method, False, method, getattr(method, '__func__', method), len(leading)
    if kind == 'instance':
        exec('class T:\n' + define('__call__', source_of(signature, ('self',), annotated), flavor, '    '), namespace)
        instance = namespace['T']()
        return instance, False, instance, namespace['T'].__call__, 1
    if kind == 'class method call':
        exec('class T:\n    @classmethod\n' + define('__call__', source_of(signature, ('cls',), annotated), flavor, '    '), namespace)
        instance = namespace['T']()
        return instance, False, instance, namespace['T'].__call__.__func__, 1
    # classes, `flavor` is of what their instances are called with
    if kind == 'new':
        leading, name, body = 'cls', '__new__', 'return object.__new__(cls)'
    else:
        leading, name, body = 'self', '__init__', 'pass'
    exec(
        'class T:\n' + define(name, source_of(signature, (leading,), annotated), '', '    ', body)
        + define('__call__', 'self', flavor, '    '), namespace
    )
    type_ = namespace['T']
    return type_, False, type_, getattr(type_, name), 1


KINDS = ('function', 'as method', 'method', 'class method', 'static method', 'instance', 'class method call', 'new', 'init')
CLASSES = ('new', 'init')


def accepted(target, arguments, keywords):
    try:
        result = target(*arguments, **keywords)
    except TypeError:
        return False
    if inspect.iscoroutine(result):
        result.close()
    return True


def flavor_of(result):
    if inspect.iscoroutine(result):
        result.close()
        return 'async'
    if inspect.isasyncgen(result):
        return 'async generator'
    if inspect.isgenerator(result):
        return 'generator'
    return ''


def attempt(where, function):
    try:
        return function()
    except BaseException as exception:
        raise Violation('fails', f'{where}: {exception!r}') from exception


def expect(where, what, expected, got):
    if expected != got:
        raise Violation('told', f'{where}: {what} should be {expected!r}, told {got!r}')


POSITIONALITIES = {
    inspect.Parameter.POSITIONAL_ONLY: (True, True, False, False, False, False),
    inspect.Parameter.POSITIONAL_OR_KEYWORD: (False, True, True, False, False, False),
    inspect.Parameter.KEYWORD_ONLY: (False, False, True, True, False, False),
    inspect.Parameter.VAR_POSITIONAL: (False, False, False, False, True, False),
    inspect.Parameter.VAR_KEYWORD: (False, False, False, False, False, True),
}


def check_one(kind, signature, flavor, annotated):
    from scarletio import CallableAnalyzer, RichAnalyzer
    from scarletio.core.event_loop.cycler import CyclerCallable

    positional_only, positional, defaulted, has_args, keyword_only, has_kwargs = signature
    analyzed, as_method, target, function, reserved = build(kind, signature, flavor, annotated)
    where = f'{kind} ({source_of(signature, (), annotated)}){" " if flavor else ""}{flavor}'

    analyzer = attempt(where, lambda: CallableAnalyzer(analyzed, as_method = as_method))
    attempt(where, lambda: repr(analyzer))

    # parameters, as python tells them
    expected = list(inspect.signature(function).parameters.values())
    expect(where, 'parameter names', [parameter.name for parameter in expected], [parameter.name for parameter in analyzer.parameters])
    for index, (parameter, told) in enumerate(zip(expected, analyzer.parameters)):
        here = f'{where}: parameter {parameter.name}'
        has_default = parameter.default is not inspect.Parameter.empty
        has_annotation = parameter.annotation is not inspect.Parameter.empty
        expect(here, 'default', (has_default, parameter.default if has_default else None), (told.has_default, told.default))
        expect(here, 'annotation', (has_annotation, parameter.annotation if has_annotation else None), (told.has_annotation, told.annotation))
        expect(here, 'kind', POSITIONALITIES[parameter.kind], (
            told.is_positional_only(), told.is_positional(), told.is_keyword(), told.is_keyword_only(), told.is_args(), told.is_kwargs(),
        ))
        expect(here, 'reserved', index < reserved, told.reserved)
        expect(here, 'lookup', told, analyzer.get_parameter(parameter.name))
        expect(here, 'presence', True, analyzer.has_parameter(parameter.name))
    expect(where, 'absent parameter', (None, False), (analyzer.get_parameter('absent'), analyzer.has_parameter('absent')))

    free = expected[reserved:]
    named = lambda parameters: [parameter.name for parameter in parameters]
    is_positional = lambda parameter: parameter.kind in (parameter.POSITIONAL_ONLY, parameter.POSITIONAL_OR_KEYWORD)
    expect(where, 'non reserved parameters', named(free), named(analyzer.iter_non_reserved_parameters()))
    expect(where, 'positional parameters', named(filter(is_positional, free)), named(analyzer.get_non_reserved_positional_parameters()))
    expect(where, 'positional parameter count', positional_only + positional, analyzer.get_non_reserved_positional_parameter_count())
    expect(where, 'required positional parameter count', positional_only + positional - defaulted, analyzer.get_non_reserved_non_default_parameter_count())
    expect(where, 'keyword only parameters', [f'k{index}' for index in range(len(keyword_only))], named(analyzer.get_non_reserved_keyword_only_parameters()))
    expect(where, 'required keyword only parameter count', keyword_only.count(False), analyzer.get_non_default_keyword_only_parameter_count())

    # what calling it does
    keywords = {f'k{index}': 1 for index, has_default in enumerate(keyword_only) if not has_default}
    counts = [count for count in range(ARGUMENT_COUNT) if accepted(target, (1,) * count, keywords)]
    start, end = analyzer.get_non_reserved_positional_parameter_range()
    expect(where, 'least positional arguments', counts[0], start)
    told_counts = list(range(start, ARGUMENT_COUNT if analyzer.accepts_args() else end + 1))
    expect(where, 'numbers of accepted positional arguments', counts, told_counts)
    expect(where, 'taking any keyword', accepted(target, (1,) * counts[0], {**keywords, 'absent': 1}), analyzer.accepts_kwargs())

    is_class = kind in CLASSES
    call_flavor = '' if is_class else flavor_of(target(*(1,) * counts[0], **keywords))
    expect(where, 'being async', call_flavor == 'async', analyzer.is_async())
    expect(where, 'being an async generator', call_flavor == 'async generator', analyzer.is_async_generator())
    can_instance = is_class and accepted(target, (), {})
    instance_flavor = flavor_of(target()()) if can_instance else ''
    expect(where, 'being async once instanced', instance_flavor == 'async', analyzer.can_instance_to_async_callable())
    expect(where, 'being an async generator once instanced', instance_flavor == 'async generator', analyzer.can_instance_to_async_generator())
    if can_instance:
        instance = attempt(where, analyzer.instance)
        expect(where, 'the type of the instance', analyzed, type(instance))

    rich = attempt(where, lambda: RichAnalyzer(analyzed, as_method = as_method))
    for parameter in expected:
        expect(where, 'rich parameter', analyzer.get_parameter(parameter.name), getattr(rich.parameters, parameter.name))
    if hasattr(analyzed, '__name__'):
        expect(where, 'name', analyzed.__name__, attempt(where, lambda: rich.name))

    # cyclers call functions with themselves
    if not keywords and not as_method:
        try:
            CyclerCallable(analyzed, 0)
        except TypeError:
            told = False
        else:
            told = True
        expect(where, 'being accepted by a cycler', 1 in counts, told)
    return (start, end, analyzer.accepts_args(), analyzer.accepts_kwargs(), analyzer.instance_to_async)


def check_matching(limit):
    """Two callables match if and only if they are told the same."""
    from scarletio import CallableAnalyzer
    items = []
    for kind in ('function', 'method', 'instance', 'init'):
        for flavor in FLAVORS:
            for signature in signatures(limit):
                analyzed, as_method, _, function, reserved = build(kind, signature, flavor)
                items.append((
                    f'{kind} ({source_of(signature, (), False)}) {flavor}',
                    (
                        [(p.name, p.kind, p.default) for p in list(inspect.signature(function).parameters.values())[reserved:]],
                        (kind == 'init' and flavor.startswith('async'), flavor if flavor.startswith('async') else ''),
                    ),
                    CallableAnalyzer(analyzed),
                ))
    for (left_where, left_key, left), (right_where, right_key, right) in product(items, repeat = 2):
        expect(f'{left_where} and {right_where}', 'matching', left_key == right_key, left % right)
    return len(items) ** 2


def check_kinds_of_functions():
    """What is told about functions, and what they return."""
    import types
    from scarletio import (
        is_awaitable, is_coroutine, is_coroutine_function, is_coroutine_generator, is_coroutine_generator_function, is_generator,
        is_generator_function, to_coroutine,
    )
    count = 0
    for converter, flavor, kind, leading in product(
        (None, to_coroutine, types.coroutine), FLAVORS, ('function', 'method', 'class method', 'static method'), range(3),
    ):
        signature = (0, leading, 0, leading == 2, (), leading == 1)
        analyzed, _, _, function, _ = build(kind, signature, flavor)
        where = f'{kind} ({source_of(signature, (), False)}) {flavor}{f" {converter.__module__}" if converter else ""}'
        if converter is not None:
            if kind != 'function' or flavor == 'async generator' or (not flavor):
                continue
            if converter is types.coroutine and flavor == 'async':
                continue
            analyzed = attempt(where, lambda: converter(analyzed))
        result = analyzed(*(1,) * leading)
        is_converted = converter is not None and flavor == 'generator'
        expect(where, 'is coroutine function', flavor == 'async' or is_converted, is_coroutine_function(analyzed))
        expect(where, 'is coroutine generator function', flavor == 'async generator', is_coroutine_generator_function(analyzed))
        expect(where, 'is generator function', flavor == 'generator', is_generator_function(analyzed))
        expect(where, 'is coroutine', flavor == 'async' or is_converted, is_coroutine(result))
        expect(where, 'is awaitable', flavor == 'async' or is_converted, is_awaitable(result))
        expect(where, 'is coroutine generator', flavor == 'async generator', is_coroutine_generator(result))
        expect(where, 'is awaitable by python', inspect.isawaitable(result), is_awaitable(result))
        if inspect.iscoroutine(result):
            result.close()
        count += 1
    return count


class CallablesCheck(Check):
    id = 'C43'
    rule = 'a state is a distinct signature of a kind of callable, or a pair of them being matched'
    assumptions = [
        'what required keyword only parameters a function of a cycler has is left open',
        'classes having both `__new__` and `__init__`, and callables without code (like `functools.partial`), are not analyzed',
    ]

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        limit = 4 if tier == 'quick' else 5
        jobs = [('analyze', kind, flavor, limit) for kind in KINDS for flavor in FLAVORS]
        jobs.extend([('match', 2 if tier == 'quick' else 3), ('functions',)])
        return jobs

    def run_job(self, job, stats, tier):
        kind, *parameters = job
        if kind == 'analyze':
            callable_kind, flavor, limit = parameters
            for signature in signatures(limit):
                for annotated in (False, True):
                    try:
                        outcome = check_one(callable_kind, signature, flavor, annotated)
                    except Violation as violation:
                        stats.violate(violation.key, violation.message, violation.artefact)
                        outcome = 'violation'
                    stats.evaluations += 1
                    stats.nontrivial += 1
                    stats.transitions += ARGUMENT_COUNT + 2
                    stats.state((callable_kind, flavor, signature, annotated))
                    stats.outcome(outcome)
        else:
            try:
                if kind == 'match':
                    count = check_matching(*parameters)
                else:
                    count = check_kinds_of_functions()
            except Violation as violation:
                stats.violate(violation.key, violation.message, violation.artefact)
                count = 1
            stats.evaluations += count
            stats.nontrivial += count
            stats.transitions += count
            stats.state(job)
        stats.sample(repr(job))


CHECK = CallablesCheck()
