"""
C42: tracebacks tell everything, and rendering them always works: whatever the frames, the reasons and the exceptions are.
"""
import ast, io, os, re, shutil, signal, sys, tempfile, tokenize, traceback, types, warnings
from itertools import combinations, permutations, product

from mc.base import Check, Hang, Violation

HANGS_AFTER = 20.0

TITLE = 'Traceback (most recent call last):\n'
TITLES = {
    'cause': '\nThe above exception was the direct cause of the following exception:\n\n',
    'context': '\nDuring handling of the above exception another exception occurred:\n\n',
}
LOCATION = re.compile('  File "(.*)", (?:around )?line ([0-9]+), in (.*)')
REPEAT = re.compile('\\[Following ([0-9]+) frames? (?:was|were) repeated ([0-9]+) times\\]')


def render(exception, **keywords):
    from scarletio.utils.trace import render_exception_into
    into = []
    render_exception_into(exception, into, **keywords)
    return ''.join(into)


# ---- frames ----

def make_frame(file_name, name = 'function'):
    variables = {}
    exec(compile(f'import sys\ndef {name}():\n    return sys._getframe()\n', file_name, 'exec'), variables)
    return variables[name]()


def make_kinds():
    """Kinds of frames: same line but an other instruction, other lines, an other function."""
    function = make_frame('<none>', 'function')
    other = make_frame('<none>', 'other')
    return [(function, 2, 1), (function, 4, 1), (function, 4, 2), (other, 2, 1)]


def chain(kinds, sequence):
    link = None
    for index in reversed(sequence):
        frame, instruction, line = kinds[index]
        link = types.TracebackType(link, frame, instruction, line)
    return link


def parse_frames(shown):
    """Gives back the frames told by what is shown, the repeated ones as often as they are told to be repeated."""
    frames = []
    told = 0
    repeated = None
    for line in shown.splitlines():
        matched = LOCATION.fullmatch(line)
        if matched is not None:
            told += 1
            (frames if repeated is None else repeated[2]).append((matched[3], int(matched[2])))
            continue
        matched = REPEAT.fullmatch(line)
        if matched is not None:
            if repeated is not None:
                raise ValueError('nested')
            repeated = (int(matched[1]), int(matched[2]), [])
            continue
        if line == '[End of repeated frames]':
            if repeated is None or repeated[0] != len(repeated[2]) or repeated[1] < 2:
                raise ValueError('repeat')
            frames.extend(repeated[2] * repeated[1])
            repeated = None
            continue
        raise ValueError(line)
    if repeated is not None:
        raise ValueError('open')
    return frames, told


def judge_frames(kinds, sequence, stats, filtered = None):
    artefact = ['frames', list(sequence), filtered]
    stats.evaluations += 1
    stats.transitions += len(sequence)
    exception = ValueError('end')
    exception.__traceback__ = chain(kinds, sequence)
    expected = [(kinds[index][0].f_code.co_name, kinds[index][2]) for index in sequence]
    keywords = {}
    if filtered is not None:
        keywords['filter'] = lambda frame: (frame.name, frame.line_index + 1) != filtered
        expected = [element for element in expected if element != filtered]
    try:
        shown = render(exception, **keywords)
    except Exception as error:
        raise Violation('frames fail:' + type(error).__name__, f'{sequence!r} {filtered!r}: {error!r}', artefact) from error
    if not shown.startswith(TITLE) or not shown.endswith('ValueError: end\n'):
        raise Violation('frames ends', f'{sequence!r}: {shown!r}', artefact)
    try:
        frames, told = parse_frames(shown[len(TITLE) : -len('ValueError: end\n')])
    except ValueError as error:
        raise Violation('frames form', f'{sequence!r} {filtered!r}: {error!r}: {shown}', artefact) from error
    if frames != expected:
        raise Violation('frames', f'{sequence!r} {filtered!r}: told {frames!r} instead of {expected!r}', artefact)
    stats.outcome('folded' if told < len(frames) else 'plain')
    if told < len(frames):
        stats.nontrivial += 1
    # the same, rendered as frames
    if filtered is None or len(sequence) < 6:
        from scarletio.utils.trace import render_frames_into
        link = exception.__traceback__
        links = []
        while link is not None:
            links.append(link)
            link = link.tb_next
        frames, told = parse_frames(''.join(render_frames_into(links, **keywords)))
        if frames != expected:
            raise Violation('only frames', f'{sequence!r} {filtered!r}: told {frames!r} instead of {expected!r}', artefact)
    return told


def judge_depth(kinds, prefix, cycle, suffix, stats):
    """However deep a recursion is, as much is shown."""
    told = [judge_frames(kinds, (*prefix, *cycle * depth, *suffix), stats) for depth in (4, 5, 9)]
    if len({*told}) != 1:
        raise Violation('depth', f'{prefix!r} + {cycle!r} * 4, 5, 9 + {suffix!r} show {told!r} frames', ['depth', prefix, cycle, suffix])


# ---- reasons ----

# exceptions may be empty too
Falsy = type('ValueError', (ValueError,), {'__bool__': lambda self: False})


def build(options):
    from scarletio import CauseGroup
    exceptions = [(Falsy if index % 2 else ValueError)(f'e{index}') for index in range(len(options))]
    for exception, (cause, context, suppress) in zip(exceptions, options):
        if isinstance(cause, tuple):
            exception.__cause__ = CauseGroup(*(exceptions[index] for index in cause))
        elif cause is not None:
            exception.__cause__ = exceptions[cause]
        if context is not None:
            exception.__context__ = exceptions[context]
        exception.__suppress_context__ = suppress
    return exceptions


def reason_of(option):
    cause, context, suppress = option
    if isinstance(cause, tuple):
        return 'group', cause
    if cause is not None:
        return 'cause', cause
    if context is not None and not suppress:
        return 'context', context
    return None, None


def expected_reasons(options, start, above):
    """Gives what is expected to be shown; repeating reasons are not followed. Raises `RecursionError` if the reasons of a group repeat."""
    steps = [(None, start)]
    while True:
        kind, reason = reason_of(options[steps[-1][1]])
        if kind is None:
            break
        if kind == 'group':
            steps.append((kind, reason))
            break
        if any(reason == step for _, step in steps):
            break
        steps.append((kind, reason))
    above = above | {step for kind, step in steps if kind != 'group'}
    parts = []
    for kind, step in reversed(steps):
        if kind == 'group':
            parts.append(f'The following {len(step)} exceptions where the reason of the exception following them:\n\n')
            for index, cause in enumerate(step, 1):
                if cause in above:
                    raise RecursionError
                parts.append(f'[Exception {index}] ')
                parts.append(expected_reasons(options, cause, above))
                if index != len(step):
                    parts.append('\n')
            parts.append(f'\nThe above {len(step)} exception was the direct cause of the following exception:\n\n')
            continue
        parts.append(f'{TITLE}ValueError: e{step}\n')
        if kind is not None:
            parts.append(TITLES[kind])
    return ''.join(parts)


def reachable(options):
    reached = [0]
    for index in reached:
        kind, reason = reason_of(options[index])
        for other in (reason if kind == 'group' else () if kind is None else (reason,)):
            if other not in reached:
                reached.append(other)
    return reached


def judge_reasons(options, stats):
    artefact = ['reasons', options]
    stats.evaluations += 1
    exceptions = build(options)
    try:
        shown = render(exceptions[0])
    except Exception as error:
        raise Violation('reasons fail:' + type(error).__name__, f'{options!r}: {error!r}', artefact) from error
    finally:
        for exception in exceptions:
            exception.__cause__ = exception.__context__ = None
    stats.transitions += shown.count('Traceback')
    try:
        expected = expected_reasons(options, 0, set())
    except RecursionError:
        # whatever is repeated, everything is told
        for index in reachable(options):
            if f'ValueError: e{index}\n' not in shown:
                raise Violation('reasons lost', f'{options!r}: {shown!r}', artefact)
        stats.outcome('repeating')
        stats.nontrivial += 1
        return
    if shown != expected:
        raise Violation('reasons', f'{options!r}: {shown!r} instead of {expected!r}', artefact)
    stats.outcome('reasons')
    if len(reachable(options)) > 1:
        stats.nontrivial += 1


def reason_options(count, groups):
    causes = [None, *range(count)]
    if groups:
        for length in range(2, count + 1):
            causes.extend(permutations(range(count), length) if groups == 'ordered' else combinations(range(count), length))
    return [
        (cause, context, suppress)
        for cause in causes for context in (None, *range(count)) for suppress in ((False, True) if not groups else (False,))
        if context is not None or not suppress
    ]


# ---- expressions ----

PIECES = (
    'a = 1', 'b = (', 'c = [1,', ')', '    2,', ']', 'd(f"{', '}")', "e = '''", "  x'''", '', '  ', '# (', 'f(1, [', 'g = ")"', '), h(', "i = '\\'('",
)


def spans_of(text):
    """Gives the start and end lines of the braces and strings of the text, or `None` if it is not python."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ast.parse(text)
        tokens = [*tokenize.generate_tokens(io.StringIO(text).readline)]
    except (SyntaxError, ValueError, tokenize.TokenError):
        return None
    spans = []
    opened = []
    for token in tokens:
        if token.type == tokenize.STRING:
            spans.append((token.start, token.end))
        elif token.type == getattr(tokenize, 'FSTRING_START', -1):
            opened.append(token.start)
        elif token.type == getattr(tokenize, 'FSTRING_END', -1):
            spans.append((opened.pop(), token.end))
        elif token.type == tokenize.OP:
            if token.string in ('(', '[', '{'):
                opened.append(token.start)
            elif token.string in (')', ']', '}'):
                spans.append((opened.pop(), token.end))
    return spans


def innermost(spans, position):
    """Gives the smallest span around the position."""
    around = [span for span in spans if span[0] < position < span[1]]
    return max(around, default = None)


def judge_expressions(lines, path, stats):
    text = '\n'.join(lines)
    with open(path, 'w') as file:
        file.write(text)
    # the pieces may open more than they close: nothing is told about how much is shown then
    spans = spans_of(text)
    frame = make_frame(path)
    lines = text.split('\n')
    for number in range(1, len(lines) + 2):
        artefact = ['expressions', list(lines)]
        stats.evaluations += 1
        exception = ValueError('end')
        exception.__traceback__ = types.TracebackType(None, frame, 0, number)
        try:
            shown = render(exception)
        except Exception as error:
            raise Violation('expression fails:' + type(error).__name__, f'{text!r} at {number}: {error!r}', artefact) from error
        start = f'{TITLE}  File "{path}", '
        if not shown.startswith(start) or not shown.endswith('ValueError: end\n'):
            raise Violation('expression form', f'{text!r} at {number}: {shown!r}', artefact)
        location, *body = shown[len(start) : -len('ValueError: end\n')].split('\n')[:-1]
        if location.removeprefix('around ') != f'line {number}, in function':
            raise Violation('expression location', f'{text!r} at {number}: {shown!r}', artefact)
        if number > len(lines):
            if any(line.strip() for line in body):
                raise Violation('expression after the end', f'{text!r} at {number}: {shown!r}', artefact)
            continue
        # what is shown are lines of the file next to each other, this one too
        stripped = [line.strip() for line in lines]
        wanted = [line.strip() for line in body]
        while wanted and not wanted[-1]:
            del wanted[-1]
        places = [
            first for first in range(number) if first + len(body) >= number and stripped[first : first + len(wanted)] == wanted
        ]
        if not places and (wanted or stripped[number - 1]):
            raise Violation('expression lines', f'{text!r} at {number}: {shown!r}', artefact)
        if ('around' in location) != (len(body) > 1):
            # trailing empty line may be left out
            if not any(first + len(body) < len(lines) + 1 for first in places):
                raise Violation('expression around', f'{text!r} at {number}: {shown!r}', artefact)
        stats.outcome('around' if len(wanted) > 1 else 'line')
        if spans is None:
            continue
        stats.nontrivial += 1
        before = innermost(spans, (number, 0))
        after = innermost(spans, (number + 1, 0))
        first, last = number, number
        if before != after:
            if before is not None:
                first = before[0][0]
            if after is not None:
                last = after[1][0]
        expected = stripped[first - 1 : last]
        while expected and not expected[-1]:
            del expected[-1]
        if wanted != expected:
            raise Violation('expression', f'{text!r} at {number}: shows {wanted!r} instead of {expected!r}', artefact)
        # how deep the lines are to each other stays
        raw = [line.rstrip() for line in lines[first - 1 : last]]
        common = min((len(line) - len(line.lstrip()) for line in raw if line), default = 0)
        if body and body[0].strip() and body[0].rstrip() not in ('    ' + raw[0][common:], '    ' + raw[0]):
            raise Violation('expression depth', f'{text!r} at {number}: {shown!r}', artefact)


# ---- files which change ----

CONTENTS = ('first()\n', '\nsecond(\n    1\n)\n', None, 'x')


def judge_changes(history, path, stats):
    """Shown is what is in the file at the time of showing."""
    frame = make_frame(path)
    artefact = ['changes', list(history)]
    for index in history:
        content = CONTENTS[index]
        if content is None:
            if os.path.exists(path):
                os.unlink(path)
        else:
            with open(path, 'w') as file:
                file.write(content)
        for number in (1, 2, 4):
            stats.evaluations += 1
            stats.transitions += 1
            exception = ValueError('end')
            exception.__traceback__ = types.TracebackType(None, frame, 0, number)
            shown = render(exception)
            body = [line.strip() for line in shown[len(TITLE) : -len('ValueError: end\n')].splitlines()[1:]]
            lines = () if content is None else content.splitlines()
            line = lines[number - 1] if number <= len(lines) else ''
            if (line.strip() not in body) if line else any(body):
                raise Violation('changes', f'{history!r}: line {number} of {content!r} is shown as {shown!r}', artefact)
    stats.nontrivial += 1
    stats.outcome('changes')


# ---- syntax errors ----

def details_of():
    for file_name, number, offset, text in product((None, 'file.py', 'a"b'), (0, 1, 7), (-1, 0, 1, 3, 5, 100), (None, '', 'abc', '  abc\n', '\n', 'a\nb', 'é\t x')):
        yield (file_name, number, offset, text)
        for end_number, end_offset in product((0, 1, 8), (-1, 0, 1, 4, 100)):
            yield (file_name, number, offset, text, end_number, end_offset)


def judge_details(message, details, stats):
    stats.evaluations += 1
    artefact = ['details', [message, list(details)]]
    try:
        exception = SyntaxError(message, details)
        shown = render(exception)
    except Exception as error:
        raise Violation('syntax error fails:' + type(error).__name__, f'{message!r} {details!r}: {error!r}', artefact) from error
    if not shown.startswith(TITLE) or 'SyntaxError' not in shown or (isinstance(message, str) and message not in shown):
        raise Violation('syntax error lost', f'{message!r} {details!r}: {shown!r}', artefact)
    stats.outcome('details')


SYNTAX = ('a', '1', '(', ')', '=', ' ', '\n', "'", 'f"{', '"', ':', '    ', 'if', 'x for x in y', ',', 'é', '\t', 'return')


def judge_syntax(text, stats):
    artefact = ['syntax', text]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            compile(text, '<given>', 'exec')
        except SyntaxError as error:
            exception = error.with_traceback(None)
        except ValueError:
            return
        else:
            stats.outcome('python')
            return
    stats.evaluations += 1
    stats.transitions += 1
    try:
        shown = render(exception)
    except Exception as error:
        raise Violation('syntax fails:' + type(error).__name__, f'{text!r}: {error!r}', artefact) from error
    lines = shown[len(TITLE):].split('\n')
    if not shown.startswith(TITLE) or exception.msg not in shown:
        raise Violation('syntax lost', f'{text!r}: {shown!r}', artefact)
    _, details = exception.args if len(exception.args) == 2 else (None, None)
    if details is None or details[3] is None or not details[3].strip():
        stats.outcome('no line')
        return
    stats.nontrivial += 1
    line = details[3].rstrip().lstrip(' \n\t\f')
    if '\n' in line or details[0] is None:
        stats.outcome('lines')
        return
    if lines[0] != f'  File "<given>", line {details[1]}' or lines[1] != '    ' + line:
        raise Violation('syntax line', f'{text!r}: {shown!r}', artefact)
    if len(details) == 6 and details[4] != details[1]:
        stats.outcome('over lines')
        return
    # the place is where python itself shows it
    reference = [*traceback.TracebackException(SyntaxError, exception, None).format_exception_only()]
    reference = ''.join(reference).split('\n')
    mark = next((other for other in reference[2:] if other.strip() and not other.strip(' \t^')), None)
    marked = lines[2] if len(lines) > 2 and lines[2].strip() and not lines[2].strip(' ^') else None
    if '\t' in details[3] or (mark is not None and mark.strip(' ^')):
        stats.outcome('tabs')
        return
    if (mark or '').rstrip() != (marked or '').rstrip():
        raise Violation('syntax mark', f'{text!r}: {shown!r} instead of {reference!r}', artefact)
    stats.outcome('marked' if mark else 'not marked')


# ---- anything may be raised ----

def raising(error):
    def function(*positional, **keywords):
        raise error if isinstance(error, type) else type(error)(*error.args)
    return function


def make_place():
    # not in this file: it would be parsed each time
    variables = {}
    exec(compile('def place(exception, variable):\n    raise exception\n', '<none>', 'exec'), variables)
    return variables['place']


PLACE = make_place()


class Odd(str):
    pass


def values():
    """Things which are shown, got as attributes, or listed."""
    plain = type('Plain', (), {'alpha': 1, 'alpha_beta': 2})
    yield 'plain', plain()
    yield 'none', None
    yield 'type', plain
    yield 'module', types.ModuleType('module')
    yield 'slots', type('Slots', (), {'__slots__': ('foo', 'alpha')})()
    for name, error in (('value', ValueError('inner')), ('attribute', AttributeError('inner')), ('runtime', RuntimeError('inner'))):
        yield f'repr {name}', type('Repr', (), {'__repr__': raising(error)})()
        yield f'getattr {name}', type('Getattr', (), {'__getattr__': raising(error)})()
        yield f'getattribute {name}', type('Getattribute', (), {'__getattribute__': raising(error)})()
        yield f'property {name}', type('Property', (), {key: property(raising(error)) for key in NAMES})()
        yield f'dir {name}', type('Dir', (), {'__dir__': raising(error)})()
        yield f'class {name}', type('Class', (), {'__class__': property(raising(error))})()
        yield f'dict {name}', type('Dict', (), {'__dict__': property(raising(error))})()
    yield 'repr of other', type('Repr', (), {'__repr__': lambda self: Odd('odd')})()
    yield 'dir of others', type('Dir', (), {'__dir__': lambda self: [1, None, 'alpha']})()
    yield 'dir unhashable', type('Dir', (), {'__dir__': lambda self: [[], 'alpha']})()
    yield 'dir none', type('Dir', (), {'__dir__': lambda self: None})()
    yield 'dir generator', type('Dir', (), {'__dir__': lambda self: iter(('alpha', 'beta'))})()
    mixed = plain()
    mixed.__dict__[1] = 2
    mixed.__dict__[None] = 2
    yield 'mixed', mixed
    crowded = plain()
    for index in range(60):
        setattr(crowded, f'alpha_{index}', index)
        setattr(crowded, f'alpha{index}', index)
    yield 'crowded', crowded


NAMES = ('foo', 'alpha', 'Alpha', 'beta_alpha', '', '_', '__alpha__', 'é', '1', 'a b', 'a_b_c_d_e_f_g_h_i_j_k', 'alphaBetaGammaDeltaEpsilonZetaEtaThetaIotaKappaLambda')


def exceptions_of(value):
    from scarletio import RichAttributeErrorBaseType
    plain = type('Plain', (Exception,), {})
    yield 'parameter', ValueError(value), 'ValueError'
    yield 'parameters', ValueError(value, 1), 'ValueError'
    yield 'key', KeyError(value), 'KeyError'
    yield 'system', OSError(1, value), 'Error'
    yield 'syntax', SyntaxError(value), 'SyntaxError'
    yield 'syntax details', SyntaxError('message', (value, 1, 1, 'x')) if issubclass(type(value), str) else SyntaxError('message', ('x', value, value, value)), 'SyntaxError'
    yield 'string', type('Strings', (Exception,), {'__str__': raising(ValueError)})(value), 'Strings'
    yield 'representation', type('Represents', (Exception,), {'__repr__': raising(ValueError), '__init__': lambda self, *rest: None})(value), 'Represents'
    yield 'of other', type('Others', (Exception,), {'__repr__': lambda self: Odd('Others'), '__init__': lambda self, *rest: None})(value), 'Others'
    yield 'new', type('New', (Exception,), {'__new__': lambda cls, *rest: Exception.__new__(cls)})(value), 'New'
    yield 'getattribute', type('Getattributes', (Exception,), {'__getattr__': raising(ValueError)})(value), 'Getattributes'
    for name in (None, 1, 'alpha'):
        yield f'attribute {name}', AttributeError('message', name = name, obj = value), 'AttributeError'
    yield 'no attribute', AttributeError(value), 'AttributeError'
    yield 'name', NameError(value, name = value), 'NameError'
    yield 'group', ExceptionGroup('message', [ValueError(value)]), 'ExceptionGroup'


def judge_value(label, value, stats):
    from scarletio import CauseGroup
    for kind, exception, name in exceptions_of(value):
        # nobody puts values which hide their type into the details of syntax errors
        if kind == 'syntax details' and label.startswith(('class', 'getattribute')):
            continue
        for raised in (False, True):
            stats.evaluations += 1
            stats.nontrivial += 1
            stats.transitions += 1
            artefact = ['value', label]
            if raised:
                try:
                    PLACE(exception, value)
                except BaseException:
                    pass
                # tell only about the place
                exception.__traceback__ = exception.__traceback__.tb_next
            signal.setitimer(signal.ITIMER_REAL, HANGS_AFTER)
            for top in (exception, type('Top', (Exception,), {})('top')):
                if top is not exception:
                    top.__cause__ = exception
                try:
                    shown = render(top)
                except Hang:
                    raise Violation('value hangs', f'{kind} of {label}', artefact) from None
                except Exception as error:
                    raise Violation('value fails:' + type(error).__name__, f'{kind} of {label}: {error!r}', artefact) from error
                if name not in shown or (top is not exception and 'Top: top' not in shown):
                    raise Violation('value lost', f'{kind} of {label}: {shown!r}', artefact)
            stats.outcome(kind)


def judge_attribute(label, value, name, variable_label, variable, stats):
    """Getting an attribute which does not exist, in a place where there is a variable."""
    from scarletio.utils.rich_attribute_error import AttributeError as RichAttributeError
    for rich in (False, True):
        artefact = ['attribute', [label, name, variable_label]]
        stats.evaluations += 1
        stats.transitions += 1
        exception = RichAttributeError(value, name) if rich else AttributeError('message', name = name, obj = value)
        try:
            PLACE(exception, variable)
        except AttributeError:
            pass
        exception.__traceback__ = exception.__traceback__.tb_next
        signal.setitimer(signal.ITIMER_REAL, HANGS_AFTER)
        try:
            shown = render(exception)
        except Hang:
            raise Violation('attribute hangs', f'`{name}` of {label} next to {variable_label}', artefact) from None
        except Exception as error:
            raise Violation('attribute fails:' + type(error).__name__, f'`{name}` of {label} next to {variable_label}: {error!r}', artefact) from error
        finally:
            del exception
        told = shown.rsplit(', in place\n', 1)[-1]
        if f'`.{name}`' not in told or f'`{type(value).__name__}`' not in told:
            raise Violation('attribute lost', f'`{name}` of {label} next to {variable_label}: {shown!r}', artefact)
        # suggested is what exists
        for suggested in re.findall('`\\.([^`]*)`', told):
            if suggested == name:
                continue
            stats.nontrivial += 1
            try:
                listed = [*object.__dir__(value)]
            except Exception:
                listed = []
            try:
                listed.extend(type(value).__dir__(value))
            except Exception:
                pass
            if suggested not in listed:
                raise Violation('attribute suggested', f'`{name}` of {label}: suggested {suggested!r}', artefact)
        for owner in re.findall('`([^`.]+)\\.' + re.escape(name) + '`', told):
            if owner == 'variable':
                try:
                    getattr(variable, name)
                except Exception as error:
                    raise Violation('variable suggested', f'`{name}` of {label} next to {variable_label}: {told!r}', artefact) from error
        stats.outcome('attribute')


class TracebackCheck(Check):
    id = 'C42'
    rule = 'frames are folded, there is a reason, an expression of valid python, or the exception is odd'
    job_timeout = {'quick': 600.0, 'thorough': 2700.0}
    assumptions = [
        'frames are real ones with made up lines and instructions',
        'what exceptions and values do when they are shown is one of the listed kinds; those ending the process on purpose are let through',
    ]

    def jobs(self, tier):
        thorough = tier != 'quick'
        jobs = []
        for first, second in product(range(4), repeat = 2):
            jobs.append(('frames', first, second, 8 if thorough else 6))
        for first in range(3):
            jobs.append(('depth', first, 3 if thorough else 2))
        for index in range(len(reason_options(3, ''))):
            jobs.append(('reasons', '', 3, index))
        for index in range(len(reason_options(3, 'ordered' if thorough else 'sets'))):
            jobs.append(('reasons', 'ordered' if thorough else 'sets', 3, index))
        if thorough:
            for index, option in enumerate(reason_options(4, '')):
                if not option[2]:
                    jobs.append(('reasons', 'plain', 4, index))
        for first in range(len(PIECES)):
            jobs.append(('expressions', first, 4 if thorough else 3))
        for first in range(len(CONTENTS)):
            jobs.append(('changes', first, 5 if thorough else 4))
        jobs.append(('details',))
        for first in range(len(SYNTAX)):
            jobs.append(('syntax', first, 4 if thorough else 3))
        jobs.append(('values',))
        for index in range(len([*values()])):
            jobs.append(('attributes', index))
        return jobs

    def guarded(self, function, *positional):
        stats = positional[-1]
        try:
            return function(*positional)
        except Violation as violation:
            stats.violate(violation.key, violation.message, violation.artefact)
        except (Hang, MemoryError):
            name = function.__name__.removeprefix('judge_')
            stats.violate(f'{name} never end', f'rendering {positional[:-1]!r} never ends', [name, positional[0]])
            signal.setitimer(signal.ITIMER_REAL, 2.0 if name == 'reasons' else HANGS_AFTER)

    def run_job(self, job, stats, tier):
        signal.setitimer(signal.ITIMER_REAL, HANGS_AFTER)
        directory = tempfile.mkdtemp(prefix = 'c42-')
        try:
            getattr(self, 'run_' + job[0])(*job[1:], stats, os.path.join(directory, 'file.py'))
        finally:
            shutil.rmtree(directory)
        stats.state(job)
        stats.sample(repr(job))

    def alive(self, stats, after = None, counter = [0]):
        counter[0] += 1
        if counter[0] % 16 == 0:
            signal.setitimer(signal.ITIMER_REAL, HANGS_AFTER if after is None else after)
        return len(stats.violations) < 10

    def run_frames(self, first, second, depth, stats, path):
        kinds = make_kinds()
        names = [(kind[0].f_code.co_name, kind[2]) for kind in kinds]
        if first == second == 0:
            self.guarded(judge_frames, kinds, (), stats)
        if first == second:
            self.guarded(judge_frames, kinds, (first,), stats)
        for length in range(2, depth + 1):
            for rest in product(range(4), repeat = length - 2):
                if not self.alive(stats):
                    return
                sequence = (first, second, *rest)
                self.guarded(judge_frames, kinds, sequence, stats)
                if length < depth:
                    for filtered in (names[0], names[2]):
                        self.guarded(self.judge_filtered, kinds, sequence, filtered, stats)
        # two kinds only, but longer
        if first < 3 and second in (first, 3):
            for length in range(depth + 1, depth + 4):
                for rest in product((first, 3), repeat = length - 2):
                    if not self.alive(stats):
                        return
                    self.guarded(judge_frames, kinds, (first, second, *rest), stats)

    @staticmethod
    def judge_filtered(kinds, sequence, filtered, stats):
        judge_frames(kinds, sequence, stats, filtered)

    def run_depth(self, first, longest, stats, path):
        kinds = make_kinds()
        for length in range(1, longest + 2):
            for rest in product(range(3), repeat = length - 1):
                cycle = (first, *rest)
                # runs of the same frame inside of the cycle are folded first
                alike = [(kinds[index][0], kinds[index][2]) for index in cycle]
                if len({*alike}) > 1 and any(alike[index - 2] == alike[index - 1] == alike[index] for index in range(length)):
                    continue
                for before in range(longest + 1):
                    for after in range(longest + 1):
                        for prefix in product((2, 3), repeat = before):
                            for suffix in product((2, 3), repeat = after):
                                if not self.alive(stats):
                                    return
                                self.guarded(judge_depth, kinds, prefix, cycle, suffix, stats)

    def run_reasons(self, groups, count, index, stats, path):
        options = reason_options(count, '' if groups == 'plain' else groups)
        first = options[index]
        if groups == 'plain':
            options = [option for option in options if not option[2]]
        signal.setitimer(signal.ITIMER_REAL, 2.0)
        for rest in product(options, repeat = count - 1):
            # endless reasons fill the memory
            if not self.alive(stats, 2.0):
                return
            self.guarded(judge_reasons, (first, *rest), stats)

    def run_expressions(self, first, depth, stats, path):
        for length in range(1, depth + 1):
            for rest in product(range(len(PIECES)), repeat = length - 1):
                if not self.alive(stats):
                    return
                self.guarded(judge_expressions, [PIECES[index] for index in (first, *rest)], path, stats)

    def run_changes(self, first, depth, stats, path):
        for rest in product(range(len(CONTENTS)), repeat = depth - 1):
            self.guarded(judge_changes, (first, *rest), path, stats)

    def run_details(self, stats, path):
        for details in details_of():
            for message in ('message', '', None):
                if not self.alive(stats):
                    return
                self.guarded(judge_details, message, details, stats)

    def run_syntax(self, first, depth, stats, path):
        for length in range(1, depth + 1):
            for rest in product(range(len(SYNTAX)), repeat = length - 1):
                if not self.alive(stats):
                    return
                self.guarded(judge_syntax, ''.join(SYNTAX[index] for index in (first, *rest)), stats)

    def run_values(self, stats, path):
        for label, value in values():
            self.guarded(judge_value, label, value, stats)

    def run_attributes(self, index, stats, path):
        label, value = [*values()][index]
        for name in NAMES:
            for variable_label, variable in values():
                self.guarded(judge_attribute, label, value, name, variable_label, variable, stats)

    def replay(self, job, artefact, stats):
        signal.setitimer(signal.ITIMER_REAL, HANGS_AFTER)
        kind, what = artefact[0], artefact[1:]
        directory = tempfile.mkdtemp(prefix = 'c42-')
        path = os.path.join(directory, 'file.py')
        try:
            if kind == 'frames':
                self.guarded(self.judge_filtered, make_kinds(), tuple(what[0]), None if what[1] is None else tuple(what[1]), stats)
            elif kind == 'depth':
                self.guarded(judge_depth, make_kinds(), *(tuple(element) for element in what), stats)
            elif kind == 'reasons':
                options = tuple((tuple(cause) if isinstance(cause, list) else cause, context, suppress) for cause, context, suppress in what[0])
                self.guarded(judge_reasons, options, stats)
            elif kind == 'expressions':
                self.guarded(judge_expressions, what[0], path, stats)
            elif kind == 'changes':
                self.guarded(judge_changes, tuple(what[0]), path, stats)
            elif kind == 'details':
                self.guarded(judge_details, what[0][0], tuple(what[0][1]), stats)
            elif kind == 'syntax':
                self.guarded(judge_syntax, what[0], stats)
            elif kind == 'value':
                self.guarded(judge_value, what[0], dict(values())[what[0]], stats)
            else:
                label, name, variable_label = what[0]
                self.guarded(judge_attribute, label, dict(values())[label], name, variable_label, dict(values())[variable_label], stats)
        finally:
            shutil.rmtree(directory)


CHECK = TracebackCheck()
