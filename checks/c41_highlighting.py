"""
C41: highlighting python code shows exactly the code: nothing is lost, added or moved, whatever the text is.
"""
import ast, html, io, re, signal, tokenize, warnings
from itertools import product

from mc.base import Check, Hang, Violation

PIECES = (
    'a', "'", '"', "'''", '"""', "f'", 'f"', 'rb"', 'f"""', '{', '}', '{{', '(', ')', '[', ']', ':', '!r', '=', '\\', '\n', ' ', '#', '.', '1', '0x', 'e', '>>> ', 'if', '<é', '\t',
)
NESTING = ("f'", 'f"', "'", '"', '{', '}', ':', '\n', '(', ')', 'a')
LINES = ("'''", 'f"""', '"""', '{', '}', '\\', '\n', '#', '!r', ' ', '...')
BRACES = ('(', ')', '[', ']', '{', '}', "f'", "'", '\n')
CODE = re.compile('\\x1b\\[([0-9;]*)m')

HANGS_AFTER = 20.0


def modules():
    from scarletio.utils import highlight
    return highlight


def judge(text, stats, contexts):
    highlight = modules()
    stats.evaluations += 1
    artefact = ['text', text]
    try:
        result = highlight.get_highlight_parse_result(text)
    except Exception as exception:
        raise Violation('fails:' + type(exception).__name__, f'{text!r}: {exception!r}', artefact) from exception
    tokens = result.tokens
    position = line = column = 0
    for token in tokens:
        if token.length < 0:
            raise Violation('length', f'{text!r}: {token!r}', artefact)
        if token.length == 0:
            continue
        if token.content_character_index != position:
            raise Violation('position', f'{text!r}: {token!r} should start at {position!r}', artefact)
        if token.type == highlight.HIGHLIGHT_TOKEN_TYPES.TOKEN_TYPE_LINE_BREAK:
            if text[position : position + token.length] != '\n':
                raise Violation('line break', f'{text!r}: {token!r}', artefact)
        if token.line_index != line or token.line_character_index != column:
            raise Violation('line', f'{text!r}: {token!r} should be at line {line!r}, character {column!r}', artefact)
        if token.type == highlight.HIGHLIGHT_TOKEN_TYPES.TOKEN_TYPE_LINE_BREAK:
            line += 1
            column = 0
        else:
            column += token.length
        position += token.length
    if position != len(text):
        raise Violation('lost', f'{text!r}: only {text[:position]!r} is in the tokens', artefact)

    if '\\\n' not in text and is_python(text):
        # (strings continued at the next line by a backslash are shown as if they ended)
        judge_structure(text, result, contexts['pairs'], stats)

    # shown
    parts = [*highlight.iter_highlight_code_token_types_and_values(text)]
    if ''.join([value for _, value in parts]) != text:
        raise Violation('parts', f'{text!r}: {parts!r}', artefact)
    for name, (context, details) in contexts['contexts'].items():
        into = []
        streamer = highlight.get_highlight_streamer(context)
        for item in parts:
            into.extend(streamer.asend(item))
        into.extend(streamer.asend(None))
        shown = ''.join(into)
        if name == 'none':
            if shown != text:
                raise Violation('shown none', f'{text!r} is shown as {shown!r}', artefact)
            continue
        seen = (terminal if name.startswith('ansi') else browser)(shown)
        if seen is None:
            raise Violation(f'broken {name}', f'{text!r} is shown as {shown!r}', artefact)
        expected = []
        for token_type, value in parts:
            expected.extend((character, details(token_type)) for character in value)
        if seen != expected:
            raise Violation(f'shown {name}', f'{text!r} is shown as {shown!r}, that is {seen!r}, it should be {expected!r}', artefact)
    stats.transitions += len(parts)
    stats.nontrivial += bool(text)
    stats.outcome(str(len(result.layers)))


def is_python(text):
    try:
        ast.parse(text)
    except (SyntaxError, ValueError):
        return False
    return True


def structure(text):
    """The nesting told by the tokenizer of python: where each brace and string begins and ends."""
    starts = [0]
    for line in text.split('\n'):
        starts.append(starts[-1] + len(line) + 1)
    opened = []
    spans = []
    for token in tokenize.generate_tokens(io.StringIO(text).readline):
        begin = starts[token.start[0] - 1] + token.start[1]
        end = starts[token.end[0] - 1] + token.end[1]
        if token.type == tokenize.OP and token.string in ('(', '[', '{'):
            opened.append(begin)
        elif token.type == tokenize.OP and token.string in (')', ']', '}'):
            spans.append((opened.pop(), end))
        elif token.type == tokenize.STRING:
            prefix = min(index for index in (token.string.find("'"), token.string.find('"')) if index != -1)
            spans.append((begin + prefix, end))
        elif token.type == tokenize.FSTRING_START:
            opened.append(begin + len(token.string.rstrip('\'"')))
        elif token.type == tokenize.FSTRING_END:
            spans.append((opened.pop(), end))
    return sorted(spans)


def judge_structure(text, result, pairs, stats):
    """For valid code the layers are the braces and strings of it."""
    artefact = ['text', text]
    tokens = result.tokens
    found = []
    spans = []
    for layer in result.layers:
        start, end = layer.token_start_index, layer.token_end_index
        if not 0 <= start < end < len(tokens) or pairs.get(tokens[start].type) != tokens[end].type:
            raise Violation('layer', f'{text!r}: {layer!r} of {tokens!r}', artefact)
        outer = -1
        for index, (other_start, other_end) in enumerate(spans):
            if other_start < start < other_end:
                outer = index
        if layer.layer_outer_index != outer:
            raise Violation('layer outer', f'{text!r}: {layer!r} is in {outer!r}', artefact)
        spans.append((start, end))
        found.append((tokens[start].content_character_index, tokens[end].content_character_index + tokens[end].length))
    expected = structure(text)
    if sorted(found) != expected:
        raise Violation('structure', f'{text!r}: braces and strings at {sorted(found)!r}, they are at {expected!r}', artefact)
    stats.count('valid code', 1)


def terminal(shown):
    """What a terminal shows: characters with their decoration and colors. None if it is not in its initial state at the end."""
    state = (None, None, None)
    seen = []
    position = 0
    while position < len(shown):
        matched = CODE.match(shown, position)
        if matched is None:
            if shown[position] == '\x1b':
                return None
            seen.append((shown[position], state))
            position += 1
            continue
        position = matched.end()
        values = [int(value or 0) for value in matched.group(1).split(';')]
        decoration, background, foreground = state
        while values:
            value = values.pop(0)
            if value == 0:
                decoration = background = foreground = None
            elif value in (38, 48):
                if values[:1] != [2] or len(values) < 4:
                    return None
                color = tuple(values[1:4])
                del values[:4]
                if value == 38:
                    foreground = color
                else:
                    background = color
            else:
                decoration = value
        state = (decoration, background, foreground)
    if state != (None, None, None):
        return None
    return seen


TAG = re.compile('<(?:(br)|span class="([^"]*)"|(/span))>')


def browser(shown):
    """What a browser shows: characters with their class."""
    classes = []
    seen = []
    position = 0
    while position < len(shown):
        if shown[position] == '<':
            matched = TAG.match(shown, position)
            if matched is None:
                return None
            position = matched.end()
            if matched.group(1):
                seen.append(('\n', classes[-1] if classes else None))
            elif matched.group(3):
                if not classes:
                    return None
                classes.pop()
            else:
                classes.append(matched.group(2))
            continue
        if shown[position] == '&':
            end = shown.index(';', position) + 1
            character = html.unescape(shown[position : end])
            position = end
        else:
            character = shown[position]
            position += 1
        seen.append((character, classes[-1] if classes else None))
    if classes:
        return None
    return seen


def make_contexts():
    highlight = modules()
    types = highlight.HIGHLIGHT_TOKEN_TYPES
    pairs = {}
    for name in dir(types):
        if name.startswith('TOKEN_TYPE_') and name.endswith('_OPEN'):
            pairs[getattr(types, name)] = getattr(types, name[:-len('OPEN')] + 'CLOSE')

    def ansi_details(context):
        def details(token_type):
            detail = context.formatter_nodes[token_type].detail
            if detail is None:
                return None, None, None
            return detail.text_decoration, detail.background_color, detail.foreground_color
        return details

    def html_details(context):
        def details(token_type):
            detail = context.formatter_nodes[token_type].detail
            return None if detail is None else detail.html_class
        return details

    default = highlight.DEFAULT_ANSI_HIGHLIGHTER
    # every kind of change in between two details
    mixed = highlight.HighlightFormatterContext()
    colors = (None, (1, 2, 3), (4, 5, 6))
    for index, token_type in enumerate(sorted(mixed.formatter_nodes)):
        if not token_type:
            continue
        combination = index * 5 % 27
        detail = highlight.FormatterDetailANSI(
            text_decoration = (None, 1, 4)[combination % 3], background_color = colors[combination // 3 % 3], foreground_color = colors[combination // 9],
        )
        if combination == 0:
            detail = None
        mixed.formatter_nodes[token_type].set_detail(detail)
    markup = highlight.HighlightFormatterContext()
    markup.set_highlight_html_all()
    for index, token_type in enumerate(sorted(markup.formatter_nodes)):
        if index % 3 and token_type:
            markup.formatter_nodes[token_type].set_detail(highlight.FormatterDetailHTML(f'c{index % 5}'))
    return {
        'pairs': pairs,
        'contexts': {
            'none': (None, None),
            'ansi default': (default, ansi_details(default)),
            'ansi mixed': (mixed, ansi_details(mixed)),
            'html': (markup, html_details(markup)),
        },
    }


def details_job(first, stats):
    """Every sequence of kinds of details."""
    highlight = modules()
    colors = (None, (1, 2, 3), (4, 5, 6))
    kinds = [None] + [
        highlight.FormatterDetailANSI(text_decoration = decoration, background_color = background, foreground_color = foreground)
        for decoration in (None, 1, 4) for background in colors for foreground in colors
    ]
    context = highlight.HighlightFormatterContext()
    types = sorted(context.formatter_nodes)[1:4]
    nodes = [context.formatter_nodes[token_type] for token_type in types]
    for rest in product(range(len(kinds)), repeat = 2):
        indexes = (first, *rest)
        for node, index in zip(nodes, indexes):
            node.detail = kinds[index]
        into = []
        streamer = highlight.get_highlight_streamer(context)
        expected = []
        for token_type, character, index in zip(types, 'abc', indexes):
            into.extend(streamer.asend((token_type, character)))
            detail = kinds[index]
            expected.append((character, (None, None, None) if detail is None else (detail.text_decoration, detail.background_color, detail.foreground_color)))
        into.extend(streamer.asend(None))
        shown = ''.join(into)
        stats.evaluations += 1
        stats.nontrivial += 1
        stats.transitions += 3
        if terminal(shown) != expected:
            raise Violation('details', f'{[kinds[index] for index in indexes]!r} is shown as {shown!r}', ['details', list(indexes)])
    stats.outcome('details')


class HighlightCheck(Check):
    id = 'C41'
    rule = 'the text is not empty'
    job_timeout = {'quick': 400.0, 'thorough': 2700.0}
    assumptions = [
        'texts are made of the listed pieces, which cover every branch of the tokenizer',
        'terminal and browser are small models of what the produced codes mean',
    ]

    def jobs(self, tier):
        thorough = tier != 'quick'
        jobs = []
        for first in range(len(PIECES)):
            for second in range(len(PIECES)) if thorough else (None,):
                jobs.append(('pieces', first, second, 4 if thorough else 3))
        for name, pieces, depth in (('nesting', NESTING, 6), ('lines', LINES, 6), ('braces', BRACES, 6)):
            for first in range(len(pieces)):
                for second in range(len(pieces)):
                    jobs.append((name, first, second, depth if thorough else depth - 1))
        for first in range(28):
            jobs.append(('details', first))
        return jobs

    def run_job(self, job, stats, tier):
        if job[0] == 'details':
            details_job(job[1], stats)
            stats.sample(repr(job))
            return
        name, first, second, depth = job
        pieces = {'pieces': PIECES, 'nesting': NESTING, 'lines': LINES, 'braces': BRACES}[name]
        warnings.simplefilter('ignore')
        contexts = make_contexts()
        prefix = [pieces[first]]
        if second is not None:
            prefix.append(pieces[second])
        lengths = range(len(prefix), depth + 1) if name != 'pieces' or not second else (depth,)
        if second == 0 or second is None:
            self.guarded(pieces[first], stats, contexts)
            self.guarded('', stats, contexts)
        for length in lengths:
            for count, rest in enumerate(product(pieces, repeat = length - len(prefix))):
                if count % 256 == 0:
                    signal.setitimer(signal.ITIMER_REAL, HANGS_AFTER)
                self.guarded(''.join((*prefix, *rest)), stats, contexts)
                if len(stats.violations) > 20:
                    return
            stats.state((job, length))
        stats.sample(repr(job))

    def guarded(self, text, stats, contexts):
        try:
            judge(text, stats, contexts)
        except Violation as violation:
            stats.violate(violation.key, violation.message, violation.artefact)
        except Hang:
            stats.violate('never ends', f'highlighting of {text!r} never ends', ['text', text])
            signal.setitimer(signal.ITIMER_REAL, HANGS_AFTER)

    def replay(self, job, artefact, stats):
        if artefact[0] == 'details':
            details_job(artefact[1][0], stats)
            return
        signal.setitimer(signal.ITIMER_REAL, HANGS_AFTER)
        self.guarded(artefact[1], stats, make_contexts())


CHECK = HighlightCheck()
