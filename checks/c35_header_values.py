"""
C35: what is written into structured header values is read from them, and nothing which is not there.
"""
import re
from base64 import b64encode
from itertools import permutations, product

from mc.base import Check, Violation
from mc.vloop import quiet_stderr


TOKEN_CHARACTERS = frozenset("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
EITHER = object()       # left to the implementation
REFUSED = None

# --- lists of tokens (connections, sub protocols, upgrades), extensions

LIST_ALPHABET = ('a', 'B-', '=', ';', ',', ' ', '\t', '"', '/', '\xe9', '\\')
CHARACTERS = tuple(chr(index) for index in range(0, 0x102))


def is_token(value):
    return bool(value) and TOKEN_CHARACTERS.issuperset(value)


def reference_tokens(value, is_element):
    result = []
    for element in value.split(','):
        element = element.strip(' \t')
        if not element:
            continue
        if not is_element(element):
            return REFUSED
        result.append(element)
    return result


def is_protocol(value):
    name, separator, version = value.partition('/')
    return is_token(name) and (is_token(version) if separator else True)


def reference_extensions(value):
    result = []
    elements = value.split(',')
    for element_index, element in enumerate(elements):
        element = element.strip(' \t')
        if not element:
            continue
        name, *parameters = [part.strip(' \t') for part in element.split(';')]
        if not is_token(name):
            return REFUSED
        collected = []
        for index, parameter in enumerate(parameters):
            if not parameter:
                if index == len(parameters) - 1 and element_index == len(elements) - 1:
                    # not valid, but it can not be misunderstood either
                    return EITHER
                return REFUSED
            key, separator, content = parameter.partition('=')
            key = key.rstrip(' \t')
            if not is_token(key):
                return REFUSED
            if not separator:
                collected.append((key, None))
                continue
            content = content.lstrip(' \t')
            if len(content) >= 2 and content[0] == '"' and content[-1] == '"':
                content = content[1:-1]
                if '\\' in content:
                    return EITHER
            if not is_token(content):
                return REFUSED
            collected.append((key, content))
        result.append((name, collected))
    return result


def normalize_extensions(value):
    return [(name, [tuple(parameter) for parameter in parameters]) for name, parameters in value]


def parse_lists_case(value, parsers, stats):
    stats.evaluations += 1
    for name, function, normalize, reference in parsers:
        stats.transitions += 1
        wanted = reference(value)
        try:
            seen = normalize(function(value))
        except ValueError:
            seen = REFUSED
        except Exception as exception:
            raise Violation(f'{name}:{value!r}', f'parsing {name} {value!r} failed with {exception!r}', None)
        if wanted is EITHER:
            continue
        if seen != wanted:
            raise Violation(
                f'{name}:{value!r}',
                f'parsing {name} {value!r} gives {"nothing (refused)" if seen is REFUSED else seen}, it should be {"refused" if wanted is REFUSED else wanted}',
                None,
            )
        if len(value) < 4:
            stats.outcome((name, repr(wanted)))


def list_parsers():
    from scarletio.web_common import header_building_and_parsing as module
    return (
        ('extensions', module.parse_extensions, normalize_extensions, reference_extensions),
        ('connections', module.parse_connections, list, lambda value: reference_tokens(value, is_token)),
        ('sub protocols', module.parse_subprotocols, list, lambda value: reference_tokens(value, is_token)),
        ('upgrades', module.parse_upgrades, list, lambda value: reference_tokens(value, is_protocol)),
    )


def lists_job(first, depth, stats):
    parsers = list_parsers()
    for length in range(0, depth):
        for rest in product(LIST_ALPHABET, repeat = length):
            value = ''.join((first, *rest))
            if stats.state(value):
                guarded(parse_lists_case, stats, value, parsers, stats)


TEMPLATES = ('{}', 'a{}', '{}a', 'a{}b', 'a,{}', 'a;{}', 'a;k{}', 'a;k={}', 'a;k=v{}', 'a;k="{}"', 'a;k="v"{}', 'a;k={}v', 'a/{}', 'a{}/b')


def characters_job(stats):
    """Which characters can be where."""
    parsers = list_parsers()
    for template in TEMPLATES:
        for character in CHARACTERS:
            if character == '\\':
                continue
            value = template.format(character)
            stats.state(value)
            guarded(parse_lists_case, stats, value, parsers, stats)


TOKENS = ('a', 'permessage-deflate', "x!#$%&'*+-.^_`|~0Z")
PARAMETERS = tuple((key, value) for key in ('k', 'server_max_window_bits') for value in (None, '1', "!#$%&'*+-.^_`|~9Az"))


class FakeExtension:
    def __init__(self, name, parameters):
        self.name = name
        self.request_params = parameters


def build_job(stats):
    from scarletio.web_common import header_building_and_parsing as module
    parameter_lists = [list(parameters) for length in range(3) for parameters in product(PARAMETERS, repeat = length)]
    elements = [(name, parameters) for name in TOKENS for parameters in parameter_lists]
    for length in (0, 1, 2):
        for extensions in product(elements if length < 2 else elements[:60], repeat = length):
            wanted = list(extensions)
            stats.evaluations += 1
            stats.state(repr(wanted))
            for value in (
                module.build_accepted_extensions(wanted),
                module.build_extensions([FakeExtension(*extension) for extension in wanted]),
                module.build_accepted_extensions(iter(wanted)),
            ):
                stats.transitions += 1
                if reference_extensions(value) != wanted:
                    raise Violation(f'build:{wanted!r}', f'extensions {wanted!r} are written as {value!r}', None)
                if normalize_extensions(module.parse_extensions(value)) != wanted:
                    raise Violation(f'build:{wanted!r}', f'extensions {wanted!r} written as {value!r} are read as {module.parse_extensions(value)!r}', None)
    for length in range(4):
        for names in product(TOKENS, repeat = length):
            value = module.build_subprotocols(list(names))
            stats.evaluations += 1
            stats.transitions += 1
            stats.state(('sub protocols', names))
            if reference_tokens(value, is_token) != list(names) or list(module.parse_subprotocols(value)) != list(names):
                raise Violation(f'build:{names!r}', f'sub protocols {names!r} are written as {value!r}, that is read as {module.parse_subprotocols(value)!r}', None)


# --- basic authorization

AUTHORIZATION_LETTERS = ('a', 'B', '\xe9', '\u0171', ' ', '\n', '\t', '"', '\\', '\x00', '')
AUTHORIZATION_ENCODINGS = ('latin1', 'utf-8', 'utf-16', 'ascii', 'cp1250', 'utf-7')


def authorization_job(encoding, quick, stats):
    from scarletio.web_common import BasicAuthorization
    users = sorted({''.join(item) for item in product(AUTHORIZATION_LETTERS, repeat = 2)})
    passwords = sorted({''.join(item) for item in product((*AUTHORIZATION_LETTERS, ':'), repeat = 2 if quick else 3)})
    for user, password in product(users, passwords):
        guarded(authorization_case, stats, user, password, encoding, stats)


def authorization_case(user, password, encoding, stats):
    from scarletio.web_common import BasicAuthorization
    key = f'authorization:{user!r}:{password!r}:{encoding}'
    stats.evaluations += 1
    stats.state(key)
    authorization = BasicAuthorization(user, password, encoding = encoding)
    try:
        wanted = 'Basic ' + b64encode(f'{user}:{password}'.encode(encoding)).decode('ascii')
    except UnicodeEncodeError:
        wanted = None
    try:
        value = authorization.to_header()
    except UnicodeEncodeError:
        value = None
    except Exception as exception:
        raise Violation(key, f'writing the user {user!r} with password {password!r} encoded with {encoding} failed with {exception!r}')
    stats.transitions += 1
    if value != wanted:
        raise Violation(key, f'the user {user!r} with password {password!r} encoded with {encoding} is written as {value!r} instead of {wanted!r}')
    if value is None:
        return
    for variation in (value, value.lower()[:5] + value[5:], value.upper()[:5] + value[5:], '  ' + value + ' \t', value[:5] + ' \t ' + value[6:]):
        stats.transitions += 1
        try:
            other = BasicAuthorization.from_header(variation, encoding = encoding)
        except Exception as exception:
            raise Violation(key, f'{variation!r} (user {user!r}, password {password!r}) is not accepted with {encoding}: {exception!r}')
        if (other.user_id, other.password) != (user, password):
            raise Violation(key, f'{variation!r} ({encoding}) is the user {other.user_id!r} with password {other.password!r} instead of {user!r} with {password!r}')
        if other != authorization or hash(other) != hash(authorization):
            raise Violation(key, f'{variation!r} gives {other!r}, which is not equal to {authorization!r} (or its hash is not)')
    stats.outcome((len(user), len(password), encoding))


AUTHORIZATION_TOKENS = ('Basic', 'bASIC', 'Digest', ' ', '\t', 'YTpi', 'YTo=', 'OmI=', 'Og==', 'YQ==', '=', '!', '\xe9', 'Y')


def authorization_parse_job(depth, stats):
    import binascii
    from base64 import b64decode
    from scarletio.web_common import BasicAuthorization
    for length in range(1, depth + 1):
        for tokens in product(AUTHORIZATION_TOKENS, repeat = length):
            value = ''.join(tokens)
            if not stats.state(value):
                continue
            stats.evaluations += 1
            stats.transitions += 1
            parts = value.split()
            wanted = REFUSED
            if len(parts) == 2 and parts[0].casefold() == 'basic':
                try:
                    decoded = b64decode(parts[1].encode('ascii'), validate = True).decode('latin1')
                except (binascii.Error, UnicodeEncodeError):
                    pass
                else:
                    user, separator, password = decoded.partition(':')
                    if separator:
                        wanted = (user, password)
                    else:
                        # there is no colon, the password is missing
                        wanted = EITHER
            elif len(parts) == 1 and parts[0].casefold() == 'basic':
                wanted = EITHER if value[-1:] in ' \t' else REFUSED
            try:
                authorization = BasicAuthorization.from_header(value)
            except ValueError:
                seen = REFUSED
            except Exception as exception:
                raise Violation(f'authorization:{value!r}', f'parsing {value!r} failed with {exception!r}')
            else:
                seen = (authorization.user_id, authorization.password)
            if wanted is EITHER:
                if seen is not REFUSED and seen[1]:
                    raise Violation(f'authorization:{value!r}', f'{value!r} gives {seen}')
                continue
            if seen != wanted:
                raise Violation(f'authorization:{value!r}', f'{value!r} gives {seen}, it should be {wanted}')
            stats.outcome(wanted is REFUSED)


# --- content types

TYPE_ALPHABET = ('a', 'B', '/', '+', ';', '=', '"', '\\', ' ', '\t', '*', ',', '\xdf')
WHITESPACE = ' \t'
DELIMITERS = frozenset(',:;(){}[]<>\'"\\?@=/ \t')


def reference_content_type(value):
    """
    Returns type, sub type, suffix, [(key, value)] and (error index, expected characters) or None.
    A value can be a set of the allowed ones.
    """
    position = 0
    end = len(value)

    def skip():
        nonlocal position
        while position < end and value[position] in WHITESPACE:
            position += 1

    def token(more = ''):
        nonlocal position
        skip()
        start = position
        while position < end and value[position] not in DELIMITERS and value[position] not in more:
            position += 1
        found = value[start:position] or None
        skip()
        return found

    def here(character):
        nonlocal position
        if position < end and value[position] == character:
            position += 1
            return True
        return False

    sub_type = suffix = None
    parameters = []
    type_ = token()
    expected = ';/'
    if here('/'):
        sub_type = token('+')
        expected = ';+'
        if here('+'):
            suffix = token()
            expected = ';'
    head = [None if item is None else item.casefold() for item in (type_, sub_type, suffix)]
    if head[0] == '*' and head[1] is None:
        head[1] = '*'
    error = None
    while True:
        if position == end:
            break
        if not here(';'):
            error = (position, expected)
            break
        # a parameter
        key = token()
        content = None
        expected = ';='
        if here('='):
            expected = ';'
            skip()
            if here('"'):
                collected = []
                closed = False
                while position < end:
                    character = value[position]
                    position += 1
                    if character == '"':
                        closed = True
                        break
                    if character == '\\' and position < end:
                        character = value[position]
                        position += 1
                        if character not in '"\\':
                            # the backslash might be kept
                            collected.append(('\\' + character, character))
                            continue
                    collected.append((character,))
                content = {''.join(item) for item in product(*collected)}
                if not closed:
                    error = (position, '"')
                else:
                    skip()
            else:
                content = {token() or ''}
        if key is not None or (content is not None and content != {''}):
            parameters.append(((key or '').casefold(), content or {''}))
        if error is not None:
            break
    return (*head, parameters, error)


def content_type_case(value, stats):
    from scarletio.web_common.content_type import parse_content_type
    stats.evaluations += 1
    stats.transitions += 1
    key = f'content type:{value!r}'
    try:
        content_type, error = parse_content_type(value)
    except Exception as exception:
        raise Violation(key, f'parsing the content type {value!r} failed with {exception!r}')
    type_, sub_type, suffix, parameters, wanted_error = reference_content_type(value)
    seen = (content_type.type, content_type.sub_type, content_type.suffix)
    if suffix is not None and '+' in suffix:
        seen = seen[:1]
        wanted = (type_,)
    else:
        wanted = (type_, sub_type, suffix)
    if seen != wanted:
        raise Violation(key, f'the type, sub type and suffix of {value!r} are {seen}, they should be {wanted}')
    if (error is None) is not (wanted_error is None):
        raise Violation(key, f'the error in {value!r} is {error!r}, it should be {wanted_error!r}')
    if error is not None:
        if (error.string, error.index) != (value, wanted_error[0]) or error.expected != wanted_error[1]:
            raise Violation(key, f'the error in {value!r} is {error!r}, it should be {wanted_error!r}')
        hash(error)
    # parameters; the same value of the same key is kept once
    grouped = {}
    for name, allowed in parameters:
        values = grouped.setdefault(name, [])
        if allowed not in values:
            values.append(allowed)
    seen_parameters = content_type.parameters
    seen_names = [] if seen_parameters is None else list(seen_parameters.keys())
    if sorted(seen_names) != sorted(grouped):
        raise Violation(key, f'the parameters of {value!r} are {seen_parameters!r}, they should be {grouped!r}')
    for name, values in grouped.items():
        items = seen_parameters.get_all(name)
        if len(items) != len(values) or any(item not in allowed for item, allowed in zip(items, values)):
            raise Violation(key, f'the parameters of {value!r} are {seen_parameters!r}, they should be {grouped!r}')
        if content_type.get_parameter(name) not in items:
            raise Violation(key, f'the parameter {name!r} of {value!r} is {content_type.get_parameter(name)!r}')
    if content_type.get_parameter('missing', 'x') != 'x' or content_type.get_parameter('missing') is not None:
        raise Violation(key, f'{value!r} has the parameter `missing`')
    # and an equal one is equal
    other, other_error = parse_content_type(value)
    if content_type != other or hash(content_type) != hash(other) or (error is None) is not (other_error is None) or error != other_error:
        raise Violation(key, f'{value!r} is not equal to itself')
    if len(value) < 4:
        stats.outcome((wanted, wanted_error))


def content_types_job(first, depth, stats):
    for length in range(0, depth):
        for rest in product(TYPE_ALPHABET, repeat = length):
            value = ''.join((first, *rest))
            if stats.state(value):
                guarded(content_type_case, stats, value, stats)


PARAMETER_PIECES = ('a;k', '=', '"', 'v', '\\', ';', ' ', 'K=w', 'k="x"')


def content_type_parameters_job(first, depth, stats):
    for length in range(0, depth):
        for rest in product(PARAMETER_PIECES[1:], repeat = length):
            value = ''.join((first, *rest))
            if stats.state(value):
                guarded(content_type_case, stats, value, stats)


CONTENT_TYPES = (
    '', '*', '*/*', 'a', 'a/*', 'A', 'a/b', 'A/B', 'a/b+c', 'b/a', 'a/b;c=d', 'a/b;C=d', 'a/b;c=D', 'a/b;c=d;e=f', 'a/b; e=f; c=d', 'a/b;c=d;c=e',
    'a/b;c=e;c=d', 'a/b;c="d"', 'a/b;', 'a;b', 'a;b=', '/a', '/+a', ';a=b', 'a/b;c=d;c=d', '*;a=b', '*/*;a=b',
)


def content_type_equality_job(stats):
    from scarletio.web_common.content_type import parse_content_type
    for first, second in product(CONTENT_TYPES, repeat = 2):
        stats.evaluations += 1
        stats.transitions += 1
        stats.state(('equality', first, second))
        a = parse_content_type(first)[0]
        b = parse_content_type(second)[0]
        key = f'content types:{first!r}:{second!r}'

        def plain(value):
            type_, sub_type, suffix, parameters, error = reference_content_type(value)
            grouped = {}
            for name, allowed in parameters:
                grouped.setdefault(name, set()).update(allowed)
            return type_, sub_type, suffix, grouped

        wanted = plain(first) == plain(second)
        try:
            equal = a == b
            hashes = hash(a) == hash(b)
        except Exception as exception:
            raise Violation(key, f'comparing {a!r} and {b!r} failed with {exception!r}')
        if equal and not wanted:
            raise Violation(key, f'{first!r} and {second!r} are equal')
        if not equal and wanted and [item for item in (first, second) if 'c=e' in item] != [first, second]:
            # (the order of the values of the same parameter is left to the implementation)
            raise Violation(key, f'{first!r} and {second!r} are not equal')
        if equal and not hashes:
            raise Violation(key, f'{first!r} and {second!r} are equal, but their hashes are not')
        if (a != b) is equal:
            raise Violation(key, f'{first!r} and {second!r} are both equal and not equal')
        stats.outcome(equal)


# --- keep alive

KEEP_ALIVE_PIECES = (
    'timeout=5', 'Timeout = 7', 'timeout=0.5', 'max=3', 'MAX\t=\t9', 'timeout=', 'timeout', 'timeout=x', 'timeout=nan', 'timeout=inf', 'timeout=-5', 'timeout=1e999',
    'timeout=-inf', 'max=-1', 'max=x', 'max=1.5', 'max=', 'max', 'nope=4', 'nope', '', 'timeouts=4', 'xmax=4', '=4', 'timeout=5 6', 'max=3;', 'nope="a"',
)
VALID_TIMEOUT_RP = re.compile('[0-9]+(\\.[0-9]+)?')
VALID_MAX_RP = re.compile('[0-9]+')
KEEP_ALIVE_SEPARATORS = (',', ', ', ' ,\t')


def keep_alive_job(first, depth, stats):
    from scarletio.web_common.keep_alive_info import KeepAliveInfo
    for length in range(0, depth):
        for rest in product(KEEP_ALIVE_PIECES, repeat = length):
            for separator in KEEP_ALIVE_SEPARATORS[: 3 if length < 3 else 1]:
                value = separator.join((first, *rest))
                if not stats.state(value):
                    continue
                stats.evaluations += 1
                stats.transitions += 1
                timeout = 15.0
                maximum = 0
                for element in value.split(','):
                    key, equal, content = element.partition('=')
                    if not equal:
                        continue
                    key = key.strip().casefold()
                    content = content.strip()
                    if key == 'timeout' and VALID_TIMEOUT_RP.fullmatch(content):
                        timeout = float(content)
                    elif key == 'max' and VALID_MAX_RP.fullmatch(content):
                        maximum = int(content)
                try:
                    info = KeepAliveInfo.from_header_value(value)
                except Exception as exception:
                    raise Violation(f'keep alive:{value!r}', f'parsing the keep alive header {value!r} failed with {exception!r}')
                if (info.connection_timeout, info.max_requests) != (timeout, maximum):
                    raise Violation(
                        f'keep alive:{value!r}',
                        f'the keep alive header {value!r} gives the timeout {info.connection_timeout!r} and the max {info.max_requests!r} instead of {timeout!r} and {maximum!r}',
                    )
                repr(info)
                other = KeepAliveInfo(timeout, maximum)
                if info != other or hash(info) != hash(other):
                    raise Violation(f'keep alive:{value!r}', f'{info!r} is not equal to {other!r}')
                stats.outcome((timeout, maximum))


# --- content disposition

DISPOSITION_LETTERS = ('a', 'Z', ' ', '\t', '"', '\\', ';', ',', '=', '%', "'", '\xe9', '\u0171', '\U0001f600', '\r', '\n', '\x00', '\x7f', '*', '/')


def read_disposition(value):
    """Strict reader (rfc 6266). Returns (type, [(name, value)]) or None."""
    match = re.compile("([!#$%&'*+.^_`|~0-9a-zA-Z-]+)").match(value)
    if match is None:
        return None
    type_ = match.group(1)
    position = match.end()
    parameters = []
    parameter = re.compile('[ \t]*;[ \t]*([!#$%&\'*+.^_`|~0-9a-zA-Z-]+)=(?:"((?:[^"\\\\\r\n\x00-\x08\x0b-\x1f\x7f]|\\\\[\t -~\x80-\U0010ffff])*)"|([!#$%&\'*+.^_`|~0-9a-zA-Z-]+))')
    while position < len(value):
        match = parameter.match(value, position)
        if match is None:
            return None
        position = match.end()
        name, quoted, token = match.groups()
        if name.endswith('*'):
            from urllib.parse import unquote_to_bytes
            if token is None or token.count("'") != 2:
                return None
            charset, language, content = token.split("'")
            if not re.fullmatch("(?:%[0-9a-fA-F]{2}|[!#$&+.^_`|~0-9a-zA-Z-])*", content):
                return None
            try:
                content = unquote_to_bytes(content).decode(charset)
            except (UnicodeDecodeError, LookupError):
                return None
            parameters.append((name[:-1], content))
        elif quoted is not None:
            parameters.append((name, re.sub('\\\\(.)', '\\1', quoted, flags = re.DOTALL)))
        else:
            parameters.append((name, token))
    return type_, parameters


def disposition_case(type_, parameters, quote_fields, stats):
    from scarletio.web_common.header_building_and_parsing import build_content_disposition_header
    stats.evaluations += 1
    stats.transitions += 1
    key = f'disposition:{type_!r}:{parameters!r}:{quote_fields}'
    stats.state(key)
    possible = is_token(type_) and all(is_token(name) for name, value in parameters)
    try:
        value = build_content_disposition_header(type_, dict(parameters), quote_fields)
    except ValueError:
        value = None
    except Exception as exception:
        raise Violation(key, f'building the disposition of {type_!r}, {parameters!r} failed with {exception!r}')
    if value is None:
        if possible and quote_fields:
            raise Violation(key, f'{type_!r} with {parameters!r} is refused')
        if possible and not any(character in '\r\n\x00\x7f' for name, content in parameters for character in content):
            raise Violation(key, f'{type_!r} with {parameters!r} is refused')
        stats.outcome('refused')
        return
    if not possible:
        raise Violation(key, f'{type_!r} with {parameters!r} is accepted as {value!r}')
    seen = read_disposition(value)
    wanted = (type_, [('filename' if name == 'file_name' else name, content) for name, content in parameters])
    if seen != wanted:
        raise Violation(key, f'{type_!r} with {parameters!r} is written as {value!r} (quoting {quote_fields}), which means {seen!r}')
    stats.outcome((len(parameters), quote_fields))


NAMES = ('name', 'file_name', 'filename', 'a', '', 'a b', 'a,b', 'a;b', 'a"', '\xe9', 'a\t', 'a,', "a!#$%&'+-.^_`|~0", 'a=', 'a/b', 'a:')


def disposition_job(first, depth, stats):
    for length in range(0, depth):
        for rest in product(DISPOSITION_LETTERS, repeat = length):
            content = ''.join((first, *rest))
            for quote_fields in (True, False):
                guarded(disposition_case, stats, 'form-data', [('name', content)], quote_fields, stats)
                if length < 2:
                    guarded(disposition_case, stats, 'attachment', [('a', 'b'), ('file_name', content), ('c', content)], quote_fields, stats)


def disposition_names_job(stats):
    for name, type_ in product(NAMES, NAMES):
        for quote_fields in (True, False):
            guarded(disposition_case, stats, type_, [], quote_fields, stats)
            guarded(disposition_case, stats, type_, [(name, 'x')], quote_fields, stats)
            guarded(disposition_case, stats, 'inline', [(name, 'x'), ('other', '"')], quote_fields, stats)
    # everything which can be quoted at once
    content = ''.join(chr(index) for index in range(0x20, 0x7f)) + '\t'
    for quote_fields in (True, False):
        guarded(disposition_case, stats, 'inline', [('a', content)], quote_fields, stats)
    for character in CHARACTERS:
        guarded(disposition_case, stats, 'inline', [('a', character)], True, stats)
        if character != '*':
            # (would be an extended parameter)
            guarded(disposition_case, stats, 'inline', [('a' + character, 'b')], True, stats)
        guarded(disposition_case, stats, 'inline' + character, [], True, stats)


def guarded(function, stats, *parameters):
    try:
        function(*parameters)
    except Violation as violation:
        stats.violate(violation.key, violation.message, violation.artefact)


class HeaderValuesCheck(Check):
    id = 'C35'
    rule = 'a state is a distinct header value parsed, or a distinct content written into one'
    assumptions = ['an empty parameter at the very end of extensions, and a `Basic` authorization without a colon are left to the implementation']

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = [('lists', first, 6 if quick else 7) for first in LIST_ALPHABET]
        jobs.extend(('types', first + second, 5 if quick else 6) for first in TYPE_ALPHABET for second in ('', *TYPE_ALPHABET))
        jobs.extend(('type parameters', PARAMETER_PIECES[0] + second, 6 if quick else 7) for second in PARAMETER_PIECES[1:])
        jobs.extend(('keep alive', first, 3 if quick else 4) for first in KEEP_ALIVE_PIECES)
        jobs.extend(('disposition', first, 3 if quick else 4) for first in ('', *DISPOSITION_LETTERS))
        jobs.extend(('authorization', encoding) for encoding in AUTHORIZATION_ENCODINGS)
        jobs.extend([
            ('authorization parse', 4 if quick else 5), ('characters',), ('build',), ('type equality',), ('disposition names',),
        ])
        return jobs

    def run_job(self, job, stats, tier):
        kind, *parameters = job
        try:
            if kind == 'lists':
                lists_job(*parameters, stats)
            elif kind == 'types':
                content_types_job(*parameters, stats)
            elif kind == 'type parameters':
                content_type_parameters_job(*parameters, stats)
            elif kind == 'keep alive':
                keep_alive_job(*parameters, stats)
            elif kind == 'disposition':
                disposition_job(*parameters, stats)
            elif kind == 'authorization':
                authorization_job(*parameters, tier == 'quick', stats)
            elif kind == 'authorization parse':
                authorization_parse_job(*parameters, stats)
            elif kind == 'characters':
                characters_job(stats)
            elif kind == 'build':
                build_job(stats)
            elif kind == 'type equality':
                content_type_equality_job(stats)
            else:
                disposition_names_job(stats)
        except Violation as violation:
            stats.violate(violation.key, violation.message, violation.artefact)
        stats.sample(repr(job))


CHECK = HeaderValuesCheck()
