"""
C28: every text put into an url is exactly the text a standard parser finds there, and nothing else changes.
"""
import re
from itertools import product
from urllib.parse import unquote_to_bytes, urlsplit

from mc.base import Check, Violation
from mc.vloop import quiet_stderr


# everything an url may consist of
URL_CHARACTERS = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~:/?#[]@!$&'()*+,;=%")
ESCAPE_RP = re.compile('%(?![0-9a-fA-F]{2})')


def well_formed(value):
    return URL_CHARACTERS.issuperset(value) and ESCAPE_RP.search(value) is None


def standard_unquote(value, plus):
    """Undoes percent encoding; None if the result is not text."""
    if plus:
        value = value.replace('+', ' ')
    try:
        return unquote_to_bytes(value).decode('utf-8')
    except UnicodeDecodeError:
        return None


# --- quoting

QUOTE_LETTERS = ('a', '%', '+', ' ', '/', '\xe9', '\x00', '2', '&', '=', '"', '\U0001f600', '#')
ESCAPES = ('%41', '%c5', '%B1', '%FF', '%E2', '%82', '%AC', '%2F', '%25', '%2B', '%20', '+', 'a', '\xe9', '%', '%4', '%g1', '4')


def reference_unquote(value, query_string):
    """Every run of escapes is decoded as far as it is text, the rest stays as it is."""
    result = []

    def decode(match):
        run = match.group(0)
        data = unquote_to_bytes(run)
        decoded = []
        index = 0
        while index < len(data):
            for size in (1, 2, 3, 4):
                try:
                    character = data[index : index + size].decode('utf-8')
                except UnicodeDecodeError:
                    continue
                if len(character) == 1 and len(character.encode()) == size:
                    if query_string and character in '+&=':
                        character = '%' + format(ord(character), '02X')
                    decoded.append(character)
                    index += size
                    break
            else:
                decoded.append(run[3 * index : 3 * index + 3])
                index += 1
        return ''.join(decoded)

    parts = re.split('((?:%[0-9a-fA-F]{2})+)', value)
    for index, part in enumerate(parts):
        if index & 1:
            result.append(decode(re.fullmatch('.*', part)))
        else:
            result.append(part.replace('+', ' ') if query_string else part)
    return ''.join(result)


def quote_job(first, depth, stats):
    from scarletio.web_common.quoting import quote, unquote
    for length in range(depth):
        for rest in product(QUOTE_LETTERS, repeat = length):
            value = ''.join((first, *rest))
            stats.evaluations += 1
            stats.state(value)
            for query_string in (False, True):
                stats.transitions += 1
                try:
                    quoted = quote(value, query_string = query_string)
                    back = unquote(quoted)
                except Exception as exception:
                    raise Violation(f'quote:{value!r}', f'quoting {value!r} failed with {exception!r}')
                if not well_formed(quoted):
                    raise Violation(f'quote:{value!r}', f'{value!r} is quoted as {quoted!r}')
                if standard_unquote(quoted, query_string) != value:
                    raise Violation(f'quote:{value!r}', f'{value!r} is quoted as {quoted!r} (query string: {query_string}), that means {standard_unquote(quoted, query_string)!r}')
                if not query_string and back != value:
                    raise Violation(f'quote:{value!r}', f'{value!r} is quoted as {quoted!r}, unquoting that gives {back!r}')
            for safe in ('/', '%41'[:0] + ' '):
                quoted = quote(value, safe = safe)
                stats.transitions += 1
                for character in safe:
                    if quoted.count(character) != value.count(character):
                        raise Violation(f'quote:{value!r}', f'{value!r} is quoted as {quoted!r} although {safe!r} is safe')
                if standard_unquote(quoted, False) != value:
                    raise Violation(f'quote:{value!r}', f'{value!r} is quoted as {quoted!r} (safe: {safe!r})')
            stats.outcome(quoted)


def unquote_job(first, depth, stats):
    from scarletio.web_common.quoting import unquote
    for length in range(depth):
        for rest in product(ESCAPES, repeat = length):
            value = ''.join((first, *rest))
            if not stats.state(value):
                continue
            stats.evaluations += 1
            for query_string in (False, True):
                stats.transitions += 1
                wanted = reference_unquote(value, query_string)
                try:
                    seen = unquote(value, query_string = query_string)
                except Exception as exception:
                    raise Violation(f'unquote:{value!r}', f'unquoting {value!r} failed with {exception!r}')
                if seen != wanted:
                    raise Violation(f'unquote:{value!r}', f'{value!r} is unquoted (query string: {query_string}) as {seen!r}, it should be {wanted!r}')


# --- urls: a model

class Model:
    """The parts of an url, as texts."""
    __slots__ = ('scheme', 'user', 'password', 'host', 'port', 'path', 'query', 'fragment')

    def __init__(self, **parts):
        for name in self.__slots__:
            setattr(self, name, parts.get(name))
        if self.path is None:
            self.path = ()
        if self.query is None:
            self.query = {}

    def replace(self, **parts):
        new = Model(**{name: getattr(self, name) for name in self.__slots__})
        for name, value in parts.items():
            setattr(new, name, value)
        return new

    def __repr__(self):
        return '<' + ', '.join(f'{name} = {getattr(self, name)!r}' for name in self.__slots__ if getattr(self, name)) + '>'


def remove_dots(segments):
    """Rfc 3986 5.2.4 over the segments of an absolute path."""
    result = []
    for index, segment in enumerate(segments):
        last = index == len(segments) - 1
        if segment == '.':
            if last:
                result.append('')
        elif segment == '..':
            if result:
                result.pop()
            if last:
                result.append('')
        else:
            result.append(segment)
    return result


def comparable_path(segments):
    """Whether the path ends with a slash after dots were removed, and how many empty segments it starts with, is left to the implementation."""
    segments = list(segments)
    while segments and not segments[0]:
        del segments[0]
    return segments


def add_query(query, items):
    new = {key: list(values) for key, values in query.items()}
    for key, value in items:
        if not key and not value:
            continue
        values = new.setdefault(key, [])
        if value not in values:
            values.append(value)
    return new


def parse_standard(value):
    """The parts a standard parser finds."""
    split = urlsplit(value)
    authority = split.netloc
    user = password = port = None
    host = authority
    if '@' in authority:
        credentials, host = authority.rsplit('@', 1)
        user, separator, password = credentials.partition(':')
        user = standard_unquote(user, False)
        password = standard_unquote(password, False)
    match = re.fullmatch('(.*?)(?::([0-9]+))?', host)
    host, port = match.groups()
    if host.startswith('[') and not host.endswith(']'):
        host, port = match.group(0), None
    path = split.path
    segments = [standard_unquote(segment, False) for segment in path.split('/')[1:]] if path.startswith('/') else ([path] if path else [])
    query = {}
    for item in split.query.split('&'):
        if not item:
            continue
        key, separator, content = item.partition('=')
        query = add_query(query, [(standard_unquote(key, True), standard_unquote(content, True))])
    return Model(
        scheme = split.scheme or None, user = user or None, password = password or None, host = host or None,
        port = None if port is None else int(port), path = tuple(segments), query = query, fragment = standard_unquote(split.fragment, False) or None,
    )


def readable(name, value):
    """An attribute of an url in a form which can be compared."""
    if name == 'parts':
        return comparable_path(value or ())
    if name == 'host' and value and not value.isascii():
        return value.encode('idna').decode()
    return value or None


def check_url(url, model, key, exact_path = True):
    """The url is what the model is."""
    encoded = url.value_encoded

    def fail(message):
        raise Violation(key, f'{message} ({encoded!r} of {model!r})')

    if not well_formed(encoded):
        fail(f'the encoded url contains characters which have to be escaped')
    if url.value_encoded != encoded:
        fail(f'the encoded url changes')
    seen = parse_standard(encoded) if model.host is not None else parse_standard('http://x.yy' + encoded if encoded else 'http://x.yy/')
    wanted_scheme = model.scheme.lower() if model.scheme is not None else None
    if model.host is not None:
        if (seen.scheme or None) != wanted_scheme:
            fail(f'the scheme is {seen.scheme!r}')
        if seen.host is None or seen.host.casefold() != model.host.casefold():
            fail(f'the host is {seen.host!r}')
        if seen.port != model.port:
            fail(f'the port is {seen.port!r}')
        if seen.user != model.user or seen.password != model.password:
            fail(f'the user is {seen.user!r} with password {seen.password!r}')
    wanted_path = comparable_path(model.path)
    seen_path = comparable_path(seen.path)
    if not exact_path:
        while seen_path and not seen_path[-1]:
            del seen_path[-1]
        while wanted_path and not wanted_path[-1]:
            del wanted_path[-1]
    if seen_path != wanted_path:
        fail(f'the path is {seen.path!r}')
    if seen.query != model.query:
        fail(f'the query is {seen.query!r}')
    if seen.fragment != model.fragment:
        fail(f'the fragment is {seen.fragment!r}')
    # what the url tells about itself
    for name in ('user', 'password', 'fragment'):
        value = getattr(url, name)
        if (value or None) != getattr(model, name):
            fail(f'`.{name}` is {value!r}')
    if (url.scheme or '').casefold() != (model.scheme or '').casefold():
        fail(f'`.scheme` is {url.scheme!r}')
    if (url.host or '').casefold() != (model.host or '').casefold() and not any(ord(character) > 127 for character in url.host or ''):
        fail(f'`.host` is {url.host!r}')
    wanted_port = model.port
    if wanted_port is None and model.scheme is not None:
        wanted_port = {'http': 80, 'https': 443, 'ws': 80, 'wss': 443}.get(model.scheme.casefold())
    if url.port != wanted_port:
        fail(f'`.port` is {url.port!r}')
    if url.is_absolute() is not (model.host is not None):
        fail(f'`.is_absolute()` is {url.is_absolute()}')
    query = url.query
    plain = {} if query is None else {name: list(query.get_all(name)) for name in query.keys()}
    if plain != model.query:
        fail(f'`.query` is {plain!r}')
    parts = url.parts
    own_path = comparable_path(parts or ())
    if not exact_path:
        while own_path and not own_path[-1]:
            del own_path[-1]
    if own_path != wanted_path:
        fail(f'`.parts` is {parts!r}')
    if url.raw_path != (urlsplit(encoded).path if model.host is not None else re.match('[^?#]*', encoded).group(0)) and (url.raw_path, encoded[:1]) != ('/', ''):
        fail(f'`.raw_path` is {url.raw_path!r}')
    if url.name != (parts[-1] if parts else ''):
        fail(f'`.name` is {url.name!r}')
    # read back
    back = type(url)(encoded, True)
    if back != url or hash(back) != hash(url) or not (back == url) or back < url or back > url or not back <= url or not back >= url:
        fail(f'reading it back gives {back.value_encoded!r}')
    if back.value_encoded != encoded:
        fail(f'reading it back gives {back.value_encoded!r}')
    for name in ('user', 'password', 'fragment', 'query', 'parts', 'host', 'port', 'scheme'):
        if readable(name, getattr(back, name)) != readable(name, getattr(url, name)):
            fail(f'`.{name}` of the url read back is {getattr(back, name)!r} instead of {getattr(url, name)!r}')


# --- one part with any text

TEXT_LETTERS = ('a', '?', '#', '&', '=', '+', '%', ' ', '\xe9', ':', '@', ';', '.', '"', '\n', '\\', '[', '\x00', '%41', '\U0001f600', '/', "'", '*', '\x7f', '|')
BASES = (
    ('http://example.com', dict(scheme = 'http', host = 'example.com')),
    ('https://us:pw@sub.example.co.uk:8080/x/y?k=v#f', dict(scheme = 'https', user = 'us', password = 'pw', host = 'sub.example.co.uk', port = 8080, path = ('x', 'y'), query = {'k': ['v']}, fragment = 'f')),
    ('ws://localhost/x/', dict(scheme = 'ws', host = 'localhost', path = ('x', ''))),
    ('/x?k=v', dict(path = ('x',), query = {'k': ['v']})),
)
PLACES = ('fragment', 'user', 'password', 'query key', 'query value', 'query extension', 'query values', 'name', 'part')


def text_case(base_index, place, text, stats):
    from scarletio.web_common import URL
    value, parts = BASES[base_index]
    model = Model(**parts)
    key = f'text:{base_index}:{place}:{text!r}'
    stats.evaluations += 1
    stats.transitions += 1
    stats.state(key)
    url = URL(value)
    before = url.value_encoded
    if model.host is None and place in ('user', 'password'):
        return
    if place in ('name', 'part') and ('/' in text or text in ('.', '..')):
        return
    try:
        if place == 'fragment':
            new = url.with_fragment(text)
            wanted = model.replace(fragment = text or None)
        elif place == 'user':
            new = url.with_user(text)
            wanted = model.replace(user = text or None)
        elif place == 'password':
            new = url.with_password(text)
            wanted = model.replace(password = text or None)
        elif place == 'query key':
            new = url.with_query({text: 'z'})
            wanted = model.replace(query = add_query({}, [(text, 'z')]))
        elif place == 'query value':
            new = url.with_query({'z': text})
            wanted = model.replace(query = add_query({}, [('z', text)]))
        elif place == 'query values':
            new = url.with_query([('z', ['1', text, '2']), (text, True), ('n', None), ('i', 5)])
            wanted = model.replace(query = add_query({}, [('z', '1'), ('z', text), ('z', '2'), (text, 'true'), ('n', 'null'), ('i', '5')]))
        elif place == 'query extension':
            new = url.extend_query({text: text, 'k': 'w'})
            wanted = model.replace(query = add_query(model.query, [(text, text), ('k', 'w')]))
        elif place == 'name':
            new = url.with_name(text)
            wanted = model.replace(path = (*model.path[:-1], text))
        elif place == 'part':
            new = url / text
            segments = model.path
            if segments and not segments[-1]:
                segments = segments[:-1]
            wanted = model.replace(path = (*segments, text))
        check_url(new, wanted, key)
    except Violation:
        raise
    except Exception as exception:
        raise Violation(key, f'putting {text!r} into the {place} of {value!r} failed with {exception!r}')
    if url.value_encoded != before:
        raise Violation(key, f'putting {text!r} into the {place} of an url changed the original')
    check_url(url, model, key)
    stats.outcome(new.value_encoded)


def text_job(place, base_index, depth, stats):
    for length in range(depth + 1):
        for letters in product(TEXT_LETTERS, repeat = length):
            guarded(text_case, stats, base_index, place, ''.join(letters), stats)


# --- urls given as texts

SCHEMES = ('http', 'HTTPS', 'wss', 'ftp')
USERS = (('', None, None), ('u@', 'u', None), ('u:p@', 'u', 'p'), (':p@', None, 'p'), ('%40%3a%2F:%3a+%25@', '@:/', ':+%'))
HOSTS = (
    ('example.com', 'example.com'), ('EXAMPLE.com', 'EXAMPLE.com'), ('a-b.c.d.example.org', 'a-b.c.d.example.org'), ('localhost', 'localhost'),
    ('127.0.0.1', '127.0.0.1'), ('8.8.4.4', '8.8.4.4'), ('192.168.1.20', '192.168.1.20'), ('[::1]', '[::1]'), ('[2001:db8::ff]', '[2001:db8::ff]'),
    ('xn--bn-yka.hu', 'xn--bn-yka.hu'), ('example.com.', 'example.com.'),
)
PORTS = (('', None), (':80', 80), (':8080', 8080), (':5', 5), (':65535', 65535), (':443', 443))
PATHS = (
    ('', ()), ('/', ()), ('/a', ('a',)), ('/a/b/', ('a', 'b', '')), ('/a%20b/%C3%A9%2525', ('a b', '\xe9%25')), ('/a//b', ('a', '', 'b')), ('/a+b', ('a+b',)),
    ('/a%2Fb/c', ('a/b', 'c')), ("/;=&@:!$'()*,", (";=&@:!$'()*,",)), ('/%3F%23', ('?#',)), ('/a:b@c', ('a:b@c',)),
)
QUERIES = (
    ('', []), ('?', []), ('?a=b', [('a', 'b')]), ('?a=b&a=c&b=', [('a', 'b'), ('a', 'c'), ('b', '')]), ('?a', [('a', '')]), ('?a+b=c%2Bd%26%3D', [('a b', 'c+d&=')]),
    ('?%3D=%3d', [('=', '=')]), ('?a=b=c', [('a', 'b=c')]), ('?&&a=b&', [('a', 'b')]), ('?=b', [('', 'b')]), ('?a=/?:@', [('a', '/?:@')]), ('?a=%C3%A9%20', [('a', '\xe9 ')]),
)
FRAGMENTS = (('', None), ('#', None), ('#f', 'f'), ('#a%20b+%23?/', 'a b+#?/'), ('#%C3%A9', '\xe9'))


def encoded_case(scheme, user, host, port, path, query, fragment, stats):
    from scarletio.web_common import URL
    relative = scheme is None
    if relative:
        value = path[0] + query[0] + fragment[0]
        model = Model(path = path[1], query = add_query({}, query[1]), fragment = fragment[1])
    else:
        value = scheme + '://' + user[0] + host[0] + port[0] + path[0] + query[0] + fragment[0]
        model = Model(
            scheme = scheme, user = user[1], password = user[2], host = host[1], port = port[1], path = path[1], query = add_query({}, query[1]), fragment = fragment[1],
        )
    key = f'encoded:{value!r}'
    if not stats.state(value):
        return
    stats.evaluations += 1
    stats.transitions += 1
    try:
        url = URL(value, True)
    except Exception as exception:
        raise Violation(key, f'the url {value!r} is refused: {exception!r}')
    try:
        check_url(url, model, key)
        if not relative:
            origin = url.origin()
            check_url(origin, Model(scheme = scheme, host = host[1], port = port[1], fragment = origin.fragment), key)
            relative_url = url.relative()
            check_url(relative_url, Model(path = path[1], query = model.query, fragment = fragment[1]), key)
            for changed, wanted in (
                (url.with_scheme('ftp'), model.replace(scheme = 'ftp')),
                (url.with_host('other.example'), model.replace(host = 'other.example')),
                (url.with_port(7), model.replace(port = 7)),
                (url.with_port(None), model.replace(port = None)),
                (url.with_user(None), model.replace(user = None)) if False else (url.with_user('w'), model.replace(user = 'w')),
                (url.with_fragment(None), model.replace(fragment = None)),
                (url.with_query(None), model.replace(query = {})),
                (url.parent, model.replace(path = model.path[:-1], query = {})),
            ):
                stats.transitions += 1
                check_url(changed, wanted, key)
        check_url(url, model, key)
        # decoded is the same if there is nothing to escape
        if '%' not in value and '+' not in value:
            plain = URL(value)
            check_url(plain, model, key)
            if plain != url or hash(plain) != hash(url):
                raise Violation(key, f'{value!r} is not the same url if there is nothing to decode in it')
            again = URL(url.value_decoded)
            if again != url:
                raise Violation(key, f'the decoded form of {value!r} is {url.value_decoded!r}, which is an other url')
    except Violation:
        raise
    except Exception as exception:
        raise Violation(key, f'using the url {value!r} failed with {exception!r}')
    stats.outcome(url.value_encoded)


def encoded_job(scheme, host_index, stats):
    """Every combination of two parts with the others at their default."""
    if scheme is None:
        for path, query, fragment in product(PATHS[1:], QUERIES, FRAGMENTS):
            guarded(encoded_case, stats, None, None, None, None, path, query, fragment, stats)
        return
    host = HOSTS[host_index]
    pools = (USERS, PORTS, PATHS, QUERIES, FRAGMENTS)
    for first in range(len(pools)):
        for second in range(first + 1, len(pools)):
            for third in range(second + 1, len(pools)):
                for values in product(pools[first], pools[second], pools[third]):
                    chosen = [pool[0] for pool in pools]
                    chosen[first], chosen[second], chosen[third] = values
                    user, port, path, query, fragment = chosen
                    guarded(encoded_case, stats, scheme, user, host, port, path, query, fragment, stats)


# --- dots

SEGMENTS = ('a', 'b', '.', '..', '', '%2E', '..a')


def dots_job(first, depth, stats):
    from scarletio.web_common import URL
    for length in range(depth):
        for rest in product(SEGMENTS, repeat = length):
            segments = (first, *rest)
            decoded = [segment.replace('%2E', '.') for segment in segments]
            value = 'http://example.com/' + '/'.join(segments)
            key = f'dots:{value}'
            stats.evaluations += 1
            stats.transitions += 1
            stats.state(key)
            wanted = Model(scheme = 'http', host = 'example.com', path = tuple(remove_dots(comparable_path(decoded) if '..' not in decoded else decoded)))
            if '' in decoded[:-1] and '..' in decoded:
                # leading empty segments might be dropped before
                alternative = Model(scheme = 'http', host = 'example.com', path = tuple(remove_dots(comparable_path(decoded))))
            else:
                alternative = wanted
            try:
                url = URL(value, True)
                try:
                    check_url(url, wanted, key, False)
                except Violation:
                    if alternative is wanted:
                        raise
                    check_url(url, alternative, key, False)
                if length < 3:
                    # the same step by step
                    joined = URL('http://example.com/')
                    for segment in decoded:
                        if not segment:
                            break
                        joined = joined / segment
                    else:
                        check_url(joined, wanted, key, False)
            except Violation:
                raise
            except Exception as exception:
                raise Violation(key, f'the url {value!r} failed with {exception!r}')
            if '..' in url.parts if url.parts else False:
                raise Violation(key, f'the path of {value!r} still has `..`')
            stats.outcome(url.value_encoded)


# --- sequences of operations

OPERATIONS = (
    ('with_scheme', 'https'), ('with_host', 'other.example'), ('with_port', 81), ('with_port', None), ('with_user', 'a:b'), ('with_user', ''), ('with_password', 'c@d'),
    ('with_password', ''), ('with_fragment', 'x y#'), ('with_fragment', None), ('with_query', {'q': '&'}), ('with_query', None), ('extend_query', [('q', '='), ('r', '+')]),
    ('with_name', 'n?'), ('/', 's#'), ('/', '..'), ('parent', None), ('relative', None), ('origin', None), ('join', '/j/k?l=m'),
)


def apply_operation(url, model, operation):
    """Returns the new url and model, or None if it is refused, as it should be."""
    from scarletio.web_common import URL
    name, value = operation
    relative = model.host is None
    if name in ('with_scheme', 'with_host', 'with_port', 'with_user', 'with_password', 'relative', 'origin') and relative:
        try:
            getattr(url, name)(*(() if name in ('relative', 'origin') else (value,)))
        except ValueError:
            return None
        raise Violation('', f'{name} is possible on a relative url')
    if name == 'with_scheme':
        return url.with_scheme(value), model.replace(scheme = value)
    if name == 'with_host':
        return url.with_host(value), model.replace(host = value)
    if name == 'with_port':
        return url.with_port(value), model.replace(port = value)
    if name == 'with_user':
        return url.with_user(value), model.replace(user = value or None)
    if name == 'with_password':
        return url.with_password(value), model.replace(password = value or None)
    if name == 'with_fragment':
        return url.with_fragment(value), model.replace(fragment = value)
    if name == 'with_query':
        return url.with_query(value), model.replace(query = add_query({}, [] if value is None else value.items()))
    if name == 'extend_query':
        return url.extend_query(value), model.replace(query = add_query(model.query, value))
    if name == 'with_name':
        return url.with_name(value), model.replace(path = (*model.path[:-1], value))
    if name == '/':
        segments = model.path
        if segments and not segments[-1]:
            segments = segments[:-1]
        segments = (*segments[:-1],) if value == '..' else (*segments, value)
        return url / value, model.replace(path = segments)
    if name == 'parent':
        return url.parent, model.replace(path = model.path[:-1], query = {})
    if name == 'relative':
        return url.relative(), Model(path = model.path, query = model.query, fragment = model.fragment)
    if name == 'origin':
        new = url.origin()
        # (whether a fragment belongs to an origin is not decided here)
        return new, Model(scheme = model.scheme, host = model.host, port = model.port, fragment = new.fragment)
    if name == 'join':
        segments = model.path
        if segments and not segments[-1]:
            segments = None
        if segments is None:
            return None
        return url.join(URL(value)), model.replace(path = (*segments, 'j', 'k'), query = {'l': ['m']}, fragment = None)


def operations_job(base_index, first, depth, stats):
    for rest in product(OPERATIONS, repeat = depth - 1):
        for read in (False, True):
            guarded(operations_case, stats, base_index, (OPERATIONS[first], *rest), read, stats)


def operations_case(base_index, operations, read, stats):
    from scarletio.web_common import URL
    value, parts = BASES[base_index]
    key = f'operations:{value}:{operations!r}:{read}'
    stats.evaluations += 1
    stats.state(key)
    history = [(URL(value), Model(**parts))]
    try:
        for operation in operations:
            stats.transitions += 1
            url, model = history[-1]
            if read:
                # fills the caches
                check_url(url, model, key, False)
            result = apply_operation(url, model, operation)
            if result is not None:
                history.append(result)
        for url, model in reversed(history):
            check_url(url, model, key, False)
    except Violation as violation:
        raise Violation(key, violation.message)
    except Exception as exception:
        raise Violation(key, f'{operations!r} on {value!r} failed with {exception!r}')
    stats.outcome(history[-1][0].value_encoded)


def guarded(function, stats, *parameters):
    try:
        function(*parameters)
    except Violation as violation:
        stats.violate(violation.key, violation.message, violation.artefact)


class URLCheck(Check):
    id = 'C28'
    rule = 'a state is a distinct url (or text) built or read, or a distinct sequence of operations'
    assumptions = [
        'hosts which the library recognizes as such (with a top level domain, localhost or an ip address)',
        'whether a path ends with a slash after `..` is removed from its end, and leading empty segments are kept, is left to the implementation',
        'the same value of the same query key is kept once, and keys may be reordered',
    ]

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = [('quote', first, 4 if quick else 5) for first in QUOTE_LETTERS]
        jobs.extend(('unquote', first, 4 if quick else 5) for first in ESCAPES)
        jobs.extend(('text', place, base, 2 if quick or base not in (0, 1) else 3) for place in PLACES for base in range(len(BASES)))
        jobs.extend(('encoded', scheme, host) for scheme in SCHEMES[: 2 if quick else None] for host in range(len(HOSTS)))
        jobs.append(('encoded', None, None))
        jobs.extend(('dots', first, 5 if quick else 6) for first in SEGMENTS)
        jobs.extend(('operations', base, first, 3 if quick else 4) for base in range(len(BASES)) for first in range(len(OPERATIONS)))
        return jobs

    def run_job(self, job, stats, tier):
        kind, *parameters = job
        function = {
            'quote': quote_job, 'unquote': unquote_job, 'text': text_job, 'encoded': encoded_job, 'dots': dots_job, 'operations': operations_job,
        }[kind]
        guarded(function, stats, *parameters, stats)
        stats.sample(repr(job))


CHECK = URLCheck()
