"""
C29: a cookie is sent with exactly those requests it was set for.

Explicit state model of RFC 6265 (5.1 - 5.4), explored side by side with the real jar: every single `Set-Cookie` of the tables, and every sequence of operations over reduced alphabets up to a depth; after every
operation the jar answers for every request url of the table.
"""
import calendar
from itertools import product
from urllib.parse import urlsplit

from mc.base import CLOCK, WALL, Check, Violation

EPOCH = 1_700_000_000.25

SET_URLS = {
    'root': 'http://example.com/', 'page': 'http://example.com/docs/page', 'deep': 'https://example.com/docs/web/', 'sub': 'http://a.example.com/docs/page', 'upper': 'http://A.Example.COM/docs/page',
    'other': 'http://other.org/', 'suffix': 'http://badexample.com/', 'ip': 'http://10.0.0.1/', 'ip6': 'http://[::1]:8080/', 'none': None, 'bare': 'http://example.com', 'special': 'http://example.com/d%C3%B6cs/page',
}
DOMAINS = ('', 'example.com', '.example.com', 'a.example.com', 'Example.Com', 'other.org', 'com', 'example.com.', '10.0.0.1', '0.0.1', 'xample.com', 'deep.a.example.com')
PATHS = ('', '/', '/docs', '/docs/', '/docs/page', '/doc', 'docs', '/other', '/d%C3%B6cs')
GET_URLS = (
    'http://example.com/', 'https://example.com/', 'http://example.com', 'http://example.com/docs', 'http://example.com/docs/', 'http://example.com/docs/page', 'http://example.com/docs/page/sub', 'http://example.com/docs2',
    'https://example.com/docs/web/x', 'wss://example.com/docs/web/x', 'http://a.example.com/docs/page', 'http://b.example.com/', 'http://deep.a.example.com/docs', 'http://A.EXAMPLE.com/docs', 'http://other.org/',
    'http://badexample.com/', 'http://10.0.0.1/', 'http://10.0.0.2/', 'http://[::1]/', 'http://example.com:8080/docs', 'http://example.com/d%C3%B6cs/x', 'http://xample.com/',
    'http://example.com/docs?x=/y',
)


def date(seconds, style = 0):
    import time
    moment = time.gmtime(WALL.now + seconds)
    days = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday')
    months = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')
    return date_text(moment.tm_year, moment.tm_mon, moment.tm_mday, moment.tm_hour, moment.tm_min, moment.tm_sec, style, days[moment.tm_wday], months[moment.tm_mon - 1])


def date_text(year, month, day, hour, minute, second, style, weekday = 'Monday', month_name = None):
    months = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')
    month_name = months[month - 1]
    clock = f'{hour:02}:{minute:02}:{second:02}'
    if style == 0:
        return f'{weekday[:3]}, {day:02} {month_name} {year:04} {clock} GMT'
    if style == 1:
        return f'{weekday[:3]}, {day:02}-{month_name}-{year:04} {clock} GMT'
    if style == 2:
        return f'{weekday}, {day:02}-{month_name}-{year % 100:02} {clock} GMT'
    if style == 3:
        return f'{weekday[:3]} {month_name} {day:2} {clock} {year:04}'
    raise RuntimeError


# name -> (attributes, seconds to live (`None` when it has no end))
LIVES = {
    'session': ('', None),
    'short': ('; Max-Age=5', 5),
    'long': ('; Max-Age=20', 20),
    'age': ('; Max-Age=10', 10),
    'zero': ('; Max-Age=0', -1),
    'negative': ('; Max-Age=-5', -1),
    'garbage': ('; Max-Age=soon', None),
    'huge': ('; Max-Age=' + '9' * 400, None),
    'future': (lambda: f'; Expires={date(10)}', 9.75),
    'past': (lambda: f'; Expires={date(-10)}', -1),
    'long-ago': ('; Expires=Thu, 01 Jan 1970 00:00:00 GMT', -1),
    'far': ('; Expires=Fri, 31 Dec 9999 23:59:59 GMT', None),
    'impossible': ('; Expires=Fri, 31 Feb 2022 00:00:00 GMT', None),
    'nonsense': ('; Expires=Mon, 99 Foo 20 99:99:99 GMT', None),
    'both': (lambda: f'; Max-Age=10; Expires={date(-10)}', 10),
    'both-gone': (lambda: f'; Expires={date(10)}; Max-Age=0', -1),
    'garbage-past': (lambda: f'; Max-Age=soon; Expires={date(-10)}', -1),
}
ADVANCES = (6.0, 60.0)


def canonical_host(url):
    host = urlsplit(url).hostname
    return host


def is_ip(host):
    if ':' in host:
        return True
    pieces = host.split('.')
    return len(pieces) == 4 and all(piece.isdigit() for piece in pieces)


class Model:
    """RFC 6265 user agent; sends one cookie of a name only: (one of) those with the longest path."""
    def __init__(self, unsafe):
        self.unsafe = unsafe
        self.cookies = {}

    def expire(self):
        for key, cookie in list(self.cookies.items()):
            if cookie['ends'] is not None and cookie['ends'] < WALL.now:
                del self.cookies[key]

    def set(self, url, name, value, domain, path, life, secure):
        host = None if url is None else canonical_host(url)
        if host is not None and is_ip(host) and not self.unsafe:
            return
        domain = domain.lower()
        if domain.endswith('.'):
            domain = ''
        if domain.startswith('.'):
            domain = domain[1:]
        host_only = False
        if domain:
            if host is not None and not self.domain_matches(host, domain):
                return
        elif host is not None:
            host_only = True
            domain = host
        if not path.startswith('/'):
            path = '/' if url is None else urlsplit(url).path
            if path.count('/') <= 1:
                path = '/'
            else:
                path = path[:path.rfind('/')]
        seconds = LIVES[life][1]
        self.cookies[domain, path, name] = {'value': value, 'host_only': host_only, 'secure': secure, 'ends': None if seconds is None else WALL.now + seconds}
        self.expire()

    @staticmethod
    def domain_matches(host, domain):
        if host == domain:
            return True
        return host.endswith('.' + domain) and not is_ip(host)

    @staticmethod
    def path_matches(request, path):
        if request == path:
            return True
        return request.startswith(path) and (path.endswith('/') or request[len(path)] == '/')

    def get(self, url):
        """name -> set of the acceptable values"""
        self.expire()
        parts = urlsplit(url)
        host = parts.hostname
        request = parts.path or '/'
        found = {}
        for (domain, path, name), cookie in self.cookies.items():
            if domain:
                if is_ip(host) and not self.unsafe:
                    continue
                if (host != domain) if cookie['host_only'] else not self.domain_matches(host, domain):
                    continue
                if not self.path_matches(request, path):
                    continue
                if cookie['secure'] and parts.scheme not in ('https', 'wss'):
                    continue
                rank = len(path)
            else:
                # set by the program without telling for where
                rank = None
            found.setdefault(name, []).append((rank, cookie['value']))
        result = {}
        for name, pairs in found.items():
            best = max((rank for rank, value in pairs if rank is not None), default = None)
            result[name] = {value for rank, value in pairs if rank is None or rank == best}
        return result

    def snapshot(self):
        now = WALL.now
        return sorted((key, cookie['value'], cookie['host_only'], cookie['secure'], None if cookie['ends'] is None else cookie['ends'] - now) for key, cookie in self.cookies.items())


class Run:
    def __init__(self, unsafe):
        from scarletio.web_common import CookieJar
        self.jar = CookieJar(unsafe) if unsafe else CookieJar()
        self.model = Model(unsafe)
        self.history = [('unsafe', unsafe)]

    def fail(self, message):
        raise Violation(message[:50], f'{self.history}: {message}', [list(item) for item in self.history])

    def urls(self, encoded):
        from scarletio.web_common import URL
        return URL(encoded, True)

    def apply(self, operation):
        from http.cookies import SimpleCookie
        self.history.append(operation)
        kind = operation[0]
        if kind == 'set':
            _, place, name, value, domain, path, life, secure = operation
            url = SET_URLS[place]
            text = f'{name}={value}'
            if domain:
                text += f'; Domain={domain}'
            if path:
                text += f'; Path={path}'
            attributes = LIVES[life][0]
            text += attributes if isinstance(attributes, str) else attributes()
            if secure:
                text += '; Secure'
            cookies = SimpleCookie()
            cookies.load(text)
            if name not in cookies:
                raise RuntimeError(text)
            if url is None:
                self.jar.update_cookies(cookies)
            else:
                self.jar.update_cookies(cookies, self.urls(url))
            self.model.set(url, name, value, domain, path, life, secure)
        elif kind == 'plain':
            _, name, value = operation
            self.jar.update_cookies({name: value})
            self.model.set(None, name, value, '', '/', 'session', False)
        elif kind == 'advance':
            WALL.now += operation[1]
            CLOCK.now += operation[1]
            self.model.expire()
        elif kind == 'pickle':
            import pickle
            self.jar = pickle.loads(pickle.dumps(self.jar))
        elif kind == 'clear':
            self.jar.clear()
            self.model.cookies.clear()
        else:
            raise RuntimeError

    def observe(self, stats, urls = GET_URLS):
        sent = 0
        for url in urls:
            result = self.jar.filter_cookies(self.urls(url))
            stats.transitions += 1
            expected = self.model.get(url)
            got = {name: morsel.value for name, morsel in result.items()}
            for name in {*got, *expected}:
                if name not in got:
                    self.fail(f'cookie not sent where it belongs: {name} to {url}')
                if name not in expected:
                    self.fail(f'cookie sent where it does not belong: {name}={got[name]} to {url}')
                if got[name] not in expected[name]:
                    self.fail(f'cookie sent with an other value: {name}={got[name]} to {url}; expected: {expected[name]}')
            for name, morsel in result.items():
                text = morsel.OutputString()
                if text != f'{name}={got[name]}':
                    self.fail(f'cookie sent with attributes: {text}')
            sent += len(got)
        if len(self.jar) != len(self.model.cookies):
            self.fail(f'length of the jar: {len(self.jar)}; expected: {len(self.model.cookies)}')
        listed = sorted((cookie.key, cookie.value) for cookie in self.jar)
        if listed != sorted((name, cookie['value']) for (domain, path, name), cookie in self.model.cookies.items()):
            self.fail(f'cookies of the jar: {listed}')
        return sent

    def done(self, stats, sent):
        stats.evaluations += 1
        if sent:
            stats.nontrivial += 1
        stats.state(repr(self.model.snapshot()))
        stats.outcome(f'kept {len(self.model.cookies)}')


def reset_clock():
    CLOCK.active = True
    WALL.active = True
    CLOCK.now = 1000.0
    WALL.now = EPOCH


def run_sequence(unsafe, operations, stats, every = False):
    reset_clock()
    run = Run(unsafe)
    sent = 0
    for operation in operations:
        run.apply(operation)
        if every:
            sent += run.observe(stats)
    if not every:
        sent = run.observe(stats)
    run.done(stats, sent)
    return run


# reduced alphabets of the sequences

def alphabet(name):
    if name == 'expiry':
        return [
            ('set', 'root', 'n', 'v1', '', '/', 'session', False), ('set', 'root', 'n', 'v2', '', '/', 'age', False), ('set', 'root', 'n', 'v3', '', '/', 'zero', False), ('set', 'root', 'n', 'v4', '', '/', 'future', False),
            ('set', 'root', 'm', 'v5', '', '/', 'age', False), ('set', 'root', 'n', 'v6', '', '/docs', 'age', False), ('set', 'root', 'n', 'v7', '', '/docs', 'past', False),
            ('advance', 6.0), ('pickle',), ('clear',),
        ]
    if name == 'ages':
        return [
            *(('set', 'root', cookie, 'v', '', '/', life, False) for cookie, lives in (('a', ('age', 'short', 'session')), ('b', ('long', 'age')), ('c', ('short',))) for life in lives),
            ('advance', 6.0),
        ]
    if name == 'domains':
        return [
            ('set', 'root', 'n', 'v1', '', '/', 'session', False), ('set', 'root', 'n', 'v2', 'example.com', '/', 'session', False), ('set', 'sub', 'n', 'v3', '', '/', 'session', False),
            ('set', 'sub', 'n', 'v4', 'example.com', '/', 'zero', False), ('set', 'sub', 'n', 'v5', 'example.com', '/', 'session', True), ('set', 'other', 'n', 'v6', 'example.com', '/', 'session', False),
            ('set', 'root', 'n', 'v8', '', '/', 'age', False), ('set', 'none', 'n', 'v9', '', '/', 'session', False), ('advance', 60.0), ('pickle',),
        ]
    if name == 'paths':
        return [
            ('set', 'root', 'n', 'v1', '', '/', 'session', False), ('set', 'root', 'n', 'v2', '', '/docs', 'session', False), ('set', 'page', 'n', 'v3', '', '', 'session', False), ('set', 'page', 'n', 'v4', '', '/docs/', 'session', False),
            ('set', 'root', 'n', 'v5', '', '/docs', 'past', False), ('set', 'root', 'n', 'v6', '', '/docs/page', 'age', True), ('set', 'deep', 'n', 'v7', 'example.com', '', 'session', False), ('plain', 'm', 'v8'), ('advance', 60.0), ('pickle',),
        ]
    if name == 'unsafe':
        return [
            ('set', 'ip', 'n', 'v1', '', '/', 'session', False), ('set', 'ip6', 'n', 'v2', '', '/', 'age', False), ('set', 'ip', 'n', 'v3', '10.0.0.1', '/', 'session', False), ('set', 'ip', 'n', 'v4', '0.0.1', '/', 'session', False),
            ('set', 'root', 'n', 'v5', '', '/', 'session', False), ('plain', 'n', 'v6'), ('advance', 60.0), ('pickle',), ('clear',),
        ]
    raise RuntimeError


def dates(stats, years):
    """Every day of the years in every style, and days which do not exist."""
    from scarletio.web_common import URL
    from http.cookies import SimpleCookie
    from scarletio.web_common import CookieJar
    reset_clock()
    url = URL('http://example.com/')
    for year in years:
        for month in range(1, 13):
            for day in range(0, 33):
                exists = 1 <= day <= calendar.monthrange(year, month)[1]
                for style in (0, 1, 2, 3):
                    if style == 2 and not 1970 <= year <= 2069:
                        continue
                    for hour, minute, second in ((0, 0, 0), (23, 59, 59), (24, 0, 0), (9, 60, 0), (12, 30, 60)):
                        valid = exists and hour < 24 and minute < 60 and second < 60
                        text = date_text(year, month, day, hour, minute, second, style)
                        artefact = ['date', text]
                        if valid:
                            moment = calendar.timegm((year, month, day, hour, minute, second))
                            probes = ((moment - 0.5, True), (moment + 0.5, False))
                        else:
                            # an invalid date is ignored, so the cookie lasts for the session
                            probes = ((EPOCH, True), (EPOCH + 4e9, True))
                        for now, alive in probes:
                            WALL.now = now
                            jar = CookieJar()
                            cookies = SimpleCookie()
                            cookies['n'] = 'v'
                            cookies['n']['expires'] = text
                            jar.update_cookies(cookies, url)
                            got = 'n' in jar.filter_cookies(url)
                            stats.evaluations += 1
                            stats.nontrivial += 1
                            if got != alive:
                                raise Violation('expiration date', f'cookie with Expires={text!r} {"gone" if alive else "sent"} at {now - EPOCH:+}', artefact)
                stats.state((year, month, day))
    stats.outcome('dates')


class CookieCheck(Check):
    id = 'C29'
    rule = 'at least one cookie is sent to at least one of the request urls'
    job_timeout = {'quick': 300.0, 'thorough': 2700.0}
    assumptions = [
        'the wall clock is virtual (`time.time` is replaced before the code under test is imported) and never goes backwards',
        '`http.cookies.SimpleCookie` parses the `Set-Cookie` headers as documented; of two cookies of a response with the same name only the last is seen',
        'no public suffix list is used (as RFC 6265 allows it): a cookie may be set for `com`',
    ]

    def jobs(self, tier):
        jobs = [('single', place, unsafe) for place in SET_URLS for unsafe in (False, True)]
        jobs += [('dates', year) for year in ((1969, 1970, 1999, 2000, 2001, 2024, 2038, 2069, 2100) if tier == 'quick' else range(1930, 2110))]
        for name in ('expiry', 'domains', 'paths', 'unsafe'):
            for unsafe in ((False, True) if name == 'unsafe' else (False,)):
                for first in range(len(alphabet(name))):
                    jobs.append(('sequence', name, unsafe, first, 4 if tier == 'quick' else 5))
        # more of what ends at different times
        for first in range(len(alphabet('ages'))):
            jobs.append(('sequence', 'ages', False, first, 5 if tier == 'quick' else 6))
        return jobs

    def run_job(self, job, stats, tier):
        if job[0] == 'single':
            _, place, unsafe = job
            for domain, path, life, secure in product(DOMAINS, PATHS, LIVES, (False, True)):
                if secure and (life not in ('session', 'age') or place == 'none'):
                    continue
                if tier == 'quick' and life not in ('session', 'age') and (DOMAINS.index(domain) + PATHS.index(path)) % 4:
                    continue
                operation = ('set', place, 'n', 'v', domain, path, life, secure)
                run = run_sequence(unsafe, [operation], stats)
                if life in ('session', 'garbage', 'impossible') and path != '/':
                    continue
                for seconds in ADVANCES:
                    run.apply(('advance', seconds))
                    run.done(stats, run.observe(stats))
        elif job[0] == 'dates':
            dates(stats, [job[1]])
        else:
            _, name, unsafe, first, depth = job
            letters = alphabet(name)
            for length in range(1, depth):
                if length < depth - 1:
                    continue
                for rest in product(range(len(letters)), repeat = length):
                    run_sequence(unsafe, [letters[first], *(letters[index] for index in rest)], stats, every = False)
            # shorter ones are prefixes; they are observed on their own, so what an observation changes does not hide anything
            for length in range(0, depth - 1):
                for rest in product(range(len(letters)), repeat = length):
                    run_sequence(unsafe, [letters[first], *(letters[index] for index in rest)], stats, every = True)

    def replay(self, job, artefact, stats):
        if artefact[0] == 'date':
            dates(stats, [job[1]])
            return
        operations = [tuple(item) for item in artefact]
        unsafe = operations[0][1]
        run_sequence(unsafe, operations[1:], stats, every = False)
        run_sequence(unsafe, operations[1:], stats, every = True)


CHECK = CookieCheck()
