"""
C23: name resolution: addresses, names and messages mean the same when read and when written, nothing received can break the reading, and resolving
gives exactly what the first answering name server told.
"""
import ipaddress, re
from itertools import product

from mc.base import CLOCK, Check, Hang, Violation
from mc.vloop import quiet_stderr
from mc.wire import Sequences, outcome_of, run_cases, run_one

V4 = 2      # AF_INET
V6 = 10     # AF_INET6
A, CNAME, PTR, TXT, AAAA = 1, 5, 12, 16, 28


class Refused(Exception):
    pass


# --- ip strings

def reference_ip_v4(string):
    try:
        return int(ipaddress.IPv4Address(string))
    except ValueError:
        return None


def reference_ip_v6(string):
    """value, index of the percentage sign"""
    index = string.find('%')
    try:
        return int(ipaddress.IPv6Address(string if index == -1 else string[:index])), index
    except ValueError:
        return None, index


def judge_ip(string, stats):
    from scarletio.dns_query import helpers
    stats.evaluations += 1
    expected = reference_ip_v4(string)
    matched, value = helpers.parse_ip_v4_string(string)
    if matched != (expected is not None) or (matched and value != expected):
        raise Violation(f'ip v4 {string!r}', f'{string!r} as an ip v4 address: {(matched, value)!r}, it is {expected!r}')
    expected_v6, index = reference_ip_v6(string)
    matched, value, percentage_index = helpers.parse_ip_v6_string(string)
    if matched != (expected_v6 is not None) or (matched and (value, percentage_index) != (expected_v6, index)):
        raise Violation(f'ip v6 {string!r}', f'{string!r} as an ip v6 address: {(matched, value, percentage_index)!r}, it is {(expected_v6, index)!r}')
    ip_type, value = helpers.parse_ip_string(string)
    wanted = (1, expected) if expected is not None else (2, expected_v6) if expected_v6 is not None else (0, None)
    if ip_type != wanted[0] or (ip_type and value != wanted[1]):
        raise Violation(f'ip {string!r}', f'{string!r} as an ip address: {(ip_type, value)!r}, it is {wanted!r}')
    if wanted[0]:
        stats.nontrivial += 1
    stats.outcome(f'ip {wanted[0]}')


OCTETS = ('0', '1', '9', '10', '99', '100', '199', '200', '249', '250', '255', '256', '260', '300', '00', '01', '010', '', '١', ' 1', '1 ', '-1', '+1', 'a', '1\n')
GROUPS = ('0', '1', 'fFfF', '12ab', '', '12345', 'g', '-1', '1.2.3.4')
SUFFIXES = ('', '%', '%eth0', '%1', '%%', ' ')


def ip_v4_job(first, stats):
    for rest in product(OCTETS, repeat = 3):
        judge_ip('.'.join((first, *rest)), stats)
    for count in (0, 1, 2, 4):
        judge_ip('.'.join((first, *(('1',) * count))), stats)
        judge_ip('.'.join((first, *(('1',) * count))) + '.', stats)
        judge_ip('.' + '.'.join((first, *(('1',) * count))), stats)
        for suffix in SUFFIXES:
            judge_ip('.'.join((first, *(('1',) * count))) + suffix, stats)
    for value in range(0, 1100):
        octets = ['1', '2', '3', '4']
        octets[OCTETS.index(first) % 4] = str(value)
        judge_ip('.'.join(octets), stats)
    stats.state(first)


def ip_v6_job(first, depth, stats):
    for count in range(0, depth):
        for rest in product(GROUPS, repeat = count):
            string = ':'.join((first, *rest))
            judge_ip(string, stats)
            if count <= 2:
                for suffix in SUFFIXES:
                    judge_ip(string + suffix, stats)
                for prefix in ('[', ' ', '%', ':'):
                    judge_ip(prefix + string, stats)
    for count in range(depth + 1, 11):
        for bits in product((True, False), repeat = count):
            groups = ['1' if bit else '' for bit in bits]
            for index in range(count):
                original = groups[index]
                groups[index] = first
                judge_ip(':'.join(groups), stats)
                groups[index] = original
    for suffix in SUFFIXES:
        for base in ('::', '1::', '::1', '1::1', '1:2:3:4:5:6:7:8', '::1.2.3.4', '1:2:3:4:5:6:1.2.3.4', '1:2:3:4:5:1.2.3.4', '1:2:3:4:5:6:7:1.2.3.4', ':1.2.3.4'):
            judge_ip(base + suffix, stats)
            judge_ip(base + suffix + first, stats)
    stats.state(first)


def ip_produce_job(value, stats):
    from scarletio.dns_query import helpers
    for bits in range(256):
        total = 0
        for index in range(8):
            total = (total << 16) | (value if (bits >> index) & 1 else 0)
        stats.evaluations += 1
        for ip_type, number, reference in ((2, total, ipaddress.IPv6Address), (1, total & 0xffffffff, ipaddress.IPv4Address)):
            string = ''.join([*helpers.produce_ip_string(ip_type, number)])
            try:
                read = int(reference(string))
            except ValueError:
                read = None
            if read != number:
                raise Violation(f'produce {number:x}', f'the address {number:x} is written as {string!r}, which is {read!r}')
            if helpers.parse_ip_string(string) != (ip_type, number):
                raise Violation(f'produce {number:x}', f'the address {number:x} is written as {string!r}, which is read as {helpers.parse_ip_string(string)!r}')
            labels = helpers.parse_reversed_labels_from_address(string)
            wanted = tuple(part.encode() for part in reference(number).reverse_pointer.split('.'))
            if labels != wanted:
                raise Violation(f'reversed {string!r}', f'the reversed labels of {string!r} are {labels!r}, expected {wanted!r}')
        stats.nontrivial += 1
        stats.state(str(total))


# --- names

def reference_labels(name):
    """What a name in its text form means; raises `Refused`."""
    if name in ('', '.', '@', '@.'):
        return None
    labels = []
    current = []
    position = 0
    ended = False
    while position < len(name):
        character = name[position]
        position += 1
        if character == '.':
            labels.append(current)
            current = []
            continue
        if character != '\\':
            current.append((character, False))
            continue
        if position == len(name):
            raise Refused()
        character = name[position]
        if character not in '0123456789':
            position += 1
            current.append((character, False))
            continue
        digits = name[position : position + 3]
        if len(digits) != 3 or any(digit not in '0123456789' for digit in digits) or int(digits) > 255:
            raise Refused()
        position += 3
        current.append((chr(int(digits)), True))
    if current:
        labels.append(current)
    result = []
    for label in labels:
        if not label:
            raise Refused()
        text = ''.join(character for character, escaped in label)
        if any(not escaped and character > '\x7f' for character, escaped in label):
            try:
                encoded = text.encode('idna')
            except UnicodeError:
                raise Refused() from None
        else:
            encoded = text.encode('latin-1')
        if len(encoded) > 63:
            raise Refused()
        result.append(encoded)
    return tuple(result)


NAME_LETTERS = ('a', '.', '\\', '@', '0', '2', '5', '9', '\xe9', '\u0171', ' ')


def judge_name(name, stats):
    from scarletio.dns_query import helpers
    stats.evaluations += 1
    try:
        expected = reference_labels(name)
    except Refused:
        expected = Refused
    try:
        labels = helpers.parse_labels_from_name(name)
    except ValueError:
        labels = Refused
    if labels != expected:
        raise Violation(f'name {name!r}', f'the labels of {name!r} are {labels!r}, expected {expected!r}')
    if labels is not Refused:
        stats.nontrivial += 1
        judge_labels(labels, stats)
    stats.outcome('refused' if labels is Refused else 'none' if labels is None else 'labels')


def same_labels(first, second):
    if first is None or second is None:
        return first is second
    return len(first) == len(second) and all(
        one == other or (one[:4].lower() == b'xn--' and one.lower() == other.lower()) for one, other in zip(first, second)
    )


def judge_labels(labels, stats):
    """The name built from labels means the labels."""
    from scarletio.dns_query import helpers
    stats.evaluations += 1
    try:
        name = helpers.build_name_from_labels(labels)
    except Exception as exception:
        raise Violation(f'labels {labels!r}', f'no name can be built from the labels {labels!r}: {exception!r}') from None
    try:
        again = helpers.parse_labels_from_name(name)
    except ValueError as exception:
        raise Violation(f'labels {labels!r}', f'the name {name!r} built from the labels {labels!r} can not be read: {exception!r}') from None
    if not same_labels(again, labels):
        raise Violation(f'labels {labels!r}', f'the name {name!r} built from the labels {labels!r} means {again!r}')
    try:
        wanted = reference_labels(name)
    except Refused:
        wanted = Refused
    if wanted is Refused or not same_labels(wanted, labels):
        raise Violation(f'labels {labels!r}', f'the name {name!r} built from the labels {labels!r} means {wanted!r} to others')
    stats.nontrivial += 1


def names_job(first, depth, stats):
    for length in range(depth):
        for rest in product(NAME_LETTERS, repeat = length):
            judge_name(first + ''.join(rest), stats)
    for length in (62, 63, 64, 200):
        for tail in ('', '.', '.b', '\xe9', '\\046'):
            judge_name(first * length + tail, stats)
            judge_name('b' * length + first + tail, stats)
    stats.state(first)


LABEL_LETTERS = (b'a', b'A', b'5', b'.', b'\\', b'@', b' ', b'\x00', b'\x7f', b'\x80', b'\xe9', b'\xff', b'-', b'"')


def labels_job(first, depth, stats):
    for length in range(depth):
        for rest in product(LABEL_LETTERS, repeat = length):
            label = first + b''.join(rest)
            judge_labels((label,), stats)
            if length < 2:
                for other in LABEL_LETTERS:
                    judge_labels((label, other), stats)
                    judge_labels((other, label), stats)
                    judge_labels((other, label, other), stats)
    for length in (62, 63):
        judge_labels((first * length,), stats)
        judge_labels((first * length, first, b'a'), stats)
    stats.state(repr(first))


def bytes_job(stats):
    for number in range(256):
        byte = bytes((number,))
        for before, after in product((b'', b'a', b'1', b'\\', b'\xc3'), repeat = 2):
            judge_labels((before + byte + after,), stats)
            judge_labels((before + byte + after, b'a'), stats)
        stats.state(str(number))
    judge_labels(None, stats)
    for text in ('\u0171', '\xe9a', 'a\xe9', '\u65e5\u672c', '\xfc-1', '\u0431\u044a', '\xe9(a)', '\xe9 a', '\xe9@', '\xe9;"'):
        judge_labels((text.encode('idna'),), stats)
        judge_labels((text.encode('idna'), b'a', text.encode('idna')), stats)


def punycode_job(first, depth, stats):
    for prefix in (b'xn--', b'XN--', b'xn-', b'xN--a-'):
        for length in range(depth):
            for rest in product(b'az09-A.\xe9', repeat = length):
                judge_labels((prefix + first + bytes(rest),), stats)
    stats.state(repr(first))


# --- messages

class Malformed(Exception):
    pass


def read_name(data, index):
    """The labels at `index` and where the name ends. Pointers may only point before everything read of the name so far."""
    labels = []
    end = None
    limit = index
    while True:
        if index >= len(data):
            raise Malformed()
        length = data[index]
        index += 1
        if not length:
            break
        if length < 64:
            if index + length > len(data):
                raise Malformed()
            labels.append(data[index : index + length])
            index += length
            continue
        if length < 192:
            raise Malformed()
        if index >= len(data):
            raise Malformed()
        target = (length - 192) * 256 + data[index]
        index += 1
        if end is None:
            end = index
        if target >= limit:
            raise Malformed()
        limit = index = target
    return tuple(labels) or None, (index if end is None else end)


def read_message(data):
    """A message as plain values; raises `Malformed`."""
    if len(data) < 12:
        raise Malformed()
    numbers = [int.from_bytes(data[index : index + 2], 'big') for index in range(0, 12, 2)]
    index = 12
    questions = []
    for _ in range(numbers[2]):
        labels, index = read_name(data, index)
        if index + 4 > len(data):
            raise Malformed()
        questions.append((labels, int.from_bytes(data[index : index + 2], 'big'), int.from_bytes(data[index + 2 : index + 4], 'big')))
        index += 4
    sections = []
    for count in numbers[3:]:
        section = []
        for _ in range(count):
            labels, index = read_name(data, index)
            if index + 10 > len(data):
                raise Malformed()
            kind = int.from_bytes(data[index : index + 2], 'big')
            class_code = int.from_bytes(data[index + 2 : index + 4], 'big')
            duration = int.from_bytes(data[index + 4 : index + 8], 'big')
            length = int.from_bytes(data[index + 8 : index + 10], 'big')
            index += 10
            if index + length > len(data):
                raise Malformed()
            content = data[index : index + length]
            target = None
            if kind == PTR:
                try:
                    target, end = read_name(data, index)
                except Malformed:
                    target = Malformed
                else:
                    if end != index + length:
                        target = Malformed
            section.append((labels, kind, class_code, duration, content, target))
            index += length
        sections.append(section)
    flags = numbers[1]
    return (
        numbers[0], bool(flags & 32), bool(flags & 512), bool(flags & 128), flags & 15, questions, *sections,
    )


def plain_result(result):
    def records(section):
        return [
            (record.labels, record.resource_record_type, record.class_code, record.validity_duration, record.data)
            for record in (() if section is None else section)
        ]
    return (
        result.transaction_id, result.data_verified, result.truncated, result.recursion_available, result.response_code,
        [(question.labels, question.resource_record_type, question.class_code) for question in (() if result.questions is None else result.questions)],
        records(result.answers), records(result.authority_resource_records), records(result.additional_resource_records),
    )


def judge_message(data, stats):
    from scarletio.dns_query import building_and_parsing, helpers
    stats.evaluations += 1
    try:
        expected = read_message(data)
    except Malformed:
        expected = None
    artefact = ('message', data)
    try:
        result, error = building_and_parsing.parse_result_data(data)
    except Exception as exception:
        raise Violation(f'message {data!r}', f'reading the message {data!r} raised {exception!r}', artefact) from None
    except Hang:
        raise Violation(f'message {data!r}', f'reading the message {data!r} does not end', artefact) from None
    if expected is None:
        if result is not None or not isinstance(error, Exception):
            raise Violation(f'message {data!r}', f'the malformed message {data!r} is read as {result!r} / {error!r}', artefact)
        try:
            repr(error), str(error)
        except Exception as exception:
            raise Violation(f'message {data!r}', f'the error of the message {data!r} can not be shown: {exception!r}', artefact) from None
        stats.outcome('malformed')
        return
    if error is not None or result is None:
        raise Violation(f'message {data!r}', f'the message {data!r} is refused: {error!r}', artefact)
    plain = plain_result(result)
    if plain[:6] != expected[:6]:
        raise Violation(f'message {data!r}', f'the message {data!r} is read as {plain[:6]!r}, expected {expected[:6]!r}', artefact)
    for section, wanted_section in zip(plain[6:], expected[6:]):
        if [record[:4] for record in section] != [record[:4] for record in wanted_section]:
            raise Violation(f'message {data!r}', f'the records of {data!r} are read as {section!r}, expected {wanted_section!r}', artefact)
        for record, wanted in zip(section, wanted_section):
            content = record[4]
            if wanted[1] != PTR:
                if (content or b'') != wanted[4]:
                    raise Violation(f'message {data!r}', f'the content of a record of {data!r} is read as {content!r}, expected {wanted[4]!r}', artefact)
                continue
            try:
                name = building_and_parsing.parse_domain_name_pointer_data(content)
            except Exception as exception:
                raise Violation(f'message {data!r}', f'reading the pointer {content!r} of {data!r} raised {exception!r}', artefact) from None
            target = wanted[5]
            if target is Malformed:
                # what it gives for these is its own choice, except the name of something else
                continue
            if name is None:
                labels = None
            else:
                labels = helpers.parse_labels_from_name(name)
            if not same_labels(labels, target):
                raise Violation(f'message {data!r}', f'the pointer of {data!r} is read as {name!r}, expected the labels {target!r}', artefact)
    stats.nontrivial += 1
    stats.outcome(f'{len(expected[5])} questions {[len(section) for section in expected[6:]]!r}')


BODY_BYTES = (0, 1, 2, 3, 63, 64, 128, 192, 12, 13, 14, 16)


def bodies_job(first, depth, stats):
    for length in range(depth):
        for rest in product(BODY_BYTES, repeat = length):
            body = bytes((first, *rest))
            for head, tail in (
                (b'\0\1\0\0\0\0\0\0', b'\0\1\0\1'),
                (b'\0\0\0\1\0\0\0\0', b'\0\x0c\0\1\0\0\0\1\0\2\xc0\x0c'),
                (b'\0\1\0\1\0\0\0\0', b'\0\1\0\1\xc0\x0c\0\x0c\0\1\0\0\0\1\0\2\xc0\x0d'),
            ):
                judge_message(b'\1\2\x81\x80' + head + body + tail, stats)
            judge_message(b'\1\2\x81\x80\0\1\0\0\0\0\0\0' + body, stats)
            judge_message(b'\1\2\x81\x80\0\0\0\1\0\0\0\0\0\0\x0c\0\1\0\0\0\1\0' + bytes((len(body),)) + body, stats)
            judge_message(b'\1\2\x81\x80\0\0\0\1\0\0\0\0' + body, stats)
    stats.state(str(first))


NAMES = (None, (b'a',), (b'b', b'a'), (b'c', b'b', b'a'))


class Writer:
    """Writes messages; every name may be written with every pointer possible."""
    def __init__(self, choices):
        self.data = bytearray()
        self.choices = choices
        self.position = 0
        self.places = {}
        self.options = []

    def choose(self, count):
        self.options.append(count)
        if self.position < len(self.choices):
            choice = self.choices[self.position]
        else:
            choice = 0
        self.position += 1
        return choice

    def name(self, labels):
        labels = labels or ()
        # 0 : in full, n : the last n labels by pointer
        possible = [count for count in range(1, len(labels) + 1) if labels[len(labels) - count:] in self.places]
        choice = self.choose(len(possible) + 1)
        pointed = possible[choice - 1] if choice else 0
        new = {}
        for index in range(len(labels) - pointed):
            new.setdefault(labels[index:], len(self.data))
            self.data.append(len(labels[index]))
            self.data.extend(labels[index])
        if pointed:
            place = self.places[labels[len(labels) - pointed:]]
            self.data.extend((192 | (place >> 8), place & 255))
        else:
            self.data.append(0)
        for key, value in new.items():
            self.places.setdefault(key, value)

    def number(self, value, size):
        self.data.extend(value.to_bytes(size, 'big'))


def write_message(plain, choices):
    writer = Writer(choices)
    writer.number(plain[0], 2)
    writer.number(plain[1], 2)
    for section in plain[2:]:
        writer.number(len(section), 2)
    for labels, kind, class_code in plain[2]:
        writer.name(labels)
        writer.number(kind, 2)
        writer.number(class_code, 2)
    for section in plain[3:]:
        for labels, kind, class_code, duration, content in section:
            writer.name(labels)
            writer.number(kind, 2)
            writer.number(class_code, 2)
            writer.number(duration, 4)
            place = len(writer.data)
            writer.number(0, 2)
            if kind == PTR:
                writer.name(content)
            else:
                writer.data.extend(content)
            writer.data[place : place + 2] = (len(writer.data) - place - 2).to_bytes(2, 'big')
    return bytes(writer.data), writer.options


def written_messages(plain):
    """Every way of writing the message."""
    choices = []
    while True:
        data, options = write_message(plain, choices)
        yield data
        choices.extend([0] * (len(options) - len(choices)))
        while choices and choices[-1] + 1 >= options[len(choices) - 1]:
            choices.pop()
        if not choices:
            return
        choices[-1] += 1


RECORDS = tuple(
    (labels, kind, 1, 300, content)
    for labels in NAMES[:3]
    for kind, content in ((A, b'\1\2\3\4'), (TXT, b''), (PTR, (b'c', b'b', b'a')), (PTR, None))
)


def messages_job(question, first, damaged, stats):
    for second, third, section in product((None, *RECORDS), (None, *RECORDS[1::3]), (0, 1, 2)):
        sections = [[] if first is None else [first], [], []]
        if second is not None:
            sections[section].append(second)
        if third is not None:
            sections[2].append(third)
        plain = (0x1234, 0x8180, [question, (NAMES[1], A, 1)], *sections)
        for number, data in enumerate(written_messages(plain)):
            if number > 400:
                break
            judge_message(data, stats)
            result = read_message(data)
            if [record[:5] if record[1] != PTR else (*record[:4], record[5]) for section_ in result[6:] for record in section_] != [record for section_ in sections for record in section_]:
                raise RuntimeError('the reference reads back something else than written')
            if number < damaged and (damaged > 1 or section == 0):
                # damaged ones
                for length in range(len(data)):
                    judge_message(data[:length], stats)
                for place in range(2, len(data)):
                    for value in (0, 1, 63, 64, 192, 255, data[place] ^ 1):
                        judge_message(data[:place] + bytes((value,)) + data[place + 1 :], stats)
            if not stats.state(data):
                break


def flags_job(stats):
    for flags in range(0x10000):
        judge_message(b'\xab\xcd' + flags.to_bytes(2, 'big') + b'\0' * 8, stats)
        stats.state(str(flags))
    for number in (0, 1, 255, 256, 0x7fff, 0x8000, 0xffff):
        judge_message(number.to_bytes(2, 'big') + b'\0' * 10, stats)


def long_job(stats):
    """Compression at offsets which need 14 bits, and chains of pointers."""
    for pad in (0, 200, 230, 240, 241, 242, 243, 244, 250, 255, 256, 1000, 16000):
        name = [b'x' * 63] * (pad // 64)
        data = bytearray(b'\1\2\x81\x80' + (1 + len(name)).to_bytes(2, 'big') + b'\0\1\0\0\0\0')
        for label in name:
            data.extend(b'\x3f' + label + b'\0\0\1\0\1')
        place = len(data)
        data.extend(b'\1a\1b\0\0\1\0\1')
        if place < 0x4000:
            data.extend((0xc000 | place).to_bytes(2, 'big') + b'\0\x0c\0\1\0\0\0\1\0\2' + (0xc000 | (place + 2)).to_bytes(2, 'big'))
        judge_message(bytes(data), stats)
        stats.state(str(pad))
    for length in range(1, 60):
        # each pointer points to the previous one
        data = bytearray(b'\1\2\x81\x80' + (length + 1).to_bytes(2, 'big') + b'\0\0\0\0\0\0\1a\0\0\1\0\1')
        place = 12
        for _ in range(length):
            following = len(data)
            data.extend(b'\1b' + (0xc000 | place).to_bytes(2, 'big') + b'\0\1\0\1')
            place = following
        judge_message(bytes(data), stats)
        stats.state(f'chain {length}')


def queries_job(stats):
    """Queries built are read by others as they were meant."""
    from scarletio.dns_query import Query, Question, ResolveConfiguration, ResourceRecord
    from scarletio.dns_query.building_and_parsing import build_query_data
    questions = (None, (NAMES[1], A, 1), (NAMES[3], AAAA, 3), (None, 255, 65535), ((b'\0' * 63, b'\xff'), PTR, 1))
    records = (None, (None, 41, 1232, 0, b'\0\x0b\0\0'), (NAMES[2], TXT, 1, 0xffffffff, None), (NAMES[1], A, 1, 1, b'\1\2\3\4' * 70))
    for identifier, recursion, verification, trust, one, two, record_one, record_two in product(
        (0, 1, 0xff, 0x100, 0xffff), (True, False), (True, False), (True, False), questions, questions, records, records,
    ):
        stats.evaluations += 1
        chosen = [question for question in (one, two) if question is not None]
        chosen_records = [record for record in (record_one, record_two) if record is not None]
        configuration = ResolveConfiguration()
        configuration.option_set_verified_data_in_requests = trust
        query = Query(
            identifier, recursion, verification, tuple(Question(*question) for question in chosen) or None,
            tuple(ResourceRecord(*record) for record in chosen_records) or None,
        )
        data = build_query_data(query, configuration)
        what = (identifier, recursion, verification, trust, chosen, chosen_records)
        try:
            read = read_message(data)
        except Malformed:
            raise Violation(f'query {what!r}', f'the query {what!r} is written as {data!r}, which is malformed') from None
        flags = int.from_bytes(data[2:4], 'big')
        wanted = (0x100 if recursion else 0) | (0x10 if verification else 0) | (0x20 if trust else 0)
        if read[0] != identifier or flags != wanted or read[5] != chosen or read[6] or read[7] or [
            record[:5] for record in read[8]
        ] != [(*record[:4], record[4] or b'') for record in chosen_records]:
            raise Violation(f'query {what!r}', f'the query {what!r} is written as {data!r}, which is read by others as {read!r} with flags {flags:x}')
        stats.nontrivial += 1
        stats.state(data)


# --- configuration files

LINES = (
    'nameserver 8.8.8.8', 'nameserver ::1', 'nameserver nyan', 'nameserver', 'search a.b c', 'search a..b', 'search \\', 'search', 'search @ d',
    'options rotate', 'options ndots:4', 'options ndots:0', 'options ndots:99', 'options timeout:3', 'options timeout:\xb2', 'options attempts:2',
    'options attempts:x', 'options no-aaaa', 'options', 'options nyan', '# nameserver 1.1.1.1', '; search x', '', '   ', 'nyan 1', ' nameserver 1.2.3.4 ',
    'options no-aaaa:1', 'search ' + 'a' * 64, 'search \u0171',
)


def configuration_job(first, depth, stats):
    from scarletio.dns_query import ResolveConfiguration
    from scarletio.dns_query.resolve_configuration import update_resolve_configuration_from_file_content
    for length in range(depth):
        for rest in product(LINES, repeat = length):
            lines = (first, *rest)
            stats.evaluations += 1
            configuration = ResolveConfiguration()
            key = f'configuration {lines!r}'
            try:
                update_resolve_configuration_from_file_content(configuration, '\n'.join(lines))
            except Exception as exception:
                raise Violation(key, f'reading the configuration {lines!r} raised {exception!r}') from None
            servers = searches = None
            options = {'rotate': False, 'no-aaaa': False, 'ndots': 1, 'timeout': 5.0, 'attempts': 2}
            for line in lines:
                if line.startswith(('#', ';')):
                    continue
                words = line.split()
                if len(words) < 2:
                    continue
                if words[0] == 'nameserver':
                    for ip_type, reference in ((1, reference_ip_v4(words[1])), (2, reference_ip_v6(words[1])[0])):
                        if reference is not None:
                            servers = [*(servers or ()), (ip_type, reference)]
                elif words[0] == 'search':
                    for word in words[1:]:
                        try:
                            labels = reference_labels(word)
                        except Refused:
                            continue
                        if labels is not None:
                            searches = [*(searches or ()), labels]
                elif words[0] == 'options':
                    if words[1] in ('rotate', 'no-aaaa'):
                        options[words[1]] = True
                    match = re.fullmatch('(ndots|timeout|attempts):([0-9]+)', words[1])
                    if match is not None:
                        low, high = {'ndots': (1, 30), 'timeout': (1, 30), 'attempts': (1, 5)}[match.group(1)]
                        options[match.group(1)] = min(max(int(match.group(2)), low), high)
            read = (
                None if configuration.name_server_configurations is None else [(server.ip_type, server.ip_value) for server in configuration.name_server_configurations],
                None if configuration.searches is None else list(configuration.searches),
                {
                    'rotate': configuration.option_rotate, 'no-aaaa': configuration.option_no_ip_v6_lookups, 'ndots': configuration.option_required_dot_count,
                    'timeout': configuration.option_timeout, 'attempts': configuration.option_attempts,
                },
            )
            if read != (servers, searches, options):
                raise Violation(key, f'the configuration {lines!r} is read as {read!r}, expected {(servers, searches, options)!r}')
            stats.nontrivial += 1
            stats.state(repr(read))
    stats.outcome('configuration')


# --- resolving

BEHAVIOURS = ('answer', 'alias', 'none', 'type', 'length', 'malformed', 'short', 'cut', 'end', 'refused', 'silent', 'stuck', 'reset', 'other')
TRANSPORTS = {'tcp': 2, 'udp': 1, 'tls': 3, 'auto': 0}


def address_of(server, kind, number = 0):
    if kind == A:
        return bytes((10, server, 0, number + 1))
    return bytes((0xfd, server)) + bytes(13) + bytes((number + 1,))


def address_text(data):
    return str(ipaddress.ip_address(data))


class Answers:
    """What a name server does with a query."""
    def __init__(self, behaviour, server, name):
        self.behaviour = behaviour
        self.server = server
        self.name = name

    def addresses(self, kinds):
        """What a resolver learns from it: `None` if nothing; else the records (type, address, owner)."""
        behaviour = self.behaviour
        if behaviour in ('answer', 'other'):
            return [(kind, address_of(self.server, kind), self.name) for kind in kinds]
        if behaviour == 'alias':
            return [(kind, address_of(self.server, kind, number), ('x', *self.name)) for kind in kinds for number in range(2)]
        if behaviour in ('none', 'type', 'length'):
            return []
        return None

    def message(self, identifier, questions):
        behaviour = self.behaviour
        records = []
        labels = tuple(part.encode() for part in self.name)
        for question in questions:
            kind = question[1]
            if kind == PTR:
                if behaviour in ('answer', 'other'):
                    records.append((labels, PTR, 1, 60, (b'host', str(self.server).encode())))
                elif behaviour == 'alias':
                    records.append((labels, CNAME, 1, 60, b'\1x\0'))
                    records.append(((b'x',), PTR, 1, 60, (b'host', str(self.server).encode(), *labels)))
                elif behaviour == 'type':
                    records.append((labels, TXT, 1, 60, b'\1x'))
                elif behaviour == 'length':
                    records.append((labels, TXT, 1, 60, b''))
                continue
            if behaviour in ('answer', 'other'):
                records.append((labels, kind, 1, 60, address_of(self.server, kind)))
            elif behaviour == 'alias':
                records.append((labels, CNAME, 1, 60, b'\1x\0'))
                for number in range(2):
                    records.append(((b'x', *labels), kind, 1, 60, address_of(self.server, kind, number)))
            elif behaviour == 'type':
                if len(questions) == 1:
                    records.append((labels, AAAA if kind == A else A, 1, 60, address_of(self.server, AAAA if kind == A else A)))
                records.append((labels, TXT, 1, 60, b'\4abcd'))
            elif behaviour == 'length':
                records.append((labels, kind, 1, 60, address_of(self.server, kind)[1:]))
        plain = (identifier, 0x8180, list(questions), records, [], [])
        for data in written_messages(plain):
            pass
        # the last one is the most compressed
        if behaviour == 'malformed':
            return data[:-1] if not records else data[: len(data) - 3]
        if behaviour == 'short':
            return data[:5]
        return data


class ResolverWorld:
    def __init__(self, env, transport, servers, name, sequence, addresses):
        self.env = env
        self.transport = transport
        self.servers = servers              # [(address, level)]
        self.name = name
        self.sequence = sequence
        self.connections = []
        self.used = 0
        self.addresses = addresses

    def fail(self, message):
        raise Violation(self.key, message, self.artefact)

    def next_behaviour(self):
        index = self.used
        self.used += 1
        if index < len(self.sequence):
            return self.sequence[index]
        return 'answer'

    def install(self):
        from scarletio import Future
        from scarletio.core import TransportLayerBase
        world = self
        loop = self.env.loop

        class Transport(TransportLayerBase):
            __slots__ = ('connection', 'protocol')

            def __new__(cls, connection, protocol):
                self = object.__new__(cls)
                self.connection = connection
                self.protocol = protocol
                return self

            def get_protocol(self):
                return self.protocol

            def write(self, data):
                self.connection.written(bytes(data))

            def writelines(self, lines):
                for line in lines:
                    self.write(line)

            def send_to(self, data, address = None):
                self.connection.written(bytes(data))

            def close(self):
                self.connection.closed = True

            def abort(self):
                self.connection.closed = True

            def is_closing(self):
                return self.connection.closed

            def pause_reading(self):
                return True

            def resume_reading(self):
                return True

        class Connection:
            def __init__(self, kind, host, port, ssl):
                self.kind = kind
                self.host = host
                self.port = port
                self.ssl = ssl
                self.closed = False
                self.made = False
                self.buffer = b''
                self.query = None
                self.protocol = None
                self.behaviour = world.next_behaviour()
                world.connections.append(self)

            def connect(self, protocol_factory):
                self.protocol = protocol_factory()
                self.transport = Transport(self, self.protocol)
                self.made = True
                self.protocol.connection_made(self.transport)
                return self.protocol

            def written(self, data):
                self.buffer += data
                data = self.buffer
                if self.kind == 'datagram':
                    self.query = data
                else:
                    if len(data) < 2 or len(data) < 2 + int.from_bytes(data[:2], 'big'):
                        return
                    if len(data) > 2 + int.from_bytes(data[:2], 'big'):
                        world.fail(f'more was written than a query: {data!r}')
                    self.query = data[2:]
                loop.call_soon(self.answer)

            def answer(self):
                if self.closed:
                    return
                behaviour = self.behaviour
                try:
                    query = read_message(self.query)
                except Malformed:
                    world.fail(f'a malformed query was sent: {self.query!r}')
                identifier = query[0]
                server = world.server_index(self.host)
                answers = Answers(behaviour, server, world.name)
                self.questions = query[5]
                if behaviour == 'silent':
                    return
                if behaviour == 'reset':
                    self.protocol.connection_lost(ConnectionResetError(104, 'reset'))
                    return
                message = answers.message(identifier, query[5])
                if self.kind == 'datagram':
                    source = (self.host, self.port) if ':' not in self.host else (self.host, self.port, 0, 0)
                    if behaviour in ('end', 'cut'):
                        self.protocol.error_received(ConnectionRefusedError(111, 'refused'))
                        return
                    if behaviour == 'other':
                        wrong = Answers('answer', 77, world.name).message((identifier + 1) & 0xffff, query[5])
                        self.protocol.datagram_received(wrong, source)
                    self.protocol.datagram_received(message, source)
                    return
                data = len(message).to_bytes(2, 'big') + message
                if behaviour == 'end':
                    data = b''
                elif behaviour == 'cut':
                    data = data[: len(data) - 2]
                elif behaviour == 'other':
                    # in pieces
                    for index in range(len(data)):
                        self.protocol.data_received(data[index : index + 1])
                    return
                if data:
                    self.protocol.data_received(data)
                if behaviour in ('end', 'cut'):
                    self.protocol.eof_received()

        async def create_connection_to(protocol_factory, host_name, port, **keywords):
            connection = Connection('stream', host_name, port, keywords.get('ssl_context') is not None)
            behaviour = connection.behaviour
            if behaviour == 'refused':
                raise ConnectionRefusedError(111, 'refused')
            if behaviour == 'stuck':
                await Future(loop)
            return connection.connect(protocol_factory)

        async def create_datagram_connection_to(protocol_factory, local_address, remote_address, **keywords):
            connection = Connection('datagram', *remote_address[:2], False)
            if connection.behaviour == 'refused':
                raise OSError(101, 'unreachable')
            if connection.behaviour == 'stuck':
                await Future(loop)
            return connection.connect(protocol_factory)

        loop.create_connection_to = create_connection_to
        loop.create_datagram_connection_to = create_datagram_connection_to

    def uninstall(self):
        loop = self.env.loop
        for name in ('create_connection_to', 'create_datagram_connection_to'):
            loop.__dict__.pop(name, None)

    def server_index(self, host):
        for index, (address, level) in enumerate(self.servers):
            if host == address:
                return index
        self.fail(f'connected to {host!r}, which is not a name server')


LEVELS = {'no': 0, 'yes': 1, 'maybe': 2}
SERVER_ADDRESSES = ('192.0.2.1', '2001:db8::35', '192.0.2.3')


def make_configuration(transport, levels, many, attempts, rotate, timeout = 3.0, sort_list = None):
    from scarletio.dns_query import NameServerConfiguration, ResolveConfiguration
    configuration = ResolveConfiguration()
    configuration.searches = None
    configuration.searches_fallback = None
    configuration.option_required_dot_count = 1
    configuration.option_attempts = attempts
    configuration.option_rotate = rotate
    configuration.option_timeout = timeout
    configuration.preference_query_transport_type = TRANSPORTS[transport]
    configuration.name_server_configurations = tuple(
        NameServerConfiguration(
            2 if ':' in address else 1, int(ipaddress.ip_address(address)), many, LEVELS[level],
        ) for address, level in zip(SERVER_ADDRESSES, levels)
    )
    configuration.sort_list = sort_list
    return configuration


def resolving(spec, sequence, stats, used_out):
    """One resolution; what each connection does is told by `sequence`, further ones answer."""
    what, transport, levels, many, attempts, rotate, families = spec
    key = f'resolve {spec!r} {sequence!r}'
    artefact = ('resolve', spec, sequence)

    def function(env):
        from scarletio import Task
        loop = env.loop
        name = ('www', 'example', 'org')
        world = ResolverWorld(env, transport, list(zip(SERVER_ADDRESSES, levels)), name, sequence, families)
        world.key = key
        world.artefact = artefact
        world.install()
        try:
            stats.evaluations += 1
            configuration = make_configuration(transport, levels, many, attempts, rotate)
            ssl_context = object()
            began = CLOCK.now
            if what == 'name':
                coroutine = loop.get_name_info(('192.0.2.77', 443), 0, resolve_configuration = configuration, ssl_context = ssl_context)
                kinds = (PTR,)
                world.name = ('77', '2', '0', '192', 'in-addr', 'arpa')
            else:
                coroutine = loop.get_address_info(
                    '.'.join(name), 443, family = {'both': 0, 'v4': V4, 'v6': V6}[families], type = 1, flags = 2 if what == 'canonical' else 0,
                    resolve_configuration = configuration, ssl_context = ssl_context,
                )
                kinds = {'both': (AAAA, A), 'v4': (A,), 'v6': (AAAA,)}[families]
            task = Task(loop, coroutine)
            ended = None
            for _ in range(200):
                yield None
                if task.is_done():
                    ended = CLOCK.now
                    break
                yield 0.5
            outcome = outcome_of(task)
            used_out.append(world.used)
            if ended is None:
                task.cancel()
                yield 1.0
                world.fail(f'resolving did not end; connections: {[connection.behaviour for connection in world.connections]!r}')
            yield None
            for connection in world.connections:
                if connection.made and not connection.closed:
                    world.fail(f'a connection to {connection.host!r} was left open after resolving')
            judge_resolving(world, spec, outcome, kinds, ended - began, stats)
            yield 10.0
        finally:
            world.uninstall()

    return function


def judge_resolving(world, spec, outcome, kinds, duration, stats):
    what, transport, levels, many, attempts, rotate, families = spec
    connections = list(world.connections)
    count = len(levels)
    begin = 0
    if rotate and connections:
        # where it begins is its own choice
        begin = world.server_index(connections[0].host)
    batches = [kinds] if many or len(kinds) == 1 else [(kind,) for kind in kinds]
    position = 0
    learned = None
    refusals = 0
    budget = 0.0
    current_levels = list(levels)
    for step in range(min(attempts, count)):
        index = (begin + step) % count
        if transport == 'tls' and current_levels[index] == 'no':
            continue
        passed = False
        collected = []
        for batch in batches:
            level = current_levels[index]
            if transport == 'udp':
                ways = [('datagram', 53, False)]
            elif transport == 'tcp':
                ways = [('stream', 53, False)]
            elif transport == 'tls':
                ways = [('stream', 853, True)]
            elif level == 'no':
                ways = [('stream', 53, False)]
            elif level == 'yes':
                ways = [('stream', 853, True)]
            else:
                ways = [('stream', 853, True), ('stream', 53, False)]
            if transport == 'auto' and levels[index] == 'maybe' and level == 'no':
                # it refused once already, trying again is up to the resolver
                if position < len(connections) and connections[position].ssl:
                    ways = [('stream', 853, True), ('stream', 53, False)]
            for number, way in enumerate(ways):
                if position == len(connections):
                    world.fail(f'name server {index} was not asked for {batch!r} by {way!r}; connections: {[(c.host, c.port, c.behaviour) for c in connections]!r}; outcome {outcome!r}')
                connection = connections[position]
                position += 1
                if (connection.kind, connection.port, connection.ssl) != way or world.server_index(connection.host) != index:
                    world.fail(f'expected to ask name server {index} by {way!r}, it asked {connection.host!r} by {(connection.kind, connection.port, connection.ssl)!r}')
                if connection.behaviour in ('silent', 'stuck') or (transport == 'udp' and connection.behaviour in ('end', 'cut', 'reset')):
                    budget += 3.0
                if number == 0 and len(ways) == 2 and connection.behaviour == 'refused':
                    # it does not do tls
                    current_levels[index] = 'no'
                    continue
                break
            if connection.query is not None:
                query = read_message(connection.query)
                labels = tuple(part.encode() for part in world.name)
                if [question[:2] for question in query[5]] != [(labels, kind) for kind in batch] or any(question[2] != 1 for question in query[5]):
                    world.fail(f'the query asks {query[5]!r}, expected {batch!r} of {labels!r}')
                flags = int.from_bytes(connection.query[2:4], 'big')
                if not flags & 0x100 or flags & 0x8000 or flags & 0x7800:
                    world.fail(f'the flags of the query are {flags:x}')
            elif connection.behaviour not in ('refused', 'stuck'):
                world.fail('nothing was asked through a connection')
            if what == 'name':
                if connection.behaviour in ('answer', 'alias', 'other'):
                    target = ['host', str(index)]
                    if connection.behaviour == 'alias':
                        target.extend(world.name)
                    collected.append('.'.join(target))
                    passed = True
                elif connection.behaviour in ('none', 'type', 'length'):
                    passed = True
            else:
                got = Answers(connection.behaviour, index, world.name).addresses(batch)
                if got is not None and connection.behaviour == 'type' and len(batch) == 1 and families == 'both':
                    # the address of the other type is good as well
                    other = AAAA if batch[0] == A else A
                    got = [(other, address_of(index, other), world.name)]
                if got is not None:
                    passed = True
                    collected.extend(got)
        if passed:
            learned = collected
            break
    if position != len(connections):
        world.fail(f'a name server was asked needlessly; connections: {[(c.host, c.port, c.behaviour) for c in connections]!r}')
    if duration > budget + 1.0:
        world.fail(f'resolving took {duration} seconds, the name servers which did not answer allow {budget}')

    from socket import gaierror
    if what == 'name':
        if learned is None:
            if outcome[0] != 'exception' or not isinstance(outcome[1], gaierror):
                world.fail(f'no name server answered, still the outcome is {outcome!r}')
            stats.outcome('name: error')
            return
        wanted = (learned[0] if learned else '192.0.2.77', 'https')
        if outcome != ('result', wanted):
            world.fail(f'the name is {outcome!r}, expected {wanted!r}')
        stats.outcome('name: found' if learned else 'name: numeric')
    else:
        if not learned:
            if outcome[0] != 'exception' or not isinstance(outcome[1], gaierror):
                world.fail(f'there is nothing known of the name, still the outcome is {outcome!r}')
            stats.outcome(f'{len(connections)} asked: error')
            return
        wanted = []
        for kind, data, owner in learned:
            address = (address_text(data), 443) if kind == A else (address_text(data), 443, 0, 0)
            wanted.append((V4 if kind == A else V6, 1, 6, '.'.join(owner) if what == 'canonical' else '', address))
        if outcome != ('result', wanted):
            world.fail(f'resolved to {outcome!r}, expected {wanted!r}')
        stats.outcome(f'{len(connections)} asked: {len(wanted)} addresses')
    stats.nontrivial += 1


def specs():
    result = []
    for families in ('both', 'v4', 'v6'):
        for transport, levels in (
            ('tcp', ('no', 'no')), ('udp', ('no', 'yes')), ('tls', ('yes', 'maybe')), ('tls', ('no', 'yes')), ('auto', ('no', 'yes')), ('auto', ('maybe', 'maybe')),
        ):
            for many in (True, False):
                if families != 'both' and many:
                    continue
                result.append(('address', transport, levels, many, 2, False, families))
    result.append(('address', 'tcp', ('no', 'no', 'no'), True, 2, False, 'v4'))
    result.append(('address', 'tcp', ('no', 'no'), True, 5, False, 'v4'))
    result.append(('address', 'tcp', ('no', 'no'), True, 1, False, 'v4'))
    result.append(('address', 'udp', ('no', 'no', 'no'), True, 3, True, 'both'))
    result.append(('address', 'tcp', ('no', 'no', 'no'), False, 3, True, 'v4'))
    result.append(('canonical', 'tcp', ('no', 'no'), True, 2, False, 'both'))
    for transport in TRANSPORTS:
        result.append(('name', transport, ('yes', 'maybe'), True, 2, False, 'v4'))
    return result


def resolving_cases(spec, first, depth, stats):
    sequences = Sequences(BEHAVIOURS, depth, (first,))
    for sequence in sequences:
        used = []
        yield resolving(spec, sequence, stats, used)
        if used and used[0] < depth:
            sequences.prune(max(used[0] - 1, 0))
        stats.state(repr((spec, sequence[: used[0] if used else None])))


def direct_cases(stats):
    """Hosts which need no asking, and the order of the addresses."""
    from scarletio.dns_query import SortListElement

    hosts = ('127.0.0.1', '192.0.2.300', '::1', '::', '2001:DB8::1', '::ffff:1.2.3.4', 'fe80::1%1', 'fe80::1%', None)
    for host, family, kind, flags, port in product(hosts, (0, V4, V6), (0, 1, 2), (0, 4), (None, 0, 80, 'https')):
        def function(env, host = host, family = family, kind = kind, flags = flags, port = port):
            from scarletio import Task
            from socket import gaierror
            stats.evaluations += 1
            key = f'direct {(host, family, kind, flags, port)!r}'
            loop = env.loop
            world = ResolverWorld(env, 'tcp', [(SERVER_ADDRESSES[0], 'no')], ('x',), ('none',) * 4, None)
            world.key = key
            world.artefact = ('direct',)
            world.install()
            try:
                task = Task(loop, loop.get_address_info(
                    host, port, family = family, type = kind, flags = flags, resolve_configuration = make_configuration('tcp', ('no',), True, 1, False),
                ))
                yield 1.0
                outcome = outcome_of(task)
                addresses = []
                for iterated in (V6, V4) if not family else (family,):
                    value = None
                    scope = 0
                    if host is None:
                        value = '127.0.0.1' if iterated == V4 else '::1'
                        if port is None:
                            value = None
                    elif iterated == V4:
                        value = reference_ip_v4(host)
                        value = None if value is None else str(ipaddress.IPv4Address(value))
                    else:
                        value, index = reference_ip_v6(host)
                        value = None if value is None else ipaddress.IPv6Address(value)
                        if index != -1 and host[index + 1 :]:
                            scope = int(host[index + 1 :])
                    if value is not None:
                        addresses.append((iterated, value, scope))
                if not addresses:
                    if outcome[0] != 'exception' or not isinstance(outcome[1], gaierror):
                        raise Violation(key, f'{key} gives {outcome!r}, expected an error')
                    if (flags or host is None) and world.connections:
                        raise Violation(key, f'{key} asked a name server')
                    stats.outcome('direct error')
                    return
                if world.connections:
                    raise Violation(key, f'{key} asked a name server')
                number = {None: 0, 0: 0, 80: 80, 'https': 443}[port]
                if outcome[0] != 'result':
                    raise Violation(key, f'{key} gives {outcome!r}')
                pairs = {1: {(1, 6)}, 2: {(2, 17)}, 0: {(1, 6), (2, 17)}}[kind]
                for iterated, value, scope in addresses:
                    found = set()
                    for entry in outcome[1]:
                        if entry[0] != iterated:
                            continue
                        found.add(entry[1:3])
                        if iterated == V4:
                            right = entry[4] == (value, number)
                        else:
                            right = (str(ipaddress.IPv6Address(entry[4][0])), *entry[4][1:]) == (str(ipaddress.IPv6Address(value)), number, 0, scope)
                        if not right or entry[3] != '':
                            raise Violation(key, f'{key} gives {entry!r}, expected {value!r}')
                    if not found.issuperset(pairs) or (kind and found != pairs):
                        raise Violation(key, f'{key} gives the types {found!r}, expected {pairs!r}')
                if {entry[0] for entry in outcome[1]} != {address[0] for address in addresses} or len(set(outcome[1])) != len(outcome[1]):
                    raise Violation(key, f'{key} gives {outcome!r}')
                stats.nontrivial += 1
                stats.state(key)
                stats.outcome('direct')
            finally:
                world.uninstall()
        yield function

    # the sort list: addresses of its earlier elements come first, the others keep their order
    elements = (
        (1, 0x0a000000, 0xff000000), (1, 0x0a000100, 0xffffff00), (1, 0x0a000002, 0xffffffff), (2, 0xfd << 120, 0xff << 120), (1, 0, 0), (2, 0, 0),
    )
    addresses = ((1, 0x0a000001), (1, 0x0a000102), (1, 0x0a000002), (1, 0x0b000001), (2, (0xfd << 120) | 1), (2, 1))
    for sort in ((), *((element,) for element in elements), *product(elements, repeat = 2)):
        for chosen in product(addresses, repeat = 3):
            def function(env, sort = sort, chosen = chosen):
                from scarletio.dns_query.helpers import iter_intermediate_intermediate_addresses_ordered
                stats.evaluations += 1
                configuration = make_configuration(
                    'tcp', ('no',), True, 1, False,
                    sort_list = tuple(SortListElement(ip_type, value, mask) for ip_type, value, mask in sort) or None,
                )
                entries = [(*address, None, number) for number, address in enumerate(chosen)]

                def place(entry):
                    for index, (ip_type, value, mask) in enumerate(sort):
                        if entry[0] == ip_type and entry[1] & mask == value:
                            return index
                    return len(sort)

                wanted = sorted(entries, key = place)
                got = [*iter_intermediate_intermediate_addresses_ordered(configuration, [*entries])]
                if got != wanted:
                    raise Violation(f'sort {sort!r} {chosen!r}', f'{chosen!r} ordered by {sort!r}: {got!r}, expected {wanted!r}')
                stats.nontrivial += 1
                return
                yield
            yield function


class DnsCheck(Check):
    id = 'C23'
    rule = 'a state is a distinct message / name / address, or a distinct history of what the name servers did'
    assumptions = [
        'sockets are stand-ins: connecting to a name server and what it does is chosen by the enumeration (the real ones are C14 / C15 / C36 / C39)',
        'how search domains are joined to names is not judged',
    ]

    def setup(self):
        quiet_stderr()
        from scarletio.dns_query import requests

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = [('bodies', first, 5 if quick else 6) for first in BODY_BYTES]
        depth = 4 if quick else 5
        for spec in specs():
            jobs.extend(('resolve', spec, first, depth) for first in BEHAVIOURS)
        jobs.extend(('messages', (labels, A, 1), record, 1 if quick else 3) for labels in NAMES for record in (None, *RECORDS[1::2]))
        jobs.extend(('names', first, 5 if quick else 6) for first in NAME_LETTERS)
        jobs.extend(('labels', first, 5 if quick else 6) for first in LABEL_LETTERS)
        jobs.extend(('punycode', bytes((first,)), 4 if quick else 5) for first in b'az0-A')
        jobs.extend(('ip v4', first) for first in OCTETS)
        jobs.extend(('ip v6', first, 5 if quick else 6) for first in GROUPS)
        jobs.extend(('produce', value) for value in (1, 0x10, 0xabc, 0xffff, 0x0a0a, 0xf000))
        jobs.extend(('configuration', first, 3) for first in LINES)
        jobs.extend([('bytes',), ('flags',), ('long',), ('queries',), ('direct',)])
        return jobs

    def run_job(self, job, stats, tier):
        kind, *parameters = job
        if kind == 'resolve':
            run_cases(resolving_cases(*parameters, stats), stats, job)
            return
        if kind == 'direct':
            run_cases(direct_cases(stats), stats, job)
            return
        try:
            {
                'bodies': bodies_job, 'messages': messages_job, 'names': names_job, 'labels': labels_job, 'punycode': punycode_job, 'ip v4': ip_v4_job,
                'ip v6': ip_v6_job, 'produce': ip_produce_job, 'configuration': configuration_job, 'bytes': bytes_job, 'flags': flags_job,
                'long': long_job, 'queries': queries_job,
            }[kind](*parameters, stats)
        except Violation as violation:
            stats.violate(violation.key, violation.message, violation.artefact)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        if artefact and artefact[0] == 'resolve':
            _, spec, sequence = artefact
            spec = tuple(tuple(part) if isinstance(part, list) else part for part in spec)
            run_one(resolving(spec, tuple(sequence), stats, []), stats)
            return
        self.run_job(job, stats, 'quick')


CHECK = DnsCheck()
