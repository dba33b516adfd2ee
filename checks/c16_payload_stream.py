"""
C16: payload streams hand over everything exactly once, end once and never stall.
"""
from mc.base import Check, Violation
from mc.vloop import quiet_stderr
from mc.wire import Sequences, Wire, outcome_of, run_cases, run_one

NEXT = b'next!'

# name -> (headers, pieces, body available after each piece, ends with the stream)
def wires():
    small = b'abcde'
    big = [bytes((97 + index,)) * 70000 for index in range(4)]
    return {
        'length': ((('Content-Length', '5'),), (b'a', b'bcd', b'e' + NEXT[:1], NEXT[1:]), (b'a', small[:4], small, small), False),
        'exact': ((('Content-Length', '5'),), (b'ab', b'cde', NEXT), (b'ab', small, small), False),
        'chunked': (
            (('Transfer-Encoding', 'chunked'),), (b'3\r\na', b'bc\r\n2\r', b'\nde\r\n0\r\n', b'\r\n' + NEXT),
            (b'a', b'abc', small, small), False,
        ),
        'eof': ((), (b'a', b'bcd', b'e'), (b'a', small[:4], small), True),
        'big': (
            (('Content-Length', '280000'),), (*big[:3], big[3] + NEXT), tuple(b''.join(big[: index + 1]) for index in range(4)), False,
        ),
        'big-eof': ((), tuple(big), tuple(b''.join(big[: index + 1]) for index in range(4)), True),
    }

WIRES = wires()

# D: data, E: end of stream, L: connection closed, X: connection lost with an error, C: the reader is cancelled
# W: await the stream, I: iterate it, G: iterate it, waiting at a gate after each chunk, s: pass the gate, b: break at the gate
# k: cancel the consumer, A: add a done callback. '~': the operation is followed by the next one immediately
OPS = ('D', 'D~', 'E', 'E~', 'L', 'X', 'X~', 'C', 'C~', 'W', 'W~', 'I', 'I~', 'G', 'G~', 's', 's~', 'b', 'k', 'A')


class Model:
    __slots__ = ('cause', 'available', 'consumed')


def case(name, handled, ops, stats, prune, unsettled = 9):
    def function(env):
        from functools import partial
        from scarletio import Task
        from scarletio.core import Future
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        from scarletio.web_common.http_message import RawResponseMessage
        from scarletio.web_common.helpers import HttpVersion11
        from checks.c18_http_heads import make_headers
        loop = env.loop
        headers, pieces, availables, to_eof = WIRES[name]
        body = availables[-1]
        artefact = [name, handled, list(ops)]
        done_ops = []
        unsettled_left = [unsettled]

        def fail(message):
            shown = ' '.join(done_ops)
            raise Violation(f'stream:{name}:{handled}:{shown}', f'{message}; body = {name}, abortion handled = {handled}, operations: {shown}', artefact)

        wire = Wire()
        protocol = HttpReadWriteProtocol(loop)
        protocol.connection_made(wire)
        message = RawResponseMessage(HttpVersion11, 200, 'OK', make_headers(headers))
        stream = protocol.set_payload_reader(protocol.get_payload_reader_task(message))
        if handled:
            protocol.handle_payload_stream_abortion()

        given = 0
        ended = None
        cause = None # None / success / eof / error / cancelled / aborted
        error = OSError('connection lost')
        kind = None # what the stream is consumed by
        consumer = None
        state = {}
        calls = []
        added = 0
        old = []
        left = [] # received after the reader was cancelled

        def callback(number):
            return lambda which: calls.append((number, which))

        async def whole(state):
            state['started'] = True
            state['got'].append(bytes(await stream))

        async def iterate(state, gated):
            state['started'] = True
            async for chunk in stream:
                state['got'].append(bytes(chunk))
                if gated:
                    gate = Future(loop)
                    state['gate'] = gate
                    what = await gate
                    state['gate'] = None
                    if what == 'break':
                        break

        consumed = 0 # by earlier consumers
        # the expected end of the consumer, None if it should be waiting
        def check():
            nonlocal consumer, consumed, cause
            available = availables[given - 1] if given else b''
            if cause is None:
                if to_eof:
                    if ended is not None:
                        cause = 'success'
                elif available == body and (name != 'chunked' or given == len(pieces)):
                    cause = 'success'
            if consumer is not None:
                got = b''.join(state['got'])
                mode, task = consumer
                outcome = outcome_of(task)
                if got != body[consumed : consumed + len(got)]:
                    fail(f'got {got[:20]!r} instead of {body[consumed:][:20]!r}')
                if consumed + len(got) > len(available):
                    fail('got more than received')
                gated = mode == 'G' and state.get('gate') is not None
                if kind != mode.replace('G', 'I'):
                    # the other way of consuming is already in use
                    if outcome[0] != 'exception' or not isinstance(outcome[1], RuntimeError):
                        fail(f'mixing ways of consuming ended with {outcome}')
                    if got:
                        fail('mixing ways of consuming gave data')
                elif gated:
                    if outcome[0] != 'pending':
                        fail(f'consumer ended with {outcome} while it waits for something else')
                elif cause in (None, 'success'):
                    if mode != 'W' or cause == 'success':
                        if consumed + len(got) != len(available):
                            fail(f'{len(available)} bytes arrived, but only {consumed + len(got)} were given')
                    if cause is None:
                        if outcome[0] != 'pending':
                            fail(f'consumer ended with {outcome} too early')
                        if wire.paused:
                            fail('the consumer waits for data, but reading is paused')
                    elif outcome[0] != 'result':
                        fail(f'the body was received completely, but the consumer ended with {outcome}')
                else:
                    if outcome[0] != 'exception':
                        fail(f'the stream ended with {cause}, the consumer with {outcome}')
                    if cause == 'error':
                        if outcome[1] is not error:
                            fail(f'the connection was lost with {error!r}, the consumer ended with {outcome}')
                    elif not isinstance(outcome[1], ConnectionError):
                        fail(f'the stream ended with {cause}, the consumer with {outcome}')
                if outcome[0] != 'pending':
                    consumed += len(got)
                    consumer = None
                    state.clear()
            if cause is None:
                rest = len(available) - consumed - sum(len(chunk) for chunk in state.get('got', ()))
                if stream.get_total_size() != rest:
                    fail(f'{rest} bytes are buffered, but reported as {stream.get_total_size()}')
                if rest > 200000 and not wire.paused and not (consumer is not None and consumer[0] != 'G') and kind != 'W':
                    fail(f'{rest} bytes are buffered, but reading is not paused')
            if cause is None:
                if calls:
                    fail('done callback called, but the stream is not done')
            else:
                if sorted(number for number, _ in calls) != list(range(added)):
                    fail(f'{added} done callbacks, called: {[number for number, _ in calls]}')
                if any(which is not stream for _, which in calls):
                    fail('done callback called with something else')
            if stream.is_aborted() != (cause == 'aborted'):
                fail(f'is aborted: {stream.is_aborted()}, cause = {cause}')

        for index, token in enumerate(ops):
            op = token[0]
            gate = state.get('gate') if consumer is not None else None
            if op == 'D':
                possible = ended is None and given < len(pieces) and not wire.paused
            elif op == 'E':
                possible = ended is None and not wire.paused
            elif op in 'LX':
                possible = ended in (None, 'E')
            elif op in 'WIG':
                possible = consumer is None or (kind is not None and kind != op.replace('G', 'I') and 'extra' not in state and 'started' in state)
            elif op == 's' or op == 'b':
                possible = gate is not None and gate.is_pending()
            elif op == 'k':
                possible = consumer is not None and outcome_of(consumer[1])[0] == 'pending'
            elif op == 'A':
                possible = added < 2
            else:
                possible = True
            if token[-1] == '~':
                unsettled_left[0] -= 1
            if not possible or unsettled_left[0] < 0 or (token[-1] == '~' and index == len(ops) - 1):
                prune(index)
                return
            done_ops.append(token)
            stats.transitions += 1
            if op == 'D':
                if cause == 'cancelled' or (cause == 'aborted' and 'C' in {token[0] for token in done_ops}):
                    left.append(pieces[given])
                protocol.data_received(pieces[given])
                given += 1
                if cause is None and not to_eof and availables[given - 1] == body and (name != 'chunked' or given == len(pieces)):
                    cause = 'success'
            elif op == 'E':
                protocol.eof_received()
                ended = 'E'
                if cause is None:
                    cause = 'success' if to_eof else 'eof'
            elif op == 'L':
                protocol.connection_lost(None)
                ended = 'L'
                if cause is None:
                    cause = 'success' if to_eof else 'eof'
            elif op == 'X':
                protocol.connection_lost(error)
                ended = 'X'
                if cause is None:
                    cause = 'error'
            elif op == 'C':
                protocol.cancel_current_reader()
                if cause is None:
                    cause = 'cancelled'
            elif op in 'WIG':
                if consumer is not None:
                    # refused right away, without disturbing the other one
                    other = {'got': []}
                    task = Task(loop, whole(other) if op == 'W' else iterate(other, op == 'G'))
                    state['extra'] = (task, other)
                else:
                    state = {'got': [], 'before': kind}
                    task = Task(loop, whole(state) if op == 'W' else iterate(state, op == 'G'))
                    consumer = (op, task)
                    if kind is None:
                        kind = op.replace('G', 'I')
            elif op == 's':
                gate.set_result('go')
            elif op == 'b':
                gate.set_result('break')
            elif op == 'k':
                consumer[1].cancel()
            elif op == 'A':
                stream.add_done_callback(callback(added))
                added += 1

            if token[-1] == '~':
                continue
            yield

            if op == 'b':
                got = b''.join(state['got'])
                outcome = outcome_of(consumer[1])
                if outcome[0] != 'result':
                    fail(f'consumer which broke out ended with {outcome}')
                consumed += len(got)
                consumer = None
                state = {}
                if cause is None:
                    cause = 'aborted'
            elif op == 'k':
                got = b''.join(state['got'])
                outcome = outcome_of(consumer[1])
                if outcome[0] != 'cancelled':
                    fail(f'cancelled consumer ended with {outcome}')
                consumed += len(got)
                if not state.get('started'):
                    # cancelled before it could look at the stream
                    kind = state['before']
                elif cause is None:
                    if kind == consumer[0].replace('G', 'I'):
                        cause = 'aborted'
                consumer = None
                state = {}
            if cause == 'aborted' and handled and ended is None:
                ended = 'E'
                if not protocol.is_at_eof() and not protocol.get_size():
                    fail('the stream was aborted, but the protocol was not ended')
            extra = state.pop('extra', None)
            if extra is not None:
                task, other = extra
                outcome = outcome_of(task)
                if outcome[0] != 'exception' or not isinstance(outcome[1], RuntimeError) or other['got']:
                    fail(f'mixing ways of consuming ended with {outcome}')
            check()

        # what follows is still there
        if cause in ('success', 'cancelled') and not to_eof and ended is None:
            if cause == 'success':
                while given < len(pieces):
                    protocol.data_received(pieces[given])
                    given += 1
                expected = NEXT
            else:
                protocol.data_received(NEXT)
                left.append(NEXT)
                expected = b''.join(left)
                if protocol.get_size() != len(expected):
                    fail('cancelling the reader left something')
            if protocol.get_size() != len(expected):
                fail(f'{protocol.get_size()} bytes follow instead of {len(expected)}')
            task = Task(loop, protocol.read_exactly(len(expected)))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result' or bytes(outcome[1]) != expected:
                fail(f'reading what follows ended with {outcome}')
            task = Task(loop, protocol.read_exactly(2))
            yield
            if wire.paused:
                fail('the next read waits, but reading is paused')
            protocol.data_received(b'xy')
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'result' or bytes(outcome[1]) != b'xy':
                fail(f'reading what follows ended with {outcome}')
        elif ended is not None and not left:
            task = Task(loop, protocol.read_exactly(100))
            yield
            outcome = outcome_of(task)
            if outcome[0] != 'exception':
                fail(f'reading after the end of the connection ended with {outcome}')
        if consumer is not None:
            consumer[1].cancel()
            yield
        stats.evaluations += 1
        stats.state(f'{name} {handled} {ops}')
        stats.outcome((cause, kind, ended))
    return function


class PayloadStreamCheck(Check):
    id = 'C16'
    rule = 'a state is a distinct sequence of operations: deliveries, ends of the connection, and what the consumers do'
    assumptions = ['there is at most one consumer of a kind at a time', 'done callbacks do not raise and do not read']

    def setup(self):
        quiet_stderr()

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for name in WIRES:
            for handled in (False, True):
                if (handled and name in ('exact', 'big-eof')) or (quick and not handled and name in ('chunked', 'big')):
                    continue
                depth = (5 if quick else 7) - (quick and name in ('exact', 'big', 'big-eof', 'eof'))
                for op in OPS:
                    for second in (OPS if not quick else (None,)):
                        jobs.append((name, handled, depth, op, second, 1 if quick else 2))
        return jobs

    def cases(self, job, stats):
        name, handled, depth, op, second, unsettled = job
        sequences = Sequences(OPS, depth, (op,) if second is None else (op, second))
        for ops in sequences:
            yield case(name, handled, ops, stats, sequences.prune, unsettled)

    def run_job(self, job, stats, tier):
        run_cases(self.cases(job, stats), stats, job)
        stats.sample(repr(job))

    def replay(self, job, artefact, stats):
        name, handled, ops = artefact
        run_one(case(name, handled, tuple(ops), stats, lambda index: None), stats)


CHECK = PayloadStreamCheck()
