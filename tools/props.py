def Q(over, text):
    return {'over': over.split(), 'text': text}

def A(files, mechanism, state = (), observe = ()):
    return {
        'files': files.split(),
        'mechanism': [{'name': name, 'where': where} for name, where in mechanism],
        'state': [{'name': name, 'meaning': meaning, 'where': where} for name, meaning, where in state],
        'observe_at': list(observe),
        'hook_needed': None,
    }

STATELESS = (
    'stateless exhaustive exploration of the real code under a controlled scheduler (virtual clock, every placement of '
    'environment actions at callback boundaries up to a deviation bound)'
)
SEQUENCES = 'bounded-exhaustive enumeration of operation sequences on the real objects against a reference model'
STATES = 'explicit state exploration (every reachable state of a bounded model, every operation in each) with every transition replayed on the real objects'
THREADS = (
    'stateless exhaustive exploration of real threads of the real code under a controlled scheduler (every placement of preemptions up to a bound)'
)
NOTE_THREADS = (
    'Exhaustive over thread switches (function entries, lines after calls, backward jumps, blocking operations) in the listed files up to the preemption '
    'bound; trusts the cooperative stand-ins of threading primitives in /verif/mc/threads.py and CPython.'
)
NOTE_LOOP = (
    'Exhaustive within the stated deviation / depth bounds over the real EventThread code; trusts the virtual selector and '
    'clock of /verif/mc/vloop.py and CPython.'
)

NOT_APPLICABLE = {}

PROPERTIES = [
    {
        'id': 'C01',
        'title': 'A future completes once and everyone waiting is notified exactly once',
        'statement': (
            'A future is completed at most once: only the first of set result / set exception / cancel / timeout takes effect, '
            'every later attempt is reported as refused and the observed outcome never changes. '
            'Every registered done callback is called exactly once after completion (unless it was removed before), every '
            'task awaiting the future resumes with exactly that outcome, and none of this happens before completion.'
        ),
        'quantifier': Q('histories schedules', 'every sequence of completion, cancellation, timeout, callback, await and loop-run operations up to the depth'),
        'why_tests_cant': 'The tests call one or two methods on a fresh future; they never combine completion, callback removal, timeouts and awaiting in every order.',
        'anchors': A(
            'scarletio/core/traps/future.py scarletio/core/traps/timeouting.py scarletio/core/traps/future_chaining.py',
            [('state transition methods', 'core/traps/future.py'), ('_loop._schedule_callbacks', 'core/event_loop/event_loop.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C02',
        'title': 'Cancellation and timeouts are delivered exactly once and never lost',
        'statement': (
            'Cancelling a pending task raises the cancellation inside of it exactly once at its current wait, whatever it is '
            'awaiting and whenever the request arrives; the task ends cancelled (with the exception given, if any) unless it handles it, and a task which already ended is unaffected. '
            'A shielded awaitable is never cancelled by the cancellation of its waiter, and a timeout ends a waiter at its deadline exactly if the '
            'awaited one is not done by then; `repeat_timeout` times out exactly when an iteration takes longer than allowed, and does not affect what follows it.'
        ),
        'quantifier': Q('schedules programs', 'every placement of cancel requests, completions and timeouts at callback boundaries for a table of awaiting shapes'),
        'why_tests_cant': 'The tests cancel at one moment; the interesting windows (done but not yet resumed, cancelled twice, cancelled while chaining) only appear at particular loop cycles.',
        'anchors': A(
            'scarletio/core/traps/task.py scarletio/core/traps/timeouting.py scarletio/core/traps/future_chaining.py scarletio/core/traps/task_suppression.py',
            [('Task.cancel / _step', 'core/traps/task.py'), ('shield', 'core/traps/future_chaining.py'), ('timeout / repeat_timeout', 'core/traps/timeouting.py')],
        ),
        'technique': STATELESS,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C03',
        'title': 'Locks are mutually exclusive, fair and survive cancellation',
        'statement': (
            'At most one task is inside of an asynchronous lock at a time, tasks enter in the order in which they asked for it, and leaving it lets the next one in. '
            'Cancelling a task at any moment - waiting, just woken up, or inside - never leaves the lock locked with nobody inside, and never disturbs other waiters; '
            'awaiting the lock resumes when it is free.'
        ),
        'quantifier': Q('schedules fault_sequences', 'every placement of cancellations and releases at callback boundaries for every table of lockers and waiters'),
        'why_tests_cant': 'Lost hand-overs need a cancellation in the one cycle between the release and the resumption of the next owner.',
        'anchors': A(
            'scarletio/core/traps/locks.py',
            [('Lock / ScarletLock acquire & release', 'core/traps/locks.py')],
        ),
        'technique': STATELESS,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C04',
        'title': 'Async queues deliver every accepted element exactly once, in order',
        'statement': (
            'Every element accepted by an asynchronous queue is delivered to exactly one getter, in first-in-first-out (or last-in-first-out) order, or is still in the queue; '
            'a bounded queue never exceeds its limit, and no getter waits while there are elements and no setter waits while there is room, regardless of cancellations. '
            'An exception set on the queue ends getters exactly when the queue is exhausted and releases the waiting setters; cancelling an iterating task is not mistaken for the end of the queue.'
        ),
        'quantifier': Q('schedules fault_sequences', 'every placement of puts, gets, cancellations and the ending at callback boundaries for every table of getters and setters'),
        'why_tests_cant': 'There are no tests for queues with several getters, cancellations or limits.',
        'anchors': A(
            'scarletio/core/traps/queues.py',
            [('AsyncQueue / AsyncLifoQueue', 'core/traps/queues.py')],
        ),
        'technique': STATELESS,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C05',
        'title': 'Events wake exactly their waiters; repeated timeouts end the slow cycles',
        'statement': (
            'A task waiting for an event resumes if and only if the event is (or gets) set, at the latest when it is set next, however set, clear, wait and cancellation of other '
            'waiters are interleaved. Iterating a repeated timeout lets every cycle which finishes in time continue and ends exactly the cycle which does not with the '
            'timeout (and nothing else: an outer cancellation stays a cancellation, an exception of the body stays that exception), leaving nothing scheduled behind.'
        ),
        'quantifier': Q('schedules histories', 'every placement of set / clear / cancel at callback boundaries; every combination of cycle durations, endings and outer cancellation'),
        'why_tests_cant': 'Tests set once with one waiter; set-clear-set inside of one cycle and timeouts racing with a completion need controlled schedules.',
        'anchors': A(
            'scarletio/core/traps/event.py scarletio/core/traps/timeouting.py',
            [('Event', 'core/traps/event.py'), ('repeat_timeout', 'core/traps/timeouting.py')],
        ),
        'technique': STATELESS,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C06',
        'title': 'Task groups account for every future exactly once and wake the right waiters',
        'statement': (
            'Every future added to a task group is pending, done or popped, moves only forward and is never lost or popped twice; every waiter of the group (next, first, first n, '
            'exception, all, exhausting) resolves exactly when its condition is met, with a future which meets it, and not before; a cancelled waiter takes nothing with it. '
            'Cancelling pending, or leaving the group\'s context, cancels exactly the futures which are still pending.'
        ),
        'quantifier': Q('histories schedules', 'every sequence of add / complete / wait / cancel / pop / loop-run operations up to the depth, for every outcome assignment'),
        'why_tests_cant': 'The tests use one waiter at a time and complete futures one by one with the loop idle in between.',
        'anchors': A(
            'scarletio/core/traps/task_group.py',
            [('TaskGroup and its waiter handlers', 'core/traps/task_group.py')],
        ),
        'technique': 'explicit-state search over operation histories of the real TaskGroup on the real loop, compared with a reference model after every step',
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C07',
        'title': 'The scarlet executor limits parallelism and loses no task, failure or cancel',
        'statement': (
            'Inside of a scarlet executor at most the given amount of tasks run at once (adding more waits), tasks are started in order, leaving it waits for every task it started, and the '
            'first failure of a task is raised to the user after the rest got cancelled. A cancellation of the user at any moment - while adding, or while exiting - is propagated, '
            'and never leaves a task of the executor running.'
        ),
        'quantifier': Q('schedules fault_sequences', 'every completion order, failure assignment and cancellation point for every limit and task count in bounds'),
        'why_tests_cant': 'Tests run it to a successful end; failures while full and cancellation while exiting need specific schedules.',
        'anchors': A(
            'scarletio/core/traps/async_executing.py',
            [('ScarletExecutor', 'core/traps/async_executing.py')],
        ),
        'technique': STATELESS,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C08',
        'title': 'The loop runs each scheduled callback once, in order, on time, unless cancelled',
        'statement': (
            'Every callback given to the event loop (immediately, thread-safely, lazily, later, at a time, weakly, for a readable or writable descriptor) is called exactly once (descriptors: once per readiness '
            'while registered), immediate ones in order, timed ones in deadline order and never before the deadline (up to the clock resolution), never after its handle was cancelled or its '
            'weakly referenced target died; an exception escaping one does not affect the others.'
        ),
        'quantifier': Q('histories schedules', 'every sequence of scheduling, cancelling, time and loop-run operations up to the depth'),
        'why_tests_cant': 'No test combines timers, cancellation from callbacks, weak targets and descriptors in one run.',
        'anchors': A(
            'scarletio/core/event_loop/event_loop.py scarletio/core/event_loop/handles.py',
            [('EventThread.run / call_*', 'core/event_loop/event_loop.py'), ('handles', 'core/event_loop/handles.py')],
        ),
        'technique': 'explicit enumeration of operation sequences of the real loop under a virtual clock and selector against a reference scheduler',
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C09',
        'title': 'A cycler calls its functions once per cycle, by priority, until cancelled',
        'statement': (
            'A cycler calls each of its functions exactly once per cycle, in order of priority (then of addition), every cycle time, until it is cancelled; cancelling, rescheduling, '
            'calling it at once, changing the cycle time, adding and removing functions take effect whether done from outside, from its own functions or from an other thread; '
            'a raising function does not stop it.'
        ),
        'quantifier': Q('histories', 'every sequence of cycler operations (outside, inside of its functions, from an other thread) and time steps up to the depth'),
        'why_tests_cant': 'Tests check the structure of a fresh cycler, not operations from inside of a running cycle.',
        'anchors': A(
            'scarletio/core/event_loop/cycler.py',
            [('Cycler', 'core/event_loop/cycler.py')],
        ),
        'technique': 'explicit enumeration of operation sequences of the real cycler on the real loop against a reference model',
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C10',
        'title': 'Using a loop and its futures from other threads loses and blocks nothing',
        'statement': (
            'Whichever way threads are scheduled: everything given to an event loop thread-safely (callbacks, tasks, `loop.run`, `loop.enter`, starting it by first use) is done exactly once, on the loop; '
            'waiting for a future from an other thread or from an other loop ends with exactly its outcome (or with the timeout, if it elapses first), completing or cancelling it from outside is noticed by its awaiter, '
            'and code inside of an executor section runs outside of the loop and afterwards comes back to it, cancellation included. Nothing waits forever.'
        ),
        'quantifier': Q('schedules', 'every thread schedule up to a preemption bound for a table of uses'),
        'why_tests_cant': 'A test sees the one schedule the machine happens to produce; races between waking and waiting windows need a preemption at particular lines.',
        'anchors': A(
            'scarletio/core/event_loop/event_loop.py scarletio/core/traps/future.py scarletio/core/traps/future_sync_wrapper.py scarletio/core/traps/future_async_wrapper.py '
            'scarletio/core/traps/task.py scarletio/core/traps/task_thread_switcher.py',
            [('call_soon_thread_safe / run / enter', 'core/event_loop/event_loop.py'), ('sync and async wrappers', 'core/traps'), ('enter_executor', 'core/traps/task_thread_switcher.py')],
        ),
        'technique': THREADS,
        'level_note': NOTE_THREADS,
    },
    {
        'id': 'C11',
        'title': 'The executor runs every function exactly once and gives its threads back',
        'statement': (
            'Whichever way threads are scheduled: every function given to the executor runs exactly once outside of the loop and its future gets its result or exception; a cancelled future or a never ending function '
            'does not keep others from running; a claimed executor runs its functions in order on one thread, none after it was released, and comes back when they are done; a single executor thread runs its functions in order, '
            'cancelling it cancels the ones not started; unused threads are released after a while and all of them end when the loop stops.'
        ),
        'quantifier': Q('schedules', 'every thread schedule up to a preemption bound for a table of uses'),
        'why_tests_cant': 'Tests run a function or two and never contend for, cancel, claim or stop the executor at every point.',
        'anchors': A(
            'scarletio/core/event_loop/executor.py',
            [('Executor, ClaimedExecutor, ExecutorThread', 'core/event_loop/executor.py')],
        ),
        'technique': THREADS,
        'level_note': NOTE_THREADS,
    },
    {
        'id': 'C12',
        'title': 'The thread safe queue hands out every element exactly once, in order',
        'statement': (
            'Whichever way the threads using a `SyncQueue` are scheduled every element put into it is got by exactly one getter, elements of one setter in order, blocked getters are woken by elements and by cancellation, and nothing blocks forever '
            'while there is something to get. Used by one thread it behaves as a (length limited) queue: get, no-wait get, cancel, clear, copy, reverse, length, truth and representation. '
            'Everyone waiting for a `SyncWait` gets its result or its cancellation.'
        ),
        'quantifier': Q('schedules histories', 'every thread schedule up to a preemption bound; every operation sequence up to a depth'),
        'why_tests_cant': 'A test sees one schedule and a handful of sequences.',
        'anchors': A(
            'scarletio/core/event_loop/executor.py',
            [('SyncQueue, SyncWait', 'core/event_loop/executor.py')],
        ),
        'technique': THREADS + '; ' + SEQUENCES,
        'level_note': NOTE_THREADS,
    },
    {
        'id': 'C13',
        'title': 'Reading gives the same data however the stream is cut into chunks',
        'statement': (
            'Whatever way the received data is cut into chunks, and whenever the chunks arrive compared to the reads: `read`, `read_exactly`, `read_once` and `read_until` give exactly the next '
            'bytes of the stream (till the first occurrence of the boundary, which is consumed), nothing is lost, repeated or reordered; they fail if the stream ends too early and wait while it can still go on; '
            'the amount buffered and being at the end is always known. '
            'Reading is paused when too much is buffered and resumed when a reader needs more; a task waiting till it can write waits exactly as long as writing is paused, every one of them is woken up, '
            'and none of this is affected by the other direction.'
        ),
        'quantifier': Q('inputs histories schedules', 'every small stream, every way of cutting it, every arrival pattern relative to each read, every sequence of reads up to a depth'),
        'why_tests_cant': 'Tests feed one or two hand-cut chunk lists; the defects sit where a boundary is cut over chunks after a partial read.',
        'anchors': A(
            'scarletio/core/protocols_and_transports/protocol.py',
            [('ReadProtocolBase readers', 'core/protocols_and_transports/protocol.py'), ('ReadWriteProtocolBase flow control', 'core/protocols_and_transports/protocol.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C14',
        'title': 'Transports send what is written exactly once, in order, and end once',
        'statement': (
            'For stream socket and pipe transports, whatever the kernel accepts, refuses or fails with and whatever the peer does: the bytes sent are always a prefix of the bytes written, everything is sent as soon as it can be, '
            'the end (`write_eof`) is signaled only after everything before it, closing sends what was written before it and aborting drops it; '
            'the protocol is told that its connection was made once, first, and lost once, last, with the error which caused it, and the descriptor is closed once and not watched afterwards; '
            'writing is paused above the high and resumed under the low limit; received data is passed on in order, completely, and none while reading is paused or after closing. '
            'Calling any method at any time, or from inside the callbacks of the protocol, raises and reports nothing unexpected.'
        ),
        'quantifier': Q('histories faults', 'every sequence of application calls, kernel outcomes (partial writes, full buffers, interruptions, errors, spurious readiness) and peer actions up to a depth, for protocols reacting in their callbacks'),
        'why_tests_cant': 'Nothing in the test suite runs a transport against a kernel that accepts part of the data, fails, or against calls arriving in unusual order.',
        'anchors': A(
            'scarletio/core/protocols_and_transports/transport_layer.py scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py',
            [('SocketTransportLayer', 'core/protocols_and_transports/transport_layer.py'), ('UnixReadPipeTransportLayer, UnixWritePipeTransportLayer', 'core/protocols_and_transports/unix_pipe_transport_layer.py')],
        ),
        'technique': SEQUENCES + ', against a model kernel choosing every outcome of each system call',
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C18',
        'title': 'Http heads are read as written however they are cut; bad ones are refused',
        'statement': (
            'Http requests and responses written by the library have the standard form and are read back with the same method, path, version, status, reason and headers (every value of every field, in order); '
            'reading gives the same independently of how the bytes are cut into chunks and of when they arrive, leaves everything after the head in the stream, and blank lines, folded lines and whitespace are treated as the standard says. '
            'A malformed, truncated or oversized head ends with a payload or connection error, never with anything else and never with waiting forever. '
            'Whether the connection is kept alive, upgraded, chunked and how it is encoded follows from the version and headers.'
        ),
        'quantifier': Q('inputs histories', 'every head of a small grammar (and every short string of its tokens as malformed one), every cutting into up to three chunks and into single bytes'),
        'why_tests_cant': 'Tests parse a few well formed heads fed in one piece.',
        'anchors': A(
            'scarletio/web_common/http_protocol.py scarletio/web_common/http_message.py scarletio/web_common/helpers.py',
            [('HttpReadProtocol.read_http_response / read_http_request', 'web_common/http_protocol.py'), ('RawMessage', 'web_common/http_message.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C19',
        'title': 'Http bodies arrive byte for byte, exactly as long as they are, or fail',
        'statement': (
            'The body of an http message - framed by its length, by chunks or by the end of the connection, plain, gzip or deflate compressed - is received byte for byte, '
            'however the stream is cut and when it arrives, as soon as its last byte did; what follows it in the stream is left there for the next message. Messages which can not have a body have none. '
            'If the connection ends, is lost or fails inside of a framed body, or its framing or compression is malformed, then reading it fails (with a payload or connection error), and never gives a part as if it was the whole. '
            'What `HTTPStreamWriter` writes, whatever way it is cut into writes, is exactly such a body, and nothing is written after it ended or the connection was closed.'
        ),
        'quantifier': Q('inputs faults', 'every body, framing and encoding of a table; every cutting into two or three (short ones four) chunks and single bytes; every point of truncation; every short string of tokens as chunk size and length'),
        'why_tests_cant': 'Tests read bodies given in one piece and never cut a connection inside of one.',
        'anchors': A(
            'scarletio/web_common/http_protocol.py scarletio/web_common/http_stream_writer.py scarletio/web_common/compressors.py',
            [('get_payload_reader_task and payload readers', 'web_common/http_protocol.py'), ('HTTPStreamWriter', 'web_common/http_stream_writer.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C16',
        'title': 'Payload streams hand over everything once, end once and never stall',
        'statement': (
            'A payload stream gives its consumer - one awaiting it whole or one iterating it by chunk - every received byte of the body once, in order and as soon as it can be; what is reported as buffered is what was received and not consumed. '
            'It ends exactly once: with success if the body was received completely, else with the error of the connection, its end, the cancellation of the reader or being aborted by its consumer (which leaves it or is cancelled), '
            'whichever happened first; every done callback is called exactly once then; a consumer, whether it is already waiting or only starts later, gets that outcome. '
            'The two ways of consumption can not be mixed. Reading is paused if too much is buffered, but never while a consumer is waiting for data. What follows the body is left for the next reader.'
        ),
        'quantifier': Q('histories schedules', 'every sequence of deliveries, ends of the connection, reader cancellation, consumer starts, steps, breaks and cancellations up to a depth, each settled or immediately followed by the next'),
        'why_tests_cant': 'Tests cover each method of the stream alone; the interplay of deliveries, ends and consumers is where bytes or wake-ups get lost.',
        'anchors': A(
            'scarletio/core/protocols_and_transports/payload_stream.py scarletio/core/protocols_and_transports/protocol.py',
            [('PayloadStream', 'core/protocols_and_transports/payload_stream.py'), ('ReadProtocolBase payload readers', 'core/protocols_and_transports/protocol.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C21',
        'title': 'Forms and multipart bodies carry exactly what was put into them',
        'statement': (
            'Whatever is put into a form or multipart body - texts, binary data, files (binary and text, from any position), streams of pieces, json, nested multiparts - arrives: the written body is well formed, '
            'it holds the parts in order, each with its name, file name, content type and headers unchanged (whatever delimiters they contain) and, decoded with its declared content and transfer encoding and charset, its exact value; '
            'a stated size is the size written. Reading a multipart body back gives the same parts however the stream is cut; a truncated or malformed one ends with an error after the complete parts, never with wrong parts.'
        ),
        'quantifier': Q('inputs histories', 'every combination of field values, names, content types, file names, transfer / content encodings and charsets of the tables in forms of up to three fields, every split of the streams up to a number of cuts, every truncation, every token sequence up to a length'),
        'why_tests_cant': 'Tests write a few forms and read no multipart at all; encodings, quoting, sizes and stream cuts combine.',
        'anchors': A(
            'scarletio/web_common/form_data.py scarletio/web_common/multipart.py scarletio/web_common/http_protocol.py',
            [('FormData.generate_form', 'web_common/form_data.py'), ('payloads, MultipartWriter, create_payload', 'web_common/multipart.py'), ('HttpReadWriteProtocol.read_multipart', 'web_common/http_protocol.py')],
        ),
        'technique': 'bounded-exhaustive enumeration of forms, multipart bodies and stream cuts through the real writer and reader against an independent strict multipart codec',
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C20',
        'title': 'Web sockets deliver messages, answer control frames and always get closed',
        'statement': (
            'An established web socket connection - of a client or of a server - delivers every text and binary message which arrives, whole, once, unchanged and in order, however it was fragmented and however the stream is cut, with control frames in between. '
            'Pings are answered with pongs of the same data, pongs wake the pings they answer. A peer violating the protocol (masking, reserved bits, operation codes, fragmentation, size limits, encoding, close frames) is refused with the matching close code, and nothing after it is delivered. '
            'What is sent are always well formed frames: masked by clients only, whole messages in order, nothing after the close frame. '
            'Closing performs the closing handshake and ends within the close timeouts, whatever the peer does, and whether closing is cancelled or repeated; closing, receiving, sending and pinging all end when the connection does, reporting the close code which was agreed on, and the transport is always closed.'
        ),
        'quantifier': Q('inputs histories schedules', 'every sequence of incoming frames, local sends, pings, receives, closings, cancellations, passing time and losses of the connection up to a depth, for client and server; every cutting of the frame streams'),
        'why_tests_cant': 'The tests contain a handful of happy path exchanges; closing handshakes racing pings, timeouts, losses and cancellations are never covered.',
        'anchors': A(
            'scarletio/web_socket/web_socket_common_protocol.py scarletio/web_common/http_protocol.py scarletio/web_common/web_socket_frame.py',
            [('WebSocketCommonProtocol', 'web_socket/web_socket_common_protocol.py'), ('HttpReadWriteProtocol.read_websocket_frame', 'web_common/http_protocol.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C22',
        'title': 'Http clients give every request its own response and leak no connection',
        'statement': (
            'Every request performed with an http client gets the response to it, whole, or fails: because its connection failed or ended, its response is malformed, it was cancelled, its response closed, the client closed, or it timed out - and then it does end. '
            'A connection is used by one request at a time, and used for another one to the same destination only if nothing is left of the previous ones: their requests were written completely, their responses were received completely, '
            'the server keeps the connection alive and did not end it, sent nothing unasked, and neither the keep-alive time passed nor the maximal amount of requests was reached. If there is such a connection no new one is opened. '
            'Connections which can not be used again are closed at once, the others as soon as their keep-alive time passed or the client is closed.'
        ),
        'quantifier': Q('histories faults schedules', 'every sequence of requests (with and without bodies, to several destinations), server answers of a table, parts of answers, ends, resets and unasked data, consumer actions, cancellations, slow and refused connecting, passing time and closing the client up to a depth, settled or immediately following each other'),
        'why_tests_cant': 'The tests cover the containers alone with stand-ins; reuse after partial writes, ends and early answers needs histories of a server and a client.',
        'anchors': A(
            'scarletio/http_client/connector_base.py scarletio/http_client/protocol_basket.py scarletio/http_client/connection.py scarletio/http_client/client_response.py scarletio/http_client/http_client.py scarletio/http_client/client_request.py',
            [('ConnectorBase.connect / release / _clean_up', 'http_client/connector_base.py'), ('ProtocolBasket', 'http_client/protocol_basket.py'), ('ClientResponse', 'http_client/client_response.py'), ('HttpReadProtocol.should_close', 'web_common/http_protocol.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C27',
        'title': 'Web socket handshakes accept valid peers only and leave no connection open',
        'statement': (
            'A web socket server accepts exactly the valid opening handshakes - however their fields are spelled, ordered, repeated or cut - from the origin it is limited to, which its request processor lets through; it answers them with the accept key of the key received, '
            'the sub protocol preferred by both sides and the offered extensions which it supports, and calls its handler once. Everything else is refused with an error response (the one asked for by the request processor) and its connection is closed, without the handler being called. '
            'A web socket client asks for what it was told to (destination, path, credentials, origin, sub protocols, extensions, headers), accepts exactly the responses which are valid answers to its own request, and closes the connection of the others. '
            'Messages following the handshake at once are not lost. When handshakes fail, end half way, are cancelled or time out, when handlers end or fail, and when the server is closed, every connection ends up closed and unregistered.'
        ),
        'quantifier': Q('inputs histories schedules', 'every combination of up to a number of deviating handshake fields of the tables, every cut of the streams up to a number of chunks, every sequence of connecting, sending, ending, shutting down and time up to a depth, for every kind of request processor and handler'),
        'why_tests_cant': 'The tests contain one successful handshake over localhost; refusals, deviating fields and ends half way are not covered.',
        'anchors': A(
            'scarletio/web_socket/web_socket_server_protocol.py scarletio/web_socket/web_socket_server.py scarletio/web_socket/web_socket_client.py scarletio/web_common/header_building_and_parsing.py scarletio/http_client/client_response.py',
            [('WebSocketServerProtocol.handshake / lifetime_handler', 'web_socket/web_socket_server_protocol.py'), ('WebSocketServer', 'web_socket/web_socket_server.py'), ('WebSocketClient.__new__', 'web_socket/web_socket_client.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C24',
        'title': 'Weak collections equal plain ones restricted to living entries',
        'statement': (
            'At every moment the weak dictionaries (weak key, weak value, weak item, hybrid value), weak sets and weak maps behave as a plain dictionary or set which holds exactly the entries set and not removed since whose weakly referenced parts are all alive: '
            'lookups, removals, popping, lengths, membership, views, representations, comparisons, copies and the set algebra with any kind of operand give what they would give on it; identical and equal objects are told apart as by it. '
            'This holds also while any number of iterators are open: objects dying and values being replaced meanwhile never make an iterator give a dead entry or skip a living one, and entries whose dead value was replaced stay. '
            'They do not keep anything alive, and once no iterators are open, nothing is left in them of dead entries.'
        ),
        'quantifier': Q('inputs histories schedules', 'every sequence of operations, deaths and iterator steps up to a depth over up to three keys and two values for each collection, every set operation over operand contents, kinds, deaths and open iterators'),
        'why_tests_cant': 'The tests check single operations, mostly without deaths; deaths while iterating and their combinations with replacing and removing are not covered.',
        'anchors': A(
            'scarletio/utils/weak_core.py scarletio/utils/weak_key_dictionary.py scarletio/utils/weak_value_dictionary.py scarletio/utils/weak_item_dictionary.py scarletio/utils/hybrid_value_dictionary.py scarletio/utils/weak_set.py scarletio/utils/weak_map.py scarletio/utils/dict_iterator_bases.py',
            [('add_to_pending_removals', 'utils/weak_core.py'), ('WeakItemDictionary', 'utils/weak_item_dictionary.py'), ('HybridValueDictionary', 'utils/hybrid_value_dictionary.py'), ('WeakSet', 'utils/weak_set.py'), ('WeakMap', 'utils/weak_map.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real collections are driven through every sequence of operations, deaths (dropping the last reference) and iterator steps within the bounds, against a plain dictionary or set.',
    },
    {
        'id': 'C38',
        'title': 'Http requests carry what was asked for; redirects leak no secrets',
        'statement': (
            'An http request arrives with exactly the method, path, query, headers, authorization, cookies and body (raw, text or form, plain, chunked or compressed) it was asked for, each of the framing and identifying headers once, and a host header naming where it was sent. '
            'Redirects (301, 302, 303, 307) are followed to the location resolved against the current url, one request each, at most up to their limit; 303 (but for HEAD) and 301 / 302 of POST turn into a GET without body and without the headers describing it, the others repeat the method and the body. '
            'Authorization and cookies given for the request (or found in its url) are never sent to an other origin, cookies stored meanwhile are sent where they belong, the headers given by the caller are not changed, and the response tells its history, url and method. '
            'Invalid locations, too many redirects, lost connections, timeouts and cancellation at any point end the request with an error, and leave no connection open.'
        ),
        'quantifier': Q('inputs histories schedules', 'every combination of method, data, credentials, cookies and headers of the tables; every chain of up to two (and selected chains of up to four) redirects over the table of statuses and locations; cancellation after every number of loop cycles'),
        'why_tests_cant': 'The tests do not perform redirects; the combinations of methods, statuses, locations and credentials are far more than samples could cover.',
        'anchors': A(
            'scarletio/http_client/http_client.py scarletio/http_client/client_request.py scarletio/http_client/client_response.py scarletio/http_client/request_context_manager.py scarletio/web_common/basic_authorization.py scarletio/web_common/http_stream_writer.py',
            [('HTTPClient._request / _request2', 'http_client/http_client.py'), ('ClientRequest.__new__', 'http_client/client_request.py'), ('ClientRequest.write_body', 'http_client/client_request.py')],
        ),
        'technique': SEQUENCES,
        'level_note': NOTE_LOOP,
    },
    {
        'id': 'C29',
        'title': 'Cookies are sent with exactly the requests they were set for',
        'statement': (
            'A cookie jar answers every request url with exactly the cookies stored for it as RFC 6265 defines: the last value set for the (domain, path, name), while it is not expired, when the host is the same (or within the domain if the cookie names one), the path is the same or below, and the request is secure if the cookie asks for it. '
            'Cookies naming a foreign domain are refused, and those from ip addresses too unless the jar is unsafe; the domain and path of a cookie default to the host and directory of its response. Max-Age goes before Expires, ages of zero or below and dates passed remove the cookie at once, every date in the three http formats is understood, and invalid ones are ignored. '
            'Setting a cookie anew forgets all of the old one, of more cookies with the same name the one with the longest path is sent, without attributes; the length and the content of the jar are those living, and pickling or time passing changes nothing of these.'
        ),
        'quantifier': Q('inputs histories', 'every cookie of the tables (12 places, 12 domains, 9 paths, 15 lives) against every request url; every day of the chosen years in every format; every sequence of up to 4 (thorough: 5) operations over four alphabets'),
        'why_tests_cant': 'The cookie jar has no tests; and what is sent depends on all of the history, the clock and two urls.',
        'anchors': A(
            'scarletio/web_common/cookiejar.py scarletio/http_client/http_client.py',
            [('CookieJar.update_cookies', 'web_common/cookiejar.py'), ('CookieJar.filter_cookies', 'web_common/cookiejar.py'), ('CookieJar._do_expiration', 'web_common/cookiejar.py'), ('parse_cookie_date', 'web_common/cookiejar.py'), ('do_domains_match', 'web_common/cookiejar.py'), ('do_paths_match', 'web_common/cookiejar.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real jar is driven side by side with an explicit state model of RFC 6265 under a virtual wall clock.',
    },
    {
        'id': 'C37',
        'title': 'Every socket ends up with exactly one protocol, or closed',
        'statement': (
            'Connecting to a name (`create_connection_to`) tries its addresses in order, each at most once and exactly as resolved, going on when one cannot be used (unsupported family, refused at once or later, no local address to bind), and returns a working connection over the first which succeeds, or raises `OSError` if none does; unix sockets and connections over given sockets alike. '
            'Creating a server binds every address asked for or raises `OSError`; it accepts nothing before it is started and nothing after it is closed, and every connection accepted between is handed over to exactly one new protocol, also if accepting was interrupted meanwhile (too many open files, aborted connections, failing protocol factories). `Server.wait_closed` does not end before `close`, never raises, and ends when the server is closed and its connections are lost. '
            'Whenever connecting or creating a server fails or is cancelled, at any moment, every socket they created is closed and nothing of them stays registered in the event loop. '
            'The socket operations of the event loop (`socket_accept`, `socket_connect`, `socket_receive`, `socket_receive_into`, `socket_send_all`) deliver the data in order and in full, lose none when cancelled, raise what the socket raised, and never block the event loop.'
        ),
        'quantifier': Q('faults cancellations histories', 'every outcome of up to 3 addresses (6 kinds) with every outcome of binding and resolving and every moment of cancellation; every sequence of up to 5 (thorough: 6) of 13 server operations; every plan of up to 4 (thorough: 5) actions of the far side of a socket with every moment of cancellation'),
        'why_tests_cant': 'Which address fails how and when, the moment of cancellation, and the order of connections, errors, closing and waiting decide it; tests connect to a local server once.',
        'anchors': A(
            'scarletio/core/event_loop/event_loop.py scarletio/core/event_loop/server.py scarletio/core/protocols_and_transports/transport_layer.py',
            [('EventThread.create_connection_to', 'core/event_loop/event_loop.py'), ('EventThread._create_connection_transport', 'core/event_loop/event_loop.py'), ('EventThread.create_server_to', 'core/event_loop/event_loop.py'), ('EventThread._accept_connection', 'core/event_loop/event_loop.py'), ('EventThread._accept_connection_task', 'core/event_loop/event_loop.py'), ('EventThread.socket_connect', 'core/event_loop/event_loop.py'), ('EventThread.socket_send_all', 'core/event_loop/event_loop.py'), ('Server.close', 'core/event_loop/server.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real event loop and transports run over stand-in sockets whose outcomes are enumerated.',
    },
    {
        'id': 'C15',
        'title': 'Secure connections deliver what was written and never send it unencrypted',
        'statement': (
            'Over a secure (ssl) connection of the event loop the protocol of either side receives exactly the plain data the other side wrote, in order, whatever the pieces the encrypted stream arrives in, both for clients and servers: while nothing disturbs the connection everything written before closing arrives, also if the socket is blocked for a while or the peer sends data meanwhile. '
            'No byte ever leaves which is not part of the encrypted stream, and none after it is shut down. `connection_made` is called once and only after the handshake succeeded (with the certificate and the host name verified if the context asks for it), nothing is delivered before it, while reading is paused or after `connection_lost`, which is called exactly once: with `None` if either side closed orderly, else with the reason. '
            'Closing is told to the peer and the closing of the peer is acknowledged. A failing handshake (refused certificate, other protocol version, garbage, end, reset) raises from connecting, and a cancelled one is cancelled, with the socket closed and nothing left in the event loop. Writers are paused and resumed as the buffered data passes the limits.'
        ),
        'quantifier': Q('inputs faults histories', 'every position of the handshake stream as cut (thorough; every 7th else), single bytes, faults and cancellation at every piece, both sides, tls 1.2 and 1.3; every sequence of 3-4 (thorough: 4-5) of 16 operations of both sides, settled and tight'),
        'why_tests_cant': 'The ssl layer has no tests; what happens depends on where the records are torn, and on the order of writing, closing, blocking and faults of both sides.',
        'anchors': A(
            'scarletio/core/protocols_and_transports/ssl_transport_layer.py scarletio/core/protocols_and_transports/ssl_pipe.py scarletio/core/event_loop/event_loop.py',
            [('SSLBidirectionalTransportLayer._process_write_backlog', 'core/protocols_and_transports/ssl_transport_layer.py'), ('SSLBidirectionalTransportLayer.data_received', 'core/protocols_and_transports/ssl_transport_layer.py'), ('SSLBidirectionalTransportLayer.close', 'core/protocols_and_transports/ssl_transport_layer.py'), ('SSLPipe.feed_ssl_data', 'core/protocols_and_transports/ssl_pipe.py'), ('SSLPipe.feed_application_data', 'core/protocols_and_transports/ssl_pipe.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real ssl layer, transports and event loop run over stand-in sockets against peers made of the ssl module of python.',
    },
    {
        'id': 'C39',
        'title': 'Http clients reach only the server asked for, the way and as safely as asked',
        'statement': (
            'A request of an http client arrives once, and only at a server reached at an address its host is resolved to and at its port, directly or through the tunnel its proxy opened to exactly that host and port, and over ssl if and only if its scheme (or the one of the proxy) is secure. '
            'Before anything else is sent the certificate of the server is accepted by the ssl context and the ssl fingerprint given for it, the one of the proxy by those of the proxy. The headers and authorization of the proxy reach only the proxy, those of the request only the server. '
            'The addresses are tried one by one, beginning one further each time, till one is usable; a failed handshake fails the request, as when none is usable (`OSError`) or the proxy refuses (`ProxyError` with its status). A connection is used again only for requests with the same host, port, proxy and ssl demands. '
            'A host is resolved once at a time, for all the requests waiting for it, and the result is used for 10 seconds. Whatever fails, or if the request is cancelled, times out or the client is closed at any moment, every request ends, and no socket of a not answered one stays open.'
        ),
        'quantifier': Q('inputs faults histories', 'every combination of outcomes of up to 3 addresses (usable, late, refusing, other certificate, ending or answering garbage during the handshake) x 5 demands on the certificate x 6 proxies x 14 answers of the proxy; an event at every step of connecting; every sequence of 3 (4) requests of 16 demands; every history of 5 (7) requests, outcomes of resolving, changes of the addresses, cancelling, closing'),
        'why_tests_cant': 'Nothing of connecting is tested but with stand-ins of single methods; which addresses, proxies and certificates fail at which moment, and what was resolved before, has too many combinations.',
        'anchors': A(
            'scarletio/http_client/connector_tcp.py scarletio/http_client/connector_base.py scarletio/http_client/host_info_basket.py scarletio/http_client/ssl_fingerprint.py scarletio/http_client/proxy.py scarletio/http_client/connection_key.py scarletio/http_client/client_request.py',
            [('ConnectorTCP.create_direct_connection', 'http_client/connector_tcp.py'), ('ConnectorTCP.create_proxy_connection', 'http_client/connector_tcp.py'), ('ConnectorTCP.resolve_host_iterator', 'http_client/connector_tcp.py'), ('SSLFingerprint.check', 'http_client/ssl_fingerprint.py'), ('ConnectionKey', 'http_client/connection_key.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real client, connector, ssl layers, protocols and event loop run over stand-in sockets and resolving against scripted servers and proxies (ssl ones made of the ssl module of python).',
    },
    {
        'id': 'C25',
        'title': 'Multi value dictionaries lose nothing and ignore the case of keys if told so',
        'statement': (
            'A `MultiValueDictionary` keeps for each key its different values in the order they were added, and its keys in the order they were first added; whatever is added - one by one, at construction from pairs, a dictionary or an other multi value dictionary, with `extend` or `|` - is there once, and the source stays independent. '
            'Getting, `in`, `pop`, `pop_one`, `pop_all`, `popitem`, `del`, `setdefault`, the views, lengths, equality and copies (also pickled or made with the `copy` module) agree with that: the single value operations see the first value and remove only that one, the key ends with its last value, and `kwargs` gives the last values. '
            'For an `IgnoreCaseMultiValueDictionary` keys differing only in case are the same key in all of these (shown as first given). `IgnoreCaseString`-s keep their text, and are equal, not different, and have equal hashes if and only if their case folded texts are equal; they are comparable with anything.'
        ),
        'quantifier': Q('inputs histories', 'every reachable state over 3 (2 + case) keys x 2 values with each of ~80 operations applied in it, from 1 (16) initial dictionaries; every sequence of 2 (3) of all and of 4 (5) core operations; every pair of 23 strings in 10 forms'),
        'why_tests_cant': 'The tests try one or two small dictionaries per method; removing of some values, re-adding, copies and keys given in an other case combine to states no example meets.',
        'anchors': A(
            'scarletio/utils/multi_value_dictionary.py scarletio/utils/ignore_case_multi_value_dictionary.py scarletio/utils/ignore_case_string.py scarletio/utils/dict_iterator_bases.py',
            [('MultiValueDictionary', 'utils/multi_value_dictionary.py'), ('IgnoreCaseMultiValueDictionary', 'utils/ignore_case_multi_value_dictionary.py'), ('IgnoreCaseString', 'utils/ignore_case_string.py')],
        ),
        'technique': STATES,
        'level_note': 'Explicit state exploration of a reference model, every transition executed on the real objects, everything visible compared afterwards.',
    },
    {
        'id': 'C26',
        'title': 'Sorted lists stay sorted, complete and searchable through every operation',
        'statement': (
            'A `SortedList` always holds exactly the elements given to it and not removed, in ascending (or if `reverse`, descending) order: `add` inserts an element or replaces the one equal to it, `extend` (and the constructor) adds every element of any iterable - sorted lists of the same or the other direction, and itself included - without changing it; '
            '`remove` and `pop` take out exactly one element equal to / having the key, if there is one, and otherwise change nothing; `index`, `in`, `count`, `get`, `relative_index` and `keyed_relative_index` find the elements and the places of missing ones; changing `reverse` reverses it. '
            'Copies (`copy`, pickled, of the `copy` module) have the same elements, order and direction and are independent. A failing `extend` or `add` leaves it as it was, and nothing is offered which could break the order.'
        ),
        'quantifier': Q('inputs histories', 'every reachable state of up to 3 (4) elements of 3 keys and 4 identities, in both directions, with each of ~60 operations applied in it; every sequence of 2 (3) of all and of 4 (5) core operations up to 12 elements'),
        'why_tests_cant': 'There are no tests of it at all; the place an element has to go to depends on the whole content, the direction and the source.',
        'anchors': A(
            'scarletio/utils/sorted_list.py',
            [('SortedList.add', 'utils/sorted_list.py'), ('SortedList.extend', 'utils/sorted_list.py'), ('SortedList.relative_index', 'utils/sorted_list.py')],
        ),
        'technique': STATES,
        'level_note': 'Explicit state exploration of a reference model, every transition executed on the real objects, everything visible compared afterwards.',
    },
    {
        'id': 'C36',
        'title': 'Datagrams are sent and delivered whole, once, in order, to the right address',
        'statement': (
            'Each non-empty datagram given to `send_to` of a datagram connection is sent whole, at most once and in order, to the address given, the one the connection was made to otherwise (an other one is refused with `ValueError` then); what the kernel does not take yet is copied and sent when it does, even if the transport is closed meanwhile, but not if aborted. '
            'The protocol is told to pause writing while more is waiting than the limit and to resume afterwards. Each datagram arriving is delivered once, in order, with its source address, till closing; a failing send or receive is reported with `error_received` and loses only that datagram. `connection_made` comes first, `connection_lost` last and once, and then the socket is closed and not watched anymore. '
            'A datagram connection uses the first family in which both the local and the remote address (those which are given) can be bound and connected (with `allow_broadcast` not connected), raises if there is none, and whatever fails or is cancelled leaves no socket open. '
            'A `DatagramAddressedReadProtocol` gives each address its own reader, which gets exactly the data arriving from there; `wait_for_receive` ends with it if and only if data from that (any) address arrived, with `None` at its timeout, and raises if the connection is lost before. A `DatagramMergerReadProtocol` reads all of them as one stream.'
        ),
        'quantifier': Q('inputs faults histories', 'every sequence of 3 (4) of 19 and of 5 (6) of 9 core operations (sends, kernel blocking / refusing, arrivals, limits, closing) x 3 kinds of connections x settled or not x what the protocol does at an error; every sequence of 4 (5) of 13 waiting operations; every local x remote family list x outcome x option x fault x cancellation point'),
        'why_tests_cant': 'There are no tests of datagram connections; blocking, refusals and closing at the same time are up to the kernel.',
        'anchors': A(
            'scarletio/core/protocols_and_transports/transport_layer.py scarletio/core/protocols_and_transports/protocol.py scarletio/core/event_loop/event_loop.py',
            [('DatagramSocketTransportLayer', 'core/protocols_and_transports/transport_layer.py'), ('DatagramAddressedReadProtocol', 'core/protocols_and_transports/protocol.py'), ('EventThread.create_datagram_connection_to', 'core/event_loop/event_loop.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real event loop, transports and protocols run over stand-in sockets under a virtual selector and clock.',
    },
    {
        'id': 'C35',
        'title': 'Structured header values mean the same when written and when read',
        'statement': (
            'Web socket extensions (with their parameters) and sub protocols written by the library are read back as they were, in order. Reading extensions, sub protocols, connection options and upgrades gives exactly the elements which are there and raises `ValueError` for everything which does not fit their grammar (whitespace around and empty elements are allowed). '
            'A `BasicAuthorization` is written as `Basic` and the base64 of `user:password` in its encoding; `from_header` gives an equal one from it (however `basic` is cased), and raises `ValueError` for anything else. '
            '`parse_content_type` never fails: it gives the type, sub type, suffix and parameter names casefolded, the parameter values unquoted, in order, and an error telling where the value stops being well formed if it does; equal content types (and errors) have equal hashes. '
            'From a keep-alive header the valid (finite, not negative) timeout and max are taken wherever they are in it, everything else is ignored. '
            'A content disposition built is well formed, and a standard reader gets the same type, names and values from it, whatever they contain; what can not be represented is refused with `ValueError`.'
        ),
        'quantifier': Q('inputs', 'every header value of up to 6 (7) of 11 symbols (lists), of up to 6 (7) of 13 symbols (content types), every sequence of up to 3 (4) of 25 keep-alive elements, of up to 4 (5) of 14 authorization pieces, every character at every place; every value of up to 3 (4) of 20 letters and every user and password of up to 2 x 2 (3) of 11 letters in 6 encodings written'),
        'why_tests_cant': 'The tests parse a few examples; which strings are accepted or misread is decided by every other one.',
        'anchors': A(
            'scarletio/web_common/header_building_and_parsing.py scarletio/web_common/basic_authorization.py scarletio/web_common/content_type.py scarletio/web_common/keep_alive_info.py',
            [('parse_extensions', 'web_common/header_building_and_parsing.py'), ('BasicAuthorization', 'web_common/basic_authorization.py'), ('parse_content_type', 'web_common/content_type.py'), ('KeepAliveInfo', 'web_common/keep_alive_info.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The functions are pure; every value of the bounded spaces is evaluated and compared with an independent reader of the grammar.',
    },
    {
        'id': 'C28',
        'title': 'Urls mean what was put into them, and never change',
        'statement': (
            'Any text given to an `URL` by `with_user`, `with_password`, `with_query`, `extend_query`, `with_fragment`, `with_name` or `/` is told back by its attributes, and a standard reader of `value_encoded` finds exactly that text at that part (a `/` inside of a name separates parts of the path, `.` and `..` are resolved). `value_encoded` contains only characters which are allowed there. '
            'An url given encoded (`URL(value, True)`) has the scheme (case insensitive), user, password, host, port, path, query and fragment a standard reader finds in it, whatever is percent encoded in it; `URL(url.value_encoded, True)` is equal to the url with the same attributes. '
            'Every operation changes only the part it is for; urls never change after they were created. Equality, hash and ordering are consistent, and follow `value_encoded`. '
            '`quote` gives something from which `unquote` gives back the same; `unquote` decodes every valid escape as utf-8, keeps what is malformed or undecodable as it is and never fails.'
        ),
        'quantifier': Q('inputs', 'every text of up to 2 (3) of 25 letters (separators, spaces, controls, non ascii ones, escapes) at every of 9 places of 4 urls; every combination of any 3 of 5 users, 6 ports, 11 paths, 12 queries and 5 fragments, for each of 11 hosts and 2 (4) schemes; every path of up to 5 (6) of 7 segments with dots; every sequence of 3 (4) of 20 operations, with and without reading between; every text of up to 4 (5) escapes and pieces of escapes'),
        'why_tests_cant': 'The tests build a few urls; which text is encoded wrong, or is lost when decoded, is decided by the others. They passed with `%28` decoding to a space.',
        'anchors': A(
            'scarletio/web_common/url/ scarletio/web_common/quoting.py',
            [('URL', 'web_common/url/url.py'), ('URLPath', 'web_common/url/url_path.py'), ('parse_query', 'web_common/url/url_query.py'), ('quote', 'web_common/quoting.py'), ('unquote', 'web_common/quoting.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'Urls are values without threads or io; every input and every sequence of operations of the bounded spaces is executed on the real code and compared with a standard reader (urllib) and a model.',
    },
    {
        'id': 'C17',
        'title': 'Subprocess streams, exit codes and waits stay right for every order of events',
        'statement': (
            'The streams of a subprocess carry exactly the bytes written, both ways, in order, and each output stream ends once, after its last byte. '
            'Every `wait` and `communicate` (also several at once, with a timeout, or after others were cancelled) ends when the process exits, with its exit code (and `communicate` with its whole output), or with a timeout error at its timeout. '
            'The process gets signals only if it is asked for (`send_signal`, `terminate`, `kill`, `close`), never because it closed its input or its output, and never after it ended. '
            '`drain` ends once the input was taken or lost. `return_code` and `poll` tell `None` while the process runs and its exit code afterwards. '
            'After the process ended and its pipes are closed nothing is left open or watched by the event loop, and no exception escapes into the loop. This holds whatever the process and its user do, in which order and at which moment.'
        ),
        'quantifier': Q('histories', 'every sequence of up to 3 (4) of 26 actions of the process and of its user over 5 pipe configurations, with the loop running between them or not, the exit told early or late, the ready pipes handled in both orders; every action also while the process is being connected'),
        'why_tests_cant': 'The tests run a handful of real processes to their end, where the order of exit, end of output, writes and waits is whatever the machine did.',
        'anchors': A(
            'scarletio/core/subprocess/subprocess.py scarletio/core/subprocess/subprocess_protocols.py scarletio/core/subprocess/subprocess_writer.py scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py scarletio/core/event_loop/event_loop.py',
            [('AsyncProcess', 'core/subprocess/subprocess.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real AsyncProcess, protocols and pipe transports run on a controlled loop; pipes, processes and signals are stand-ins whose every event is chosen by the enumeration.',
    },
    {
        'id': 'C23',
        'title': 'Name resolution reads addresses, names and messages right and survives bad ones',
        'statement': (
            'A string is read as an ip v4 or v6 address exactly if it is one, with its value; the strings produced from values are read back as them, and their reversed names are the standard ones. '
            'The name built from any labels is read back as the same labels; bad names are refused with `ValueError`. '
            'Every dns message is read as what it contains (compressed names expanded), every malformed one (also with pointer loops) ends as a response parsing error, never anything else; queries built are read by others as they were meant. '
            'Invalid lines of the resolver configuration file are skipped, the others take effect. '
            'Resolving an address or a name asks the name servers one after the other over the configured transport until one answers, up to the number of attempts: it gives exactly the addresses (or name) told by that one, and ends with a resolution error if none answered or nothing is known. '
            'This holds whatever the servers do (refuse, never answer, cut the connection, send malformed or foreign answers, aliases, records of other types); it takes no longer than the timeouts of the ones which do not answer, and leaves no connection open. Hosts which are addresses are resolved without asking.'
        ),
        'quantifier': Q('inputs histories', 'every combination of 25 octets, of up to 5 (6) of 9 groups, every pattern of up to 10 empty groups; names of up to 5 (6) of 11 characters, labels of up to 5 (6) of 14 bytes, every byte; message bodies of up to 5 (6) of 12 bytes, messages of up to 5 questions and records in every compression, each cut and damaged at every byte; every sequence of 14 behaviours for up to 4 (5) connections to the name servers over 24 configurations'),
        'why_tests_cant': 'The tests read a few well formed messages and play a few answers; pointer loops, odd bytes, and which server fails how at which query are beyond them.',
        'anchors': A(
            'scarletio/dns_query/helpers.py scarletio/dns_query/building_and_parsing.py scarletio/dns_query/requests.py scarletio/dns_query/resolve_configuration.py',
            [('parse_result_data', 'dns_query/building_and_parsing.py'), ('get_address_info_async', 'dns_query/requests.py'), ('parse_ip_string', 'dns_query/helpers.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real functions are run; messages are compared with an independent reader and writer, addresses with the `ipaddress` module; name servers are stand-ins whose every behaviour is enumerated.',
    },
    {
        'id': 'C30',
        'title': 'A streamed zip archive contains exactly the given files',
        'statement': (
            'The archive produced by streaming any files (any amount, also more than 65535; of any size, also over 4 GB; stored or deflated; their content arriving in any pieces, as bytes, bytearrays or memoryviews) is read by independent readers as exactly those files, in order: '
            'name, compression method, content and its check sum, and date (with 2 seconds resolution; the nearest representable if it is out of range). '
            'By default a name is kept if it was not used before in the archive, else it is changed only by an index so that all of the names are distinct. '
            'The content of a file is read only when its turn comes, its pieces are streamed before the next ones are asked for; its errors reach the reader of the stream, and what was streamed till then is not a complete archive. '
            'A stream resource can be read more times, also at the same time: each reader gets the whole archive.'
        ),
        'quantifier': Q('inputs histories', 'every sequence of up to 3 (4) of 28 names and up to 6 (7) of 8 names; every file of 9 names, 8 contents, 2 compressions and 9 dates, every 2 and 3 of them of 16 and 8 kinds, every field of dates; 0, 65534, 65535 and 65536 files, files over 4 GB; every order of up to 10 (14) steps of two readers; every point of failing and abandoning'),
        'why_tests_cant': 'The tests compare a few archives byte by byte and 3 lists of names; which names collide, limits of the format, and overlapping readers are beyond them.',
        'anchors': A(
            'scarletio/streaming/zip_streaming/zip_stream.py scarletio/streaming/zip_streaming/name_deduplication.py scarletio/streaming/zip_streaming/file_state.py scarletio/streaming/zip_streaming/compression.py scarletio/streaming/resource_streaming/resource_stream.py',
            [('stream_zip', 'streaming/zip_streaming/zip_stream.py'), ('name_deduplicator_default', 'streaming/zip_streaming/name_deduplication.py'), ('ResourceStream.__aiter__', 'streaming/resource_streaming/resource_stream.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real generators are stepped by hand; archives are read by a strict reader written from the specification (every byte is accounted for) and by the `zipfile` module.',
    },
    {
        'id': 'C34',
        'title': 'Asynchronous files act as the files they wrap; reusable ones can be read again',
        'statement': (
            'Every operation of an asynchronous file (opened or wrapped; binary, text, unbuffered; read, written, moved in, iterated, truncated, detached) gives the same result, error, file content and attributes as the same operation on the file itself, '
            'in the order the operations were started, also if they overlap; one which is cancelled before it is executed has no effect. '
            'Closing (also by leaving a `with` block, by not using the file anymore, or if it fails) closes the wrapped file; everything after it is refused. The executor used is released exactly once, when the file is closed or detached, or could not be opened, never before. '
            'Closing a reusable file or reusable bytes instead moves back to the start: the next operation (not the ones started before) sees it from there, so it can be sent as a payload any times, each time whole, also if reads are short; leaving a `with` block or closing them for real does close them. '
            'Reusable bytes are as long as, and give back exactly, what was written since the last time they were switched from reading to writing.'
        ),
        'quantifier': Q('histories schedules inputs', 'every sequence of up to 3 (4) of up to 20 operations in 9 modes of opening; every sequence of 5 (6) of starting operations, executing, cancelling and closing; every sequence of up to 5 (6) of turns, execution and cancellation while opening in 8 ways; every sequence of up to 4 (5) of 18 and 6 (8) of 7 operations on reusable bytes'),
        'why_tests_cant': 'There are no tests of these. Which operations overlap, are cancelled or fail at which point is beyond a handful of examples.',
        'anchors': A(
            'scarletio/core/ios.py scarletio/web_common/multipart.py',
            [('ReuBytesIO', 'core/ios.py'), ('AsyncIO', 'core/ios.py'), ('ReuAsyncIO', 'core/ios.py'), ('AsyncIOPayload.write', 'web_common/multipart.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real classes run on the real loop and on real files in a scratch folder; each operation is done on a second file too, as the model. The executor is a stand-in which executes when the harness decides.',
    },
    {
        'id': 'C33',
        'title': 'The asyncio compatible primitives, queues and waiting act as those of asyncio',
        'statement': (
            'A program using Lock, Event, Condition, Semaphore, BoundedSemaphore, Barrier, Queue, LifoQueue, create_task, sleep, wait, gather, wait_for, as_completed, shield or timeout of `scarletio.ext.asyncio` sees, whenever everything which can go on did so, exactly what it sees with the asyncio of the standard library: '
            'the same users got on, in the same order, with the same results, exceptions and cancellations, and the primitives tell the same about themselves. So nothing is acquired by more users than allowed, no wake up, release, element or notification is lost when the one it was for is cancelled, users are served in order of arrival, '
            'misuse (releasing or notifying what is not held, taking from an empty or putting into a full queue without waiting, releasing a bounded semaphore too often) is refused with the same type of exception, results of gather are in the order of the parameters, wait returns when and what it was told to wait for, '
            'and a timeout turns into TimeoutError exactly if it expired while its block was still running. Also if several of these happen in the same instant, the outcome is one which asyncio gives for some order of letting the users go on.'
        ),
        'quantifier': Q('histories schedules', 'every sequence of up to 5 (6) of 5-8 operations of up to 3 users (conditions: 4 (5) of 14) on each primitive, each compared after every operation; every sequence of 4 (5) whose last 2 or 3 are done at once; every sequence of up to 4 (5) of 13 completions, failures, cancellations and steps of time for 20 ways of waiting for 3 futures; nested timeouts with 80 combinations of times and bodies'),
        'why_tests_cant': 'Which user is cancelled, notified or released at which point, while which others wait, decides whether a wake up is lost; the tests of it try a few orders.',
        'anchors': A(
            'scarletio/ext/asyncio/asyncio.py',
            [('Condition.wait', 'ext/asyncio/asyncio.py'), ('Semaphore.acquire', 'ext/asyncio/asyncio.py'), ('Barrier', 'ext/asyncio/asyncio.py'), ('gather', 'ext/asyncio/asyncio.py'), ('wait', 'ext/asyncio/asyncio.py'), ('Timeout', 'ext/asyncio/asyncio.py'), ('Queue', 'ext/asyncio/asyncio.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The extension runs on the real loop of scarletio; the model is the asyncio of the standard library itself, its pure python parts loaded under an other name on a loop with virtual time; both run the same program in step. Left out: giving gather the same future twice, the order of what is already done for as_completed, what as_completed does to what did not complete in time, counted cancel requests, what is not implemented by the extension.',
    },
    {
        'id': 'C40',
        'title': 'The asyncio compatible streams act as those of asyncio',
        'statement': (
            'A StreamReader of `scarletio.ext.asyncio` returns the same bytes, ends and failures (incomplete reads with what there was, overrun limits with how much, exceptions set, a second reader at once) as the one of asyncio for every way the data, its end or a failure arrives, every mix of read / readline / readuntil / readexactly / iteration and every cancellation of them, '
            'and pauses and resumes its transport at the same points. A StreamReaderProtocol and its StreamWriter give data, end and loss of the connection to the reader, call the callback of the connection once with both, drain only when writing is not paused and let everyone draining go on (or fail) when it is resumed (or lost), '
            'tell wait_closed how the connection ended, and hand over to the transport exactly what is written.'
        ),
        'quantifier': Q('histories schedules inputs', 'every sequence of 3 (4) of 23 operations and of 5 (6) of 9 on readers with limits 1 - 100 and transports which can / cannot be paused, compared after each; of 3 (4) of 17 and 5 (6) of 10 on connections with and without callback; the same with the last 2 or 3 operations done at once'),
        'why_tests_cant': 'There are no tests of these. How data is cut compared to the limit, the separators and the reads, and when cancellations come, are the cases which matter.',
        'anchors': A(
            'scarletio/ext/asyncio/asyncio.py',
            [('StreamReader', 'ext/asyncio/asyncio.py'), ('StreamReaderProtocol', 'ext/asyncio/asyncio.py'), ('StreamWriter', 'ext/asyncio/asyncio.py'), ('FlowControlMixin', 'ext/asyncio/asyncio.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'As C33: the same program is run on the extension and on the asyncio of the standard library in step, over stand-in transports recording the calls. Starting tls on a writer and failing callbacks are left out.',
    },
    {
        'id': 'C31',
        'title': 'Operations on plain sockets transfer everything once and stop watching',
        'statement': (
            'The operations of the event loop on a plain non-blocking socket (socket_receive, socket_receive_into, socket_send_all, socket_accept, socket_connect; sock_sendto, sock_recvfrom and sock_recvfrom_into of the asyncio extension), with at most one of them in progress in each direction, '
            'end as soon as the kernel lets them, with exactly what it gave: received data in order, at most as much as asked for, into the first bytes of the buffer only; every connection accepted once, non-blocking; datagrams with their sender; the failures of the kernel as they are. Sending ends once everything was taken, '
            'in order, once. A cancelled operation ends as cancelled, takes nothing from the kernel afterwards, and does not disturb the operation started after it. The socket is watched by the loop for exactly those directions in which an operation waits.'
        ),
        'quantifier': Q('histories schedules inputs', 'every sequence of operations, kernel events (data, end, failure, room, connections, datagrams) and cancellations: 5 (6) of 14 on a stream, 7 (8) of 4 on a listening, 6 (7) of 6 on connecting, 5 (6) of 13 on a datagram socket; the same with the last 2 - 4 done at once'),
        'why_tests_cant': 'What waits, what is cancelled and what the kernel does in between are histories; the existing tests only do single operations over connections which work.',
        'anchors': A(
            'scarletio/core/event_loop/event_loop.py scarletio/ext/asyncio/asyncio.py',
            [('EventThread.socket_receive', 'core/event_loop/event_loop.py'), ('EventThread.socket_send_all', 'core/event_loop/event_loop.py'), ('EventThread.socket_accept', 'core/event_loop/event_loop.py'), ('EventThread.socket_connect', 'core/event_loop/event_loop.py'), ('EventThread.sock_recvfrom', 'ext/asyncio/asyncio.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real loop and operations over stand-in sockets (level triggered readiness); the stand-in kernel is the ground truth. Several operations in the same direction at once are left out.',
    },
    {
        'id': 'C32',
        'title': 'Event loops give results back, finalize generators and are found while running',
        'statement': (
            'What is run on an event loop from a thread (EventThread.run with a coroutine, task or future, with or without a timeout; of the asyncio extension run_until_complete, asyncio.run, Runner.run) returns its value or raises its exception to who ran it, after it ran to its end once, on that loop; from inside of a loop running is refused. '
            'Loops made for one run, or owned by a runner, have ended when the run or closing is over; stopping ends a loop. An asynchronous generator iterated on a loop is finalized exactly once, completely, on that loop: when it is used up, closed, cancelled, or dropped in any thread, its `finally` blocks may await; '
            'shutting the asynchronous generators down closes those which are suspended and ends when they ended, and a failing one disturbs nothing else. The event loop given to a thread is the loop itself inside of a loop, else the one linked to the thread if it runs, else some running non-daemon one, and else nothing.'
        ),
        'quantifier': Q('histories schedules inputs', 'every history of one generator of 5 kinds with 3 places of dropping: 6 (7) operations; of two generators of pairs of kinds: 5 (6) operations; every pair of 12 outcomes run after each other through 11 interfaces; every history of 4 (5) operations of creating, linking, getting and stopping loops by two threads'),
        'why_tests_cant': 'Whether a generator is finalized depends on when, where and in which state it is dropped, next to what else is being shut down; the existing tests do not drop generators on loops, nor run loops after each other.',
        'anchors': A(
            'scarletio/core/event_loop/event_loop.py scarletio/core/event_loop/event_loop_functionality_helpers.py scarletio/core/event_loop/event_thread_type.py scarletio/core/top_level/event_loop.py scarletio/ext/asyncio/asyncio.py',
            [('EventThread.caller', 'core/event_loop/event_loop.py'), ('EventThread.shutdown_async_generators', 'core/event_loop/event_loop.py'), ('get_event_loop', 'core/top_level/event_loop.py'), ('run', 'ext/asyncio/asyncio.py'), ('Runner', 'ext/asyncio/asyncio.py')],
        ),
        'technique': STATES,
        'level_note': 'The real loops in their real threads; each operation is followed by letting the loops become idle, so histories are enumerated, not interleavings (those are C10). The model of generators is replayed operation by operation on the real ones.',
    },
    {
        'id': 'C41',
        'title': 'Highlighting python code shows exactly the code, with each token in its detail',
        'statement': (
            'Whatever text is highlighted, parsing it ends and gives tokens which are contiguous, in order, at the right line and character positions, and joined are the text: nothing is lost, added or moved. '
            'What is streamed of it - without a formatter, with ANSI codes, as HTML - shows exactly the text, each character with the detail of its own token, escaped where needed, and the output ends in the state it started in. '
            'Of valid python the nesting which is reported is exactly that of its braces and strings (formatted strings and their fields too).'
        ),
        'quantifier': Q('inputs', 'every sequence of 3 (4) of 31 lexical pieces, 5 (6) of 11 nesting, 5 (6) of 11 line and 5 (6) of 9 brace pieces; every triple (quadruple) of 28 kinds of ANSI details with and without gaps'),
        'why_tests_cant': 'The highlighter gets whatever is typed in the console or found in broken files; the tests sample well formed constructs one by one, while texts are lost where constructs are unfinished and nested.',
        'anchors': A(
            'scarletio/utils/highlight/utils.py scarletio/utils/highlight/matching.py scarletio/utils/highlight/parser_context.py scarletio/utils/highlight/highlight_streamer.py',
            [("get_highlight_parse_result", "utils/highlight/utils.py"), ('HighlightParserContext', 'utils/highlight/parser_context.py'), ('get_highlight_streamer', 'utils/highlight/highlight_streamer.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'Structure is judged against tokenize and ast on the sequences which are valid python; output against models of a terminal and of a browser.',
    },
    {
        'id': 'C42',
        'title': 'Tracebacks tell every frame and reason, and rendering them always ends',
        'statement': (
            'What is rendered of an exception has each of its frames, in order (repeated ones folded with the right counts, so however deep a recursion without runs of the same frame in itself is, as much is shown; minus those which are filtered), with the line of the file as it is now, whole braces and strings reaching over the end of the line included. '
            'Each exception leading to it - causes, contexts which are not suppressed, groups of causes - is rendered once per place, in order, with the title telling how it led to the next one; exceptions which are each others reasons do not make it endless. '
            'Rendering neither fails nor hangs, whatever the exceptions, their parameters, the instances whose attributes were looked up and the variables around are doing; attributes which are suggested exist; syntax errors are pointed at where python points at.'
        ),
        'quantifier': Q('inputs histories', 'every sequence of 6 (8) frames of 4 kinds, 9 (11) of two, with filters; prefix + cycle + suffix of up to 2 + 3 + 2 (3 + 4 + 3) frames; every reason graph of 3 (4) exceptions, with groups of causes too; every line of every file of 3 (4) of 17 pieces; histories of 4 (5) changes of a file; every sequence of 3 (4) of 18 pieces which is not python; 18144 details of syntax errors; 15 kinds of exceptions x 33 values; attribute errors of 33 values x 12 names x 33 variables'),
        'why_tests_cant': 'Tracebacks are rendered when something already went wrong: the combinations of reasons, repeated frames, broken files and odd objects are not what anyone samples, and a failing or endless rendering hides the original exception.',
        'anchors': A(
            'scarletio/utils/trace/trace.py scarletio/utils/trace/frame_grouping.py scarletio/utils/trace/frame_group.py scarletio/utils/trace/repeat_strategies.py scarletio/utils/trace/rendering.py scarletio/utils/trace/expression_parsing/expression_info.py scarletio/utils/cause_group.py',
            [('render_exception_into', 'utils/trace/trace.py'), ('group_frames', 'utils/trace/frame_grouping.py'), ('get_expression_info', 'utils/trace/expression_parsing/expression_info.py'), ('get_exception_representation', 'utils/trace/exception_representation/selection.py'), ('CauseGroup', 'utils/cause_group.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'Real exceptions and tracebacks (their links are made up); whole outputs are compared with independent models of reasons and of extents by tokenize, and with the marks of python.',
    },
    {
        'id': 'C43',
        'title': 'What is told about a callable is what calling it does',
        'statement': (
            'Analyzing any callable - function, method, class method, callable object, type with constructor or initializer - tells each of its parameters: in order, with its kind, default, annotation and whether it is filled in already. '
            'As many positional arguments are told to be accepted as calling it accepts; whether any positional or keyword argument is taken, whether it is async (or an async generator), or becomes such once instanced, is told as it is. '
            'Two callables match if and only if these are the same. Callables which can be called with one argument, and only those, can be added to a cycler.'
        ),
        'quantifier': Q('inputs', 'every signature of up to 4 (5) named parameters: positional only, positional, keyword only, which of them have default, *args, **kwargs, with and without annotations; 9 kinds of callables x 4 flavors; every pair of those of up to 2 (3) parameters being matched'),
        'why_tests_cant': 'Whether callbacks are accepted or refused depends on the shape of their signature; the odd shapes (defaults in the middle, reserved parameters with defaults) are written by users, not by tests.',
        'anchors': A(
            'scarletio/utils/analyzer.py scarletio/utils/async_utils.py scarletio/utils/method_like.py scarletio/core/event_loop/cycler.py',
            [('CallableAnalyzer', 'utils/analyzer.py'), ('RichAnalyzer', 'utils/analyzer.py'), ('is_coroutine_function', 'utils/async_utils.py'), ('to_coroutine', 'utils/async_utils.py'), ('CyclerCallable', 'core/event_loop/cycler.py')],
        ),
        'technique': SEQUENCES,
        'level_note': 'The real analyzer on callables built from source; the oracle is python: what calling them accepts and returns, and `inspect.signature`.',
    },
]
