HOW = {}


def how(pid, text):
    HOW[pid] = " ".join(text.split())


how("C01", """In an abstract world of one loop, tasks, futures, threads, locks
and queues (sa/rules/world.py), an entrypoint with services in every state is
entered, its body ends in every way and it is left; stop() of each service
returns, raises, hangs or is cancelled. At the end a release checklist (stop
called and ended per started service, tasks cancelled and awaited, async
generators closed, own loop and pool closed, context closed) must be
complete.""")
how("C02", """Same world; receivers of the four signals log their arguments.
The log of every run must match pre-start, starts, post-start, body, pre-stop,
stops, post-stop, once each, whatever the services do.""")
how("C03", """Same world; start() ends, raises, reports readiness first or
never ends. start_services() must come back exactly for the first three, give
the error of the second, and the start which goes on is cancelled with the
entrypoint.""")
how("C04", """Same world; the handler given for the signal is called from
outside of the loop in every phase; what it does is only call_soon_threadsafe;
what that runs ends in loop.stop() for the outcomes done, failed and timed out
of the shutdown, the wait is bounded by the configured time.""")
how("C05", """In an abstract world of one loop, tasks, futures, threads, locks
and queues (sa/rules/world.py), jobs are submitted and the threads are run at
every later step; the function returns, raises Exception or BaseException, or
gives an awaitable; its future has exactly that outcome, set from the loop it
belongs to and never from the thread.""")
how("C06", """Same world; threads take jobs which fail in every way, whose
future was cancelled meanwhile, whose loop was closed; each thread must still
take the job submitted afterwards, and all end once the pool is shut down.""")
how("C07", """Same world; shutdown() with pending, running and done jobs and
submissions before, while and after; every future ends, a later submission is
refused, the join is bounded.""")
how("C08", """Same world; contexts are tokens made by copy_context() and
remember who made them and when; the token a job runs in must be one made by
the submitting caller during the call.""")
how("C09", """Same world; a thread waits for a coroutine whose outcome is each
of value, falsy value, exception, cancellation; it is woken by every outcome
and gets exactly that.""")
how("C10", """Thread, channel and consumer run against each other in the
abstract world of C05: the generator yields None, False, 0, an exception
object and an ordinary one, then ends or raises (five kinds); sizes none, 1, 2,
3; the thread runs before, between or right after the consumer's looks at the
channel; consumers are cancelled while they wait, the iterator is closed
before it was started, while the channel is full, or dropped. The items and
the end which arrive, how far the thread is ahead, and what has ended when
close() returns are compared with the expected ones."""
)
how("C11", """A cooperative world (sa/rules/coop.py): callers are started one
by one; where a caller waits, the steps of its plan happen: others call, time
passes, it is cancelled. About 40 such scenarios with 1-4 callers and the
limits 1, 2, 3 and none, for both decorators; the executed batches and every
outcome are compared with the expected ones.""")
how("C12", """All outcome sequences of the wrapped function (result, listed
exception, other, BaseException, cancelled, falsy exception) up to a fixpoint
of the abstract counters with max_tries symbolic and pinned to small values;
pauses and deadlines are found by what they bound.""")
how("C13", """Each state of the breaker with every call outcome, inspector
answer and clock relation; the counters are exact; transitions outside of the
documented automaton are violations; the clock values are symbolic with all
orders against the deadlines. The arithmetic of the ratio is not decided
(N01).""")
how("C54", """Histories of sync calls with the clock put to given times are
followed through the constructor, the window, the state machine and the
decorator-less call; the window is an exact sequence of counters (a model of
deque with its limit), so every branch is decided. Oracle: what the history
must end in (broken, not broken, every call made). A history with more than one
outcome is left undecided.""")
how("C14", """Scripts of answers of the strategy (delay, negative, wrong type,
skip, stop, error), outcomes of the callback and the moment of a cancellation,
played against the code in the cooperative world; the log of calls, delays and
tasks is compared with the one the script demands.""")
how("C15", """Histories of start and stop of up to three operations in the
cooperative world, for both wrappers (periodic, cron).""")
how("C16", """The cooperative world: users enter, wait, leave, are cancelled;
at each creation and check of an instance others act. Tokens of instances are
followed: what exists, what len() tells, who owns what. Each of some 50
scenarios ends with a probe: maxsize users find an instance, one more
waits.""")
how("C17", """The same scenarios plus bodies which end in every way and ages
around the recycle time; an instance handed out must have passed its check
since it was given back, belongs to nobody else and was not destroyed; what is
too old is destroyed, what is young is kept.""")
how("C18", """The same scenarios, followed by the tasks of the pool and
close(): each instance ever created is destroyed exactly once, for every
failing or hanging destruction; no task of the pool is left.""")
how("C19", """Client handler explored against a model of the stream: greeting
kinds, responses, EOF, reset, pickling errors; tasks with pending, done and
cancelled futures.""")
how("C20", """Greeting variants against the client handler; the worker's main
against a model of the server; taint: a job may be sent only after the HMAC
comparison succeeded on the received digest.""")
how("C21", """close() with failing or slow server close, pinned handlers,
submissions and futures.""")
how("C22", """Byte-counting interpretation of both protocol ends with
symbolic payloads of pinned lengths and partial reads; supervisor explored
with exit codes {0, other, signal}: living and reaped processes, exit hooks
and the signals they send are tracked.""")
how("C23", """Context of a loop with up to two sets and two waiters, all
orders, waiters cancelled.""")
how("C24", """Two awaitables, each of their outcomes and orders, all option
combinations, cancellation of select().""")
how("C25", """cancel_tasks with pinned tasks/futures in all states; decorators
with opaque functions (coroutine, plain, awaitable results).""")
how("C26", """Every public method of the three file classes is run with
symbolic arguments; effect analysis: which blocking calls are made, in which
executor, with what arguments, and what is returned.""")
how("C27", """Signal with pinned receivers; connecting before/after freeze;
plain functions refused; copies.""")
how("C28", """Start, up to two clients, stop, in all orders, for TCP, UDP, TLS
servers, with and without a reason, coroutine and plain handlers; ledger of
client tasks, sockets and TLS options.""")
how("C29", """Connection outcomes {ok, OSError, other, cancelled} up to three
attempts, handler outcomes, for TCP and TLS, plain and robust clients.""")
how("C30", """Constant propagation of the options to the attributes of the
SSL context in all combinations of purpose, verify, require, CA present.""")
how("C31", """start(); stop() of periodic, cron, profiler and memory tracer
services with failing callbacks; the reports are run as callbacks, in a thread
or not, with failing dumps; constructor arguments of the carbon client.""")
how("C32", """start(); stop() for aiohttp, ASGI, uvicorn and gRPC services,
with failing stops; every option, handler and port is a distinct token that
must arrive at the foreign server object.""")
how("C33", """Lifecycle events against a log of notifications; the timer's
interval is followed to half of WATCHDOG_USEC.""")
how("C34", """Symbolic strings made of distinct labels (depth 3), zones and
records pinned, every relation of query name, zone and record.""")
how("C35", """Requests over UDP and TCP against model streams with partial
reads; failures of the store and of the parser.""")
how("C36", """emit/flush/close and the thread's loop against a queue model
{ok, full, empty}; target that raises; up to four records.""")
how("C37", """basic_config with all option combinations, the registered
finalizers are run afterwards.""")
how("C38", """Parent and child side with a model of multiprocessing; process
states; respawning.""")
how("C39", """submit with outcomes of the future; counter ledger.""")
how("C40", """Exact model of counters with two metrics, two instances.""")
how("C41", """All families and option lists; order of calls on the
socket.""")
how("C42", """Abstract runs of the three transports, keepalive or not, one or two
workers: up to three events whose requests end in {200, 429, 500, error}, run
before or after close(), with a full queue, after close(), during a request;
every event's callbacks are counted. RavenSender's start() and stop() against a
model of raven client and root logger with distinct tokens; close() also ends early.""")
how("C43", """Abstract runs of creation, attribute access, assignment,
state and restoration with distinct tokens, None and False; every service class
of the project is created with an unknown keyword argument; __new__ of the
metaclass with every combination of plain and coroutine functions.""")
how("C44", """Model of asyncio's policy, current and running loop, of thread
pools, context variables, log configuration and signal handlers; every option is
a distinct token that must arrive; nothing may be recorded when a loop runs.""")
how("C45", """The abstract world of C01: what the stops receive and what
leaves the exit is compared with the outcome of the body and of the stops.""")
how("C46", """Every form of the decorators with distinct tokens for function,
arguments, executor and options in the world of C05; the function returns,
raises Exception or BaseException or is a coroutine or generator function.""")
how("C47", """Pools of 1, 2, 3, 5 and 8 workers in the world of C05: the number
of started threads is compared with the number of unfinished jobs after every
submission.""")

how("C48", """The constructor, start(), the supervisor's main and the worker's
entry run as one program: what the pool pickles into the pipe is what the
supervisor unpickles. Pools of 1, 2 and 3 workers, initializers that succeed,
raise Exception or BaseException, fork() returning twice, processes dying in
any order, a pool closed while its supervisor is being started.""")
how("C49", """create() of each of the 21 record classes with distinct tokens,
with and without ttl; the arguments of the data's constructor, the fields of
the record and of the resource record are compared with the tokens. The hash of
each class is run on data which has exactly the attributes dnslib gives it.""")
how("C50", """create_logging_handler() with every member of LogFormat, with and
without a date format, in front of recording constructors; format() on a
record whose level is in no table; the hook of the loop on ten combinations of
exception, future and task (pending, cancelled, failed), each alone and with
every other key of a context.""")

how("C51", """start() and the repeated callbacks of the three services run
with recording stand-ins for tracemalloc, pstats, PeriodicCallback and aiocarbon;
the snapshot compared, the grouping, order, limit, path, interval, namespace,
protocol and storage are compared with the tokens the service was made with.""")
how("C52", """setup_plugins() runs over three plugins of which each in turn
fails to load or to be set up, with and without the environment variable; the
log of loads and setups is compared with the list of plugins.
entry_pont_iterator() runs for each of the shapes of importlib.metadata.""")

how("C53", """A loop over chunk_list() runs for lists and iterators of zero to
five elements (None, False, 0 and "" among them) and four sizes; the contents of
each chunk are taken down when it is handed out and compared with the input, and
again at the end to see that no chunk was reused.""")
