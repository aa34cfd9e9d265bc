"""The properties: texts, anchors and the rules that decide them."""
PROPS = []
NOT_APPLICABLE = []

SCH = "schedules"
CR = "crash_points"
INP = "inputs"
PRG = "programs"
HIS = "histories"
CFG = "configurations"
FLT = "fault_sequences"


def prop(pid, title, statement, over, quant, why, files, mech, rules,
         technique, note, state=None):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(
        id=pid, title=title, statement=" ".join(statement.split()),
        over=over, quant=" ".join(quant.split()),
        why=" ".join(why.split()), files=files,
        mech=[tuple(m) for m in mech], rules=rules, technique=technique,
        note=" ".join(note.split()), state=state or []))


def na(pid, title, statement, over, quant, why, files, mech, reason):
    prop(pid, title, statement, over, quant, why, files, mech, [], "", "")
    PROPS.pop()
    NOT_APPLICABLE.append(dict(
        id=pid, title=title, statement=" ".join(statement.split()),
        over=over, quant=" ".join(quant.split()),
        why=" ".join(why.split()), files=files,
        mech=[tuple(m) for m in mech], reason=" ".join(reason.split())))


TS = "path-sensitive typestate analysis of the inlined flow graph"
BOUND = ("Decided on every path of the flow graph inlined to depth 10-14; "
         "loops are summarised by a fixpoint over abstract states; library "
         "calls follow the documented contracts in sa/interp.py. ")

# ---------------------------------------------------------------- entrypoint
prop(
    "C01", "Leaving an entrypoint releases everything it started",
    """However the body of an entrypoint ends (normally, with an exception, or
    while services fail or are cancelled during their stop), every service is
    asked to stop and its stop is awaited to the end, the remaining tasks of a
    loop the entrypoint owns are cancelled and awaited afterwards, then async
    generators are shut down, and the owned loop is closed; a loop it does not
    own never is. The OS signal handlers found at the start are put back - and
    are still there when the start fails - the context is closed and an
    entrypoint's own thread pool is shut down on all of these paths, a
    cancelled shutdown included.""",
    [SCH, FLT, HIS], """every combination of failing, slow and cancelled
    services, every way the body ends, every loop ownership""",
    """The tests stop a few well behaved services; a failing stop, a
    cancellation in the middle of the shutdown or a foreign loop occur in one
    sample each or not at all.""",
    ["aiomisc/entrypoint.py", "aiomisc/utils.py", "aiomisc/context.py"],
    [("shutdown order", "Entrypoint.__aexit__/graceful_shutdown"),
     ("loop close", "Entrypoint.__exit__"),
     ("cancel and await", "utils.cancel_tasks")],
    ["entrypoint.shutdown"], TS, BOUND + "Services, receivers and tasks are "
    "opaque callables that may return, raise or be cancelled at every await.")
prop(
    "C02", "Lifecycle signals bracket the start and stop of services",
    """The pre-start signal is delivered before any service starts and the
    post-start signal after all of them were started; the pre-stop signal
    before any service is stopped and the post-stop signal after every stop
    ended. Once a "pre" signal was sent its "post" signal is sent exactly
    once with the same entrypoint and services, failing services included.
    Every entrypoint has its own copies of the four signals, to which nothing
    can be connected while it runs.""",
    [FLT, SCH, CFG], """every set of services and every subset of them that
    fails or is cancelled while starting or stopping""",
    """Tests check the order for services that succeed; failing or cancelled
    services are what makes a post signal disappear.""",
    ["aiomisc/entrypoint.py", "aiomisc/signal.py"],
    [("start", "Entrypoint.start_services"),
     ("stop", "Entrypoint.stop_services")],
    ["entrypoint.lifecycle"], TS, BOUND)
prop(
    "C03", "Starting a service waits for readiness and never loses the service",
    """An entrypoint considers a service started only when its start() ended
    or it announced its readiness, an exception of start() is raised to the
    caller, and a start() that goes on running in the background is kept and
    cancelled at shutdown. A service is registered for being stopped before
    its start() runs, so whatever happens during the start it will be
    stopped. The start_event of a started service is set; one started again
    gets a new one.""",
    [SCH, FLT], """every interleaving of start(), the readiness event and
    failures or cancellation""",
    """Tests use services whose start() returns at once or announces
    readiness immediately; the races between the two need chosen schedules.
    """,
    ["aiomisc/entrypoint.py", "aiomisc/service/base.py"],
    [("start protocol", "Entrypoint._start_service / start_services"),
     ("readiness", "Service.start_event")],
    ["entrypoint.start", "entrypoint.background"], TS, BOUND)
prop(
    "C04", "An OS signal shuts the loop down gracefully within a bounded time",
    """A configured OS signal only schedules work on the running loop from the
    signal handler; there it starts a graceful shutdown bounded by the
    configured timeout and the loop is stopped on every outcome of it. The
    process exits with an error only when the shutdown timed out.""",
    [SCH, FLT], """every point at which a signal arrives and every outcome
    (done, failed, timed out) of the shutdown""",
    """Signals at chosen points and failing shutdowns are not sampled by the
    tests.""",
    ["aiomisc/entrypoint.py"],
    [("handler", "Entrypoint._on_interrupt_callback / _on_interrupt")],
    ["entrypoint.interrupt"], TS, BOUND)

# -------------------------------------------------------------------- threads
prop(
    "C05", "Every job submitted to a thread settles its future exactly once",
    """Whatever a function submitted to the thread pool or to a new thread
    does - return a value or raise any exception, BaseException included - the
    future handed to the caller gets exactly that outcome, once, on the event
    loop it belongs to; the worker thread itself never touches the future. A
    job whose future is already done is not executed, and a job cancelled
    while it runs is not settled again.""",
    [SCH, INP, FLT], """every function, every exception class, every
    interleaving of the thread with cancellation of the future""",
    """Races between the thread and a cancellation, and BaseException
    outcomes, are not sampled.""",
    ["aiomisc/thread_pool.py"],
    [("job", "WorkItem.__call__"), ("settling", "_set_workitem_result"),
     ("submission", "ThreadPoolExecutor.submit / run_in_new_thread")],
    ["threads.jobs"], TS + ", with a thread/loop ownership rule for futures",
    BOUND)
prop(
    "C06", "Pool threads survive their jobs and all of them end at shutdown",
    """A thread of the pool ends only when the pool is shut down or the loop
    of a job is closed, never because of what a job returned, raised or
    because it was cancelled, so the capacity of the pool never shrinks.
    Closing the pool wakes every idle thread, and each thread reports its end
    on every exit path.""",
    [SCH, FLT, HIS], """every sequence of jobs with every outcome and every
    number of threads""",
    """A lost thread shows only as reduced capacity after particular job
    outcomes.""",
    ["aiomisc/thread_pool.py"],
    [("thread body", "thread_pool_thread_loop"),
     ("job channel", "TaskChannel.get / close")],
    ["threads.pool_threads"], TS, BOUND)
prop(
    "C07", "Shutting a thread pool down fails pending jobs and refuses new ones",
    """After a shutdown no job is accepted, and every future handed out before
    that is not finished is failed - on its own loop, none is left pending -
    also when shutdown() races with a submission from another thread. The
    shutdown waits for the threads a bounded time only.""",
    [SCH, HIS], """every interleaving of submit() and shutdown() from
    different threads, every number of pending jobs""",
    """The race between a submission and the shutdown needs a chosen
    interleaving of threads.""",
    ["aiomisc/thread_pool.py"],
    [("submission", "ThreadPoolExecutor.submit"),
     ("shutdown", "ThreadPoolExecutor.shutdown")],
    ["threads.pool_shutdown"],
    "lockset and typestate analysis of submit()/shutdown()", BOUND)
prop(
    "C08", "Functions run in threads see the context variables of the caller",
    """Every function executed in the thread pool or in a new thread runs
    inside a copy of the contextvars context taken where it was submitted.
    Changes it makes stay in its copy.""",
    [PRG, SCH], """every program using context variables and every thread
    the function may be scheduled on""",
    """Tests sample one variable on one path; a thread reused for another job
    shows a leak only under particular schedules.""",
    ["aiomisc/thread_pool.py"],
    [("context capture", "WorkItemBase.context"),
     ("use", "WorkItem.__call__")],
    ["threads.context_copied"], "dataflow (provenance) analysis of the "
    "context a job runs in", BOUND)
prop(
    "C09", "A thread waiting for a coroutine always gets exactly its outcome",
    """A thread that waits for a coroutine of an event loop is released on
    every outcome - a result, any exception (also one that is falsy) or a
    cancellation of the coroutine - and returns or raises exactly that
    outcome. The coroutine is only scheduled on its loop, and the outcome is
    stored before the thread is released.""",
    [SCH, INP, FLT], """every coroutine outcome and every interleaving of
    the waiting thread with the loop""",
    """Cancelled coroutines and unusual exceptions hang the thread instead of
    failing a test.""",
    ["aiomisc/thread_pool.py"],
    [("waiting", "CoroutineWaiter / wait_coroutine / sync_await")],
    ["threads.waiter"], TS, BOUND)

# ------------------------------------------------------------------ iterators
prop(
    "C10", "Iterating a generator in a thread neither loses nor hangs",
    """The items of a generator iterated from a coroutine through a thread
    (IteratorWrapper, threaded_iterable) arrive once each and in order,
    whatever objects they are; then the generator's end or its exception - any
    exception - reaches the consumer, and a cancelled consumer loses nothing
    for the next one. An iterator has one thread, in the executor and for the
    loop given; starting it without a running loop raises RuntimeError, and
    the pauses between looks at the channel stay bounded. The channel between the two is bounded and the thread waits
    when it is full. When the consumer leaves early, is cancelled or closes
    the iterator, the waiting thread is released, the generator is closed in
    its thread, and close() returns only after that; a consumer blocked on
    the channel is always woken when it closes.""",
    [SCH, INP, FLT], """every generator (ending, failing, endless), every
    interleaving of the thread and the consumer, every point at which the
    consumer stops""",
    """A lost item or a hang needs one particular interleaving of the thread
    and the loop, or an unusual end of the generator.""",
    ["aiomisc/iterator_wrapper.py"],
    [("producer", "IteratorWrapper._run"),
     ("channel", "FromThreadChannel"),
     ("close", "IteratorWrapper.close / IteratorProxy")],
    ["iterator.iterators"],
    TS + " of producer, channel and consumer",
    BOUND)
# ------------------------------------------------------------------ aggregate
prop(
    "C11", "Aggregated calls give every caller its own outcome exactly once",
    """Every call of an aggregated function is executed in exactly one batch,
    batches are not larger than max_count and start no later than the leeway
    after their first call or when they are full; each caller gets the result
    or exception that belongs to its own argument, at the same position. When
    the batch function fails, every caller of that batch gets the exception;
    a batch function that forgets an argument fails that caller. A cancelled
    caller affects no other caller of the batch, and an outcome is only
    stored where none is stored yet.""",
    [SCH, FLT, INP], """every interleaving of calls, timers, batch outcomes
    and cancellations of callers""",
    """Losing or mixing up callers needs a call or a cancellation in a
    particular window around the start of a batch.""",
    ["aiomisc/aggregate.py"],
    [("batching", "Aggregator.aggregate / AggregatorAsync"),
     ("execution", "_execute")],
    ["aggregate.aggregated"], TS, BOUND)
# -------------------------------------------------------------------- backoff
prop(
    "C12", "Retries are bounded and stop at what must not be retried",
    """asyncbackoff and asyncretry call the function again only after one of
    the listed exceptions (or the attempt's own timeout), after the configured
    pause, never more often than max_tries and never after giveup() agreed. A
    result, any other exception and a cancellation from outside end the call
    at once. Each attempt is bounded by attempt_timeout and the whole call by
    the deadline; when they give up the function's own last exception is
    raised, never one of an earlier call. The function always gets the
    arguments of the call; negative limits, a negative pause and less than
    one try are refused. timeout() bounds one call and passes its outcome.""",
    [FLT, INP, HIS], """every sequence of outcomes of the function, every
    combination of limits, repeated calls of one decorated function""",
    """Tests sample a few sequences; what must never be retried, or a state
    leaking from one call into the next, needs particular sequences.""",
    ["aiomisc/backoff.py", "aiomisc/timeout.py"],
    [("retry loop", "asyncbackoff"), ("retry", "asyncretry"),
     ("one call", "timeout")],
    ["backoff.retries"], "path-sensitive exploration of all outcome "
    "sequences of the wrapped function", BOUND)
# ------------------------------------------------------------ circuit breaker
prop(
    "C13", "A circuit breaker admits, counts and changes state as documented",
    """While passing, every call is made and its outcome returned unchanged;
    while broken no call is made and CircuitBroken is raised; while recovering
    a call is either made or rejected that way. Every made call is counted
    once in the window of recent calls, as a success or - for a listed
    exception the inspector does not excuse - as a failure, a rejected call is
    not counted. The state changes only passing -> broken -> recovering ->
    passing or broken, at most once per call, not before the minimal time of
    the state is over; only a full window breaks a passing circuit, and the
    window restarts when the circuit breaks. The function gets the arguments
    of the call. This holds for sync and async calls and for the cutout
    decorator.""",
    [HIS, INP, FLT], """every state, every outcome of the function
    (cancellation included), every relation of now to the state's times""",
    """Tests follow one scripted history of successes and failures at
    mocked times.""",
    ["aiomisc/circuit_breaker.py"],
    [("admission and counting", "CircuitBreaker.context / _on_passing"),
     ("state machine", "CircuitBreaker._compute_state"),
     ("decorator", "cutout")],
    ["breaker.breaker"], "path-sensitive exploration of every call in every "
    "abstract state of the machine", BOUND + "The numeric ratio thresholds "
    "are not decided, only the order, causes and times of state changes.")
prop(
    "C54", "A circuit breaks if and only if the recent calls fail",
    """Seen as a history of calls, a circuit breaks when the ratio of failed
    calls reaches the given one in every recent part of the response time
    (not only exceeds it), whatever happened before that time and however
    sparse the calls are; it never breaks while the ratio stays below the
    given one. A call rejected by a broken or recovering circuit raises
    CircuitBroken which carries the last counted exception. A recovering
    circuit makes every call again once its calls succeeded for the recovery
    time and breaks again if they fail. A breaker whose response time is not
    positive or whose ratio is not within 0..1 is refused.""",
    [HIS, INP], """histories of calls which all fail, all succeed or fail at a
    ratio equal to or below the limit, dense and sparse in time, after a
    different past, through break, recovery and relapse""",
    """The tests follow one history with dense calls; sparse calls, a stale
    past, a ratio met exactly and the exception kept across the recovery are
    not in it.""",
    ["aiomisc/circuit_breaker.py"],
    [("window of recent calls", "CircuitBreaker.counter / recovery_ratio"),
     ("state machine", "CircuitBreaker._compute_state"),
     ("refusal", "CircuitBreaker._on_recover / context")],
    ["breakerhist.histories"], "abstract interpretation of histories of "
    "calls at given times", BOUND + "The times are those of a dozen "
    "histories with a window of four parts; the exponential growth of "
    "admitted calls is not decided (N01).")
# ------------------------------------------------------------------ recurring
prop(
    "C14", "Recurring callbacks run one at a time until they are stopped",
    """A recurring callback (also periodic and cron ones) runs as delay, one
    call, delay, one call..., and the strategy is asked for the next delay
    only after the call ended, so calls never overlap. No outcome of the
    callback - error or its own cancellation - ends the recurrence. A skipped
    call only waits, a strategy that stops or answers something wrong ends
    it, negative delays mean none. Cancelling it ends it for good, after the
    running call was cancelled and awaited (not cancelled when shielded).
    The callback gets the arguments given for it and runs in the given loop;
    its errors are logged, those to be suppressed are not; an exit it raises
    is not caught.""",
    [HIS, SCH, FLT], """every sequence of strategy answers and callback
    outcomes, every moment of a cancellation""",
    """Tests run a few ticks with well behaved callbacks and real sleeps.""",
    ["aiomisc/recurring.py", "aiomisc/periodic.py", "aiomisc/cron.py"],
    [("loop", "RecurringCallback._start / _exec"),
     ("shield", "utils.shield")],
    ["recurring.recurring"], "path-sensitive exploration of all histories of "
    "strategy answers, callback outcomes and cancellations", BOUND)
prop(
    "C15", "Periodic and cron callbacks can be started, stopped and restarted",
    """A periodic callback is first called after its delay and then after
    every interval; a cron callback after the time to the next tick computed
    from now. Starting one that runs raises InvalidStateError and creates no
    second task. stop() cancels the running task and returns an awaitable of
    its end; for one that was not started it reports RuntimeError. After a
    stop it can be started again at once, and the late end of the former run
    does not detach the new one from stop().""",
    [HIS, SCH], """every sequence of start() and stop(), every moment at
    which a stopped task really ends""",
    """Only particular orders of stop, restart and the end of the old task
    show a lost task.""",
    ["aiomisc/periodic.py", "aiomisc/cron.py"],
    [("start/stop", "PeriodicCallback.start / stop"),
     ("cron", "CronCallback.start / stop / get_next")],
    ["recurring.periodic"], "path-sensitive exploration of start/stop "
    "histories with an explicit model of tasks and done callbacks", BOUND)
# ----------------------------------------------------------------------- pool
prop(
    "C16", "A pool never loses capacity and never exceeds its maximum size",
    """Every acquire() holds one of maxsize permits from before it touches an
    instance until the instance is given back; a failed or cancelled
    acquire() - at any await - returns its permit and keeps no instance. The
    number of instances counts each one from before its creation starts until
    it is dropped or its creation failed, and never exceeds maxsize. An
    acquire() that got its permit always finds an instance, so it neither
    fails nor waits for ever.""",
    [SCH, FLT], """every interleaving of acquire/release with failing,
    cancelled or slow creation and checks, other tasks changing the pool at
    every await""",
    """The leaks need a failure or cancellation in a particular await while
    other tasks use the pool.""",
    ["aiomisc/pool.py"],
    [("acquire", "PoolBase.__acquire / __create_new_instance"),
     ("dropping", "PoolBase.__recycle_instance")],
    ["pool.acquiring"], TS + " with resource tokens, others interfering at "
    "every await", BOUND + "maxsize is instantiated with 2; up to five users.")
prop(
    "C17", "Pool instances are handed out checked and given back exactly once",
    """What acquire() hands out passed its check right before, is registered
    as used and belongs to one context only; an instance failing its check is
    dropped. However the body ends, the instance is given back exactly once:
    its permit is returned, and it is idle again or - when the recycle time
    since its creation is over - dropped. The outcome of the body is not
    changed and a context cannot be entered twice.""",
    [SCH, FLT, HIS], """every outcome of check and body, every age of an
    instance""",
    """Tests sample well behaved checks; expiry depends on times and random
    numbers.""",
    ["aiomisc/pool.py"],
    [("release", "PoolBase.__release"), ("context", "ContextManager")],
    ["pool.acquiring", "pool.releasing"], TS + " with resource tokens",
    BOUND)
prop(
    "C18", "Every instance of a pool is destroyed when dropped or on close",
    """Each dropped instance is destroyed exactly once by the recycler task,
    which is started with the pool and survives every error of destroying
    one. close() destroys the used, the idle and the dropped instances, waits
    for all of them though some fail, within its timeout, and then cancels
    and awaits the tasks of the pool.""",
    [FLT, HIS], """every number and state of the instances, every subset
    whose destruction fails""",
    """One failing destruction silently ends the recycler; later leaks are
    invisible to a test.""",
    ["aiomisc/pool.py"],
    [("recycler", "PoolBase.__recycler"), ("close", "PoolBase.close")],
    ["pool.lifecycle"], TS, BOUND)
# ---------------------------------------------------------------- worker pool
prop(
    "C19", "Every task of a worker pool is settled once, by its own worker",
    """A task given to a worker pool is sent to exactly one worker; its result
    or exception - of whatever kind - reaches the caller that created it and
    no other. The loss of the worker fails the task with an error. A caller
    that is cancelled leaves: its task is not given to a worker any more, or
    the worker that runs it - and only that one - is interrupted. A task that
    cannot be serialized fails alone and does not harm the worker serving
    others.""",
    [SCH, FLT], """every interleaving of tasks, cancellation, broken
    connections and worker answers""",
    """A wrong pairing needs a cancellation or a disconnect exactly between
    request and response.""",
    ["aiomisc/worker_pool.py"],
    [("task loop", "WorkerPool.__task_handler / __handle_client"),
     ("submission", "WorkerPool.create_task")],
    ["workerpool.tasks"], "protocol typestate exploration of the client "
    "handler against a model of all worker behaviours", BOUND)
prop(
    "C20", "Only authenticated processes become workers of a pool",
    """A connection of the worker pool gets tasks only after it presented a
    known worker id with the HMAC of that id under the pool's secret cookie,
    and after it was told AUTH_OK. Anything else - wrong digest, unknown id,
    other packet - is refused and closed without a task. A worker process
    introduces itself that way and works only after AUTH_OK; it answers every
    request exactly once (result, exception, cancellation, an answer that
    cannot be serialized) and then takes the next one, until the connection
    breaks.""",
    [INP, FLT, HIS], """every packet a peer may send, every outcome of a
    request, every failure of the connection""",
    """Tests run cooperative workers; a foreign process or a broken pipe in
    the middle of an answer is not sampled.""",
    ["aiomisc/worker_pool.py", "aiomisc_worker/worker.py"],
    [("authentication", "WorkerPool.__handle_client"),
     ("worker loop", "aiomisc_worker.worker.worker")],
    ["workerpool.tasks", "workerproc.worker"], "protocol typestate "
    "exploration of both ends against models of the peer", BOUND)
prop(
    "C21", "Closing a worker pool settles its tasks and ends its processes",
    """close() - also called twice, or after a failed start - settles every
    task that was created and not yet answered, awaits the server and the
    tasks of the pool, and ends the supervising process. No task created
    before or during close() waits for ever, not even one waiting for a place
    in the queue. Leaving the context of a pool closes it; cancelling close()
    does not leave it half closed.""",
    [SCH, HIS], """every state of the pool when it is closed""",
    """Tasks that are queued, in flight or just put when close() runs exist
    only in particular schedules.""",
    ["aiomisc/worker_pool.py"],
    [("close", "WorkerPool.close"), ("tasks", "WorkerPool.create_task")],
    ["workerpool.closing"], TS, BOUND)
prop(
    "C22", "Worker packets are framed exactly and dead workers are replaced",
    """Both ends of the worker protocol write the length of the pickled
    payload and then the payload, completely, and read exactly one header and
    then exactly that many bytes, however the stream is split; an end of the
    stream inside a packet is an error. The supervisor starts one process per
    worker id, replaces one that died - with the same id - and not one that
    ended normally; a failing initializer is reported to the pool. When it
    ends it terminates the workers that still run, and no other process; a
    worker terminates none.""",
    [INP, FLT, HIS], """every way the stream is split into reads, every
    payload, every order in which workers die""",
    """Partial reads and writes need big payloads or a slow peer; dying
    workers are not sampled with more than one id.""",
    ["aiomisc_worker/protocol.py", "aiomisc_worker/forking.py"],
    [("framing", "SocketIOProtocol / FileIOProtocol / AsyncProtocol"),
     ("supervisor", "forking.main / fork")],
    ["workerproc.framing", "workerproc.supervisor"],
    "byte-counting abstract interpretation of the protocol; path-sensitive "
    "exploration of the supervisor with fork() returning twice",
    BOUND + "Reads are counted for payloads of 1, 3 and 4 bytes. Only the "
    "forking supervisor of POSIX systems is covered.")
# ------------------------------------------------------------------ utilities
prop(
    "C23", "Every waiter of a context item gets the value that was set",
    """Whoever waits for an item of a context - before or after it is set -
    gets its value, the last one when it was set again. Waiters are
    independent: cancelling one of them does not affect the others. Items can
    be set from any thread: only a callback on the loop of the context touches
    its futures. The context of a loop is found until it is closed; a closed
    loop or context is refused.""",
    [SCH, HIS], """every order of waiting, setting and cancelling, with any
    number of waiters""",
    """A test waits once; a cancelled second waiter or a second set between
    is a particular schedule.""",
    ["aiomisc/context.py"],
    [("items", "Context.__getitem__ / __setitem__"),
     ("lookup", "get_context")],
    ["context.items"], "typestate exploration of a context with a model of "
    "mappings, futures and the loop's callback queue", BOUND +
    "Histories of up to two sets and two waiters of one item.")
prop(
    "C24", "select() returns the first outcome and leaves nothing running",
    """select() waits for the first of its awaitables and returns - or raises,
    unless exceptions are to be returned - exactly its outcome under its
    index, None and other falsy results included. The others are cancelled
    and awaited before it returns (wait=False: only cancelled; cancel=False:
    left alone). A select() that is cancelled itself cancels and awaits all of
    them. The timeout limits the wait.""",
    [SCH, INP], """every order and simultaneity in which the awaitables end,
    every outcome, every combination of options""",
    """Simultaneous ends, falsy results and cancellation of select() itself
    depend on the schedule.""",
    ["aiomisc/utils.py"],
    [("select", "SelectAwaitable / SelectResult"),
     ("cancel", "cancel_tasks")],
    ["utils.select"], TS + " with a model of asyncio.wait", BOUND +
    "Two awaitables.")
prop(
    "C25", "cancel_tasks() and coroutine decorators honour cancellation",
    """cancel_tasks() cancels every task that is not done, breaks every
    pending plain future, leaves finished ones alone, and returns an awaitable
    of the end of all cancelled tasks that never raises their outcomes.
    @shield runs a coroutine that cancelling the caller does not cancel;
    @timeout limits - and cancels - every call and refuses functions that are
    no coroutine functions; @awaitable makes every result awaitable without
    changing it. All pass arguments, results and exceptions on.""",
    [INP, SCH], """every mixture of done and pending tasks and futures, every
    outcome of a decorated call""",
    """Mixed collections and cancellation in the middle of a call are sampled
    once, if at all.""",
    ["aiomisc/utils.py", "aiomisc/timeout.py"],
    [("cancel", "cancel_tasks / set_exception / pending_futures"),
     ("decorators", "shield / awaitable / timeout")],
    ["utils.cancelling", "utils.decorators"], TS, BOUND)

# --------------------------------------------------------------- file io
prop(
    "C26", "Asynchronous files mirror the blocking ones, in their executor",
    """Every operation of an asynchronous file runs the same operation of the
    underlying file exactly once, with the given arguments, in the executor
    the file was opened with and never in the thread of the event loop, and
    returns or raises what it did. The file is opened once, before its first
    use, with the mode, arguments and options given; what is asked of it (mode,
    name, closed, fileno ...) is answered by the underlying file; async with closes it on every exit; async for gives its lines up to
    the end of the file, one read at a time. async_open() chooses opener and
    class by mode and compression.""",
    [INP, CFG], """every operation, mode, compression, argument and
    outcome of the underlying file""",
    """The tests call a handful of operations on one file; which thread runs
    each of them, and what happens when it fails, is not observed.""",
    ["aiomisc/io.py"],
    [("operations", "AsyncFileIO / AsyncBinaryIO / AsyncTextIO"),
     ("modes", "async_open / Compression"),
     ("close", "__aexit__ / __del__")],
    ["fileio.files", "fileio.parameters"], "effect analysis of every public method: which blocking "
    "calls it makes, with which arguments, and in which thread", BOUND)
prop(
    "C27", "A signal awaits each receiver once and nothing slips past a freeze",
    """Signal.call() awaits every connected receiver exactly once, one after
    another, with the arguments of the call, and raises what a receiver
    raised. Only coroutine functions can be connected and a frozen signal
    refuses new and leaving receivers; a copy has the receivers of the
    original, is independent of it and is not frozen.""",
    [INP, HIS], """every sequence of connect, disconnect, freeze, copy and
    call""",
    """Histories mixing freezes and copies are not sampled.""",
    ["aiomisc/signal.py"],
    [("call", "Signal.call"), ("freeze", "Signal.freeze / connect"),
     ("copy", "Signal.copy")],
    ["signals.signals"], TS, BOUND + "Two receivers.")

# --------------------------------------------------------------- services
prop(
    "C28", "Stopped TCP, UDP and TLS servers leave no client task behind",
    """A server service handles every client (datagram) in a task of its own.
    Stopping it first closes the server and then cancels and awaits all of
    these tasks, those of clients that come meanwhile included; tasks that
    ended are forgotten. This holds with and without clients and whatever
    the reason of stop(). The server listens on the one socket it made, and
    handlers may be plain functions. Stopping a service that never started is
    no error. A TLS server passes every TLS option on and reads the certificate files
    outside the thread of the event loop.""",
    [SCH, FLT], """every number of clients, every moment they come or end
    relative to stop()""",
    """A client that arrives during stop() is a particular schedule.""",
    ["aiomisc/service/tcp.py", "aiomisc/service/udp.py",
     "aiomisc/service/tls.py", "aiomisc/service/base.py"],
    [("stop", "SimpleServer.stop / UDPServer.stop"),
     ("tasks", "SimpleServer.create_task / TaskStoreBase"),
     ("tls", "TLSServer.start")],
    ["services.servers"], TS, BOUND + "Two clients.")
prop(
    "C29", "TCP and TLS clients connect, retry and reconnect as configured",
    """connect() returns the streams of the first connection that works. It
    tries again - after connect_retry_timeout and at most connect_attempts
    times - only when the connection failed, and then raises the last error.
    A simple client handles one connection and does not fail with the error
    of its handler; a robust client connects again after reconnect_timeout
    when its handler ended with an error, and ends when its handler ended or
    it is cancelled. TLS options reach the connection.""",
    [FLT, SCH], """every sequence of failing and working connections and
    handlers; cancellation at every await""",
    """Sequences of failures and cancellation while connecting are
    not sampled.""",
    ["aiomisc/service/tcp.py", "aiomisc/service/tls.py"],
    [("connect", "SimpleClient.connect"),
     ("reconnect", "RobustTCPClient / RobustTLSClient"),
     ("handle", "TCPClient.handle_connection")],
    ["services.clients"], TS, BOUND + "connect_attempts up to three.")
prop(
    "C30", "TLS verifies peers exactly as the options demand",
    """A context made of SSLOptions verifies the server and its host name
    unless verify=False was given, demands a client certificate exactly when
    require_client_cert is set, uses the given CA, certificate, key, protocol
    versions and ciphers, and is refused when the CA file does not exist - for
    every combination of the options.""",
    [CFG, INP], """all combinations of verify, CA, certificate, key, purpose
    and required client certificates""",
    """The tests use a certificate pair that works; a context which
    verifies too little also works.""",
    ["aiomisc/service/tls.py"],
    [("context", "get_ssl_context / SSLOptions.create_context")],
    ["services.tls"], "path-sensitive constant propagation: the values "
    "assigned to the attributes of the ssl.SSLContext on every path", BOUND)
prop(
    "C31", "Services stop the callbacks and tracers they started",
    """PeriodicService, CronService, MemoryTracer, Profiler and CarbonSender
    start their callbacks with the interval, delay, spec and options they were
    given; stop() stops and awaits every one of them, then disables profiler
    and tracer, and does not raise what a callback raised. A report of the
    profiler does not end the profiling, even when writing it fails; the
    tracer examines the memory outside the thread of the event loop; the
    carbon client that collects the metrics is the one that sends them.""",
    [FLT, CFG], """every number of registered callbacks, every outcome of a
    callback while it is stopped""",
    """A callback failing while its service stops needs a particular
    schedule; leftovers are not looked for.""",
    ["aiomisc/service/periodic.py", "aiomisc/service/cron.py",
     "aiomisc/service/tracer.py", "aiomisc/service/profiler.py",
     "aiomisc/service/carbon.py"],
    [("start", "start()"), ("stop", "stop()")],
    ["lifecycle.callbacks"], TS, BOUND + "Two registered callbacks.")
prop(
    "C32", "HTTP, uvicorn and gRPC services release what they set up",
    """An aiohttp service sets its runner up before its site, serves its
    application on its own socket, does not start twice, and in stop() cleans
    its runner up even when stopping the site fails; its TLS context is made
    of its options, outside the thread of the loop. A uvicorn service hands
    its options and its own bound socket to the server, accepts an application
    made by a function or a coroutine, and, stopping, tells the server to
    exit, which ends its requests, and awaits that. An ASGI service serves
    its application under every path and tells it of start and end. An
    aiohttp runner gets the options of its service. A gRPC
    service gives every handler, method, credential and option to its server,
    offers reflection when asked to, announces the port of every address - a repeated one, too - before it
    starts, and stops gracefully.""",
    [FLT, CFG], """every configuration; a failure in every step of stop()""",
    """The tests stop healthy servers; failing steps are not sampled.""",
    ["aiomisc/service/aiohttp.py", "aiomisc/service/uvicorn.py",
     "aiomisc/service/grpc_server.py", "aiomisc/service/asgi.py"],
    [("aiohttp", "AIOHTTPService.start / stop"),
     ("asgi", "ASGIHTTPService.create_application"),
     ("uvicorn", "UvicornService.start / stop"),
     ("grpc", "GRPCService.start / stop")],
    ["lifecycle.http"], TS, BOUND)
prop(
    "C33", "systemd hears every stage of the service life, in order",
    """SDWatchdogService announces each stage once and in order - starting,
    started, READY only when all services have started, STOPPING when the
    entrypoint ends - and sends WATCHDOG=1 twice per watchdog interval while
    it runs; without NOTIFY_SOCKET nothing is sent; a failing notification
    disturbs nothing; the socket never blocks the loop and is closed last.
    This holds for each of several such services; intervals are read and
    announced in microseconds.""",
    [FLT, CFG, HIS], """all combinations of interval, socket kind and failing
    notifications, for the whole life of the service""",
    """The tests receive the messages of one healthy life; failing
    notifications and sends after the end are not sampled.""",
    ["aiomisc/service/sdwatchdog.py"],
    [("receivers", "setup() and the signal receivers"),
     ("life", "SDWatchdogService.start / stop / send")],
    ["watchdog.watchdog"], TS, BOUND + "One service and one other service.")
prop(
    "C34", "A DNS lookup finds the records of the closest enclosing zone",
    """DNSStore.query() answers with exactly the records of the asked name and
    type in the zone with the longest matching suffix (label by label, with or
    without the trailing dot); removed and replaced zones do not answer;
    records of a foreign name are refused; replace() with an invalid zone
    changes nothing; adding a zone twice and removing an unknown one is
    refused; adding or removing a record changes no other, and asking changes
    nothing.""",
    [INP, HIS], """all names made of symbolic labels, nested and sibling zones,
    the root zone, and histories of add, remove and replace""",
    """The tests look a few literal names up; nesting, partial label
    matches and removed inner zones are combinations they do not sample.""",
    ["aiomisc/service/dns/store.py", "aiomisc/service/dns/tree.py",
     "aiomisc/service/dns/zone.py"],
    [("query", "DNSStore.query"), ("tree", "RadixTree.find_prefix"),
     ("replace", "DNSStore.replace"), ("zone", "DNSZone.add_record")],
    ["dns.store"], "abstract interpretation over symbolic strings made of "
    "distinct labels, following the trees of zones exactly",
    BOUND + "Zones up to three labels deep.")
prop(
    "C35", "Every DNS request gets one well-formed reply, over UDP and TCP",
    """Every parsed request is answered once: with all found records,
    NXDOMAIN exactly when there are none, or a bare SERVFAIL when anything
    fails. A datagram reply goes to its sender, respects the size the client
    announced and is marked when it does not fit 512 bytes. TCP requests are
    read whole whatever the segmentation, each reply follows its own length,
    and the connection is closed in the end, whatever ended it.""",
    [INP, FLT, SCH], """all request sizes and segmentations, failures of the
    store, of encoding and of the connection at every point""",
    """The tests send whole, small, valid messages; partial reads and
    failing lookups are not sampled.""",
    ["aiomisc/service/dns/service.py"],
    [("reply", "DNSServer.handle_request"),
     ("udp", "UDPDNSServer.handle_datagram"),
     ("tcp", "TCPDNSServer.handle_client")],
    ["dns.server"], TS, BOUND + "Two requests per connection.")
prop(
    "C36", "Buffered logging never blocks, fails or loses a queued record",
    """A buffered ThreadedHandler never blocks or raises in the logging call,
    even when its queue is full; an unbuffered one drops nothing. Its thread
    hands each queued record to the target exactly once and in order,
    whatever the target raises and without holding the lock emitters need,
    and ends only after everything emitted before close(); closing twice and
    logging after close() raise nothing.""",
    [SCH, FLT, HIS], """every arrival pattern of records, flushes and pauses,
    failing targets, full queues, and closing at any point""",
    """Losses need a thread which is scheduled late or a target that
    fails, which tests do not produce.""",
    ["aiomisc/log.py"],
    [("emit", "ThreadedHandler.emit"), ("close", "ThreadedHandler.close"),
     ("thread", "ThreadedHandler._in_thread")],
    ["logs.handler"], TS, BOUND + "Up to three records.")
prop(
    "C37", "basic_config() sets up logging that ends with its loop",
    """aiomisc.log.basic_config() wraps each handler in a started thread
    handler with the given buffering, size and interval, makes exactly these
    the handlers of the root logger (former ones are removed) at the given
    level, sends the loop's and the interpreter's unhandled exceptions to all
    of them, and closes every one of them when the loop ends.""",
    [CFG], """every number of handlers and all settings""",
    """The tests configure logging once; that each of several handlers
    is closed is not observed.""",
    ["aiomisc/log.py", "aiomisc_log/__init__.py"],
    [("loop", "aiomisc.log.basic_config"),
     ("root", "aiomisc_log.basic_config")],
    ["logs.config"], TS, BOUND + "Up to two handlers.")
prop(
    "C38", "A process service always ends its process, within a bounded time",
    """start() starts one process and returns once it runs; the process logs
    with the level and format set for aiomisc, if any, calls the function with
    its arguments and tells when it ended, however it ended. stop() interrupts the process,
    waits for a limited time without blocking the loop, kills a process that
    stays and only such one, and does nothing for an exited process. A
    respawning service replaces exited processes only, with fresh events, and
    never after stop().""",
    [FLT, SCH], """every outcome of the function in the process, processes
    which ignore the signal, exit early, or are late""",
    """The tests stop processes that react to the signal; ignoring it
    and exits in between are not sampled.""",
    ["aiomisc/service/process.py"],
    [("child", "_process_inner"), ("stop", "ProcessService.stop"),
     ("respawn", "RespawningProcessService")],
    ["procs.service"], TS, BOUND + "Two supervisor rounds.")
prop(
    "C39", "The process pool hands tasks over intact and counts each once",
    """ProcessPoolExecutor.submit() passes function and arguments to the
    processes and returns their future; each task counts once as submitted
    and, when done, once as done and once as either success or error - also
    when cancelled or failed with any exception; a refused task is not counted;
    the callback never raises and
    the pool has the configured size and options.""",
    [FLT], """every way a future can end""",
    """Cancelled tasks and unusual exceptions are not sampled.""",
    ["aiomisc/process_pool.py"],
    [("submit", "ProcessPoolExecutor.submit"),
     ("count", "ProcessPoolExecutor._statistic_callback")],
    ["procs.pool"], TS, BOUND)
prop(
    "C40", "Statistics count exactly, per instance, and are all reported",
    """Each Statistic instance counts in a counter of its own; adding to,
    subtracting from or assigning a metric changes exactly that metric, and
    the metrics are the public int and float attributes its class and its
    bases declare;
    get_statistics() reports the name of the instance and the current value of
    each of its metrics, for every live instance of exactly the demanded
    kinds.""",
    [INP, HIS], """all metrics, values and instances""",
    """The tests read one statistic; interference of instances or
    metrics is not sampled.""",
    ["aiomisc/counters.py"],
    [("metric", "Metric"), ("instance", "Statistic"),
     ("report", "get_statistics")],
    ["stats.counters", "stats.report"], "abstract interpretation with an exact model of the "
    "counters", BOUND)
prop(
    "C41", "bind_socket() binds the asked address with the asked options",
    """bind_socket() creates a non-blocking socket of the given family and
    type or of the one the address belongs to, applies SO_REUSEADDR and
    SO_REUSEPORT exactly when asked to (never REUSEPORT to unix sockets) and
    every given option before binding, binds it once to the given address (a
    path for unix sockets) and port, and returns it.""",
    [CFG], """all combinations of address form, family, type, reuse flags and
    options""",
    """The tests bind TCP sockets of one family with default options; an
    option applied too late has no visible error.""",
    ["aiomisc/utils.py", "aiomisc/compat.py"],
    [("bind", "bind_socket"), ("reuse", "sock_set_reuseport")],
    ["sockets.bind"], TS, BOUND)

prop(
    "C42", "Every event handed to a Sentry transport ends in exactly one "
    "callback",
    """An event handed to async_send() of AioHttpTransport,
    QueuedAioHttpTransport or QueuedKeepaliveAioHttpTransport, from any
    thread, ends in exactly one call of one of its callbacks: success_cb when
    the server answered its request with 200, failure_cb when it answered
    otherwise, the request failed, the event was pushed out of a full queue
    or came after close(). It is sent as given (URL, data, headers), at most
    once, with the transport's timeout, on connections with its family,
    verification and limits. A cancelled request raises CancelledError and
    does not affect other events. close() lets the pending events end first,
    unless its timeout passes or it is cancelled; every answer is released
    and, however close() ends, every session and connector is closed.
    RavenSender.start() makes one client for sentry_dsn with client_options
    and attaches its handler, with min_level and all filters, to the root
    logger; stop() closes the transport the client used and leaves the client
    one that drops events; neither logs the password of the DSN.""",
    [SCH, FLT, CFG], """all outcomes of the requests, orders of events and
    close(), fullness of the queue""",
    """The repository's tests do not run the Sentry service: an event lost
    when the queue is full, at shutdown or after an error is silent.""",
    ["aiomisc/service/raven.py"],
    [("send", "AioHttpTransportBase._do_send"),
     ("queue", "QueuedAioHttpTransport._async_send / _worker / _close"),
     ("close", "AioHttpTransportBase.close"),
     ("sender", "RavenSender.start / stop")],
    ["raven.transports", "raven.sender"], TS, BOUND + """ Up to three events
    and two workers; close() without timing out; events from other threads
    racing with close() are not claimed.""")

prop(
    "C43", "Keyword arguments of a service become its attributes and state",
    """Every keyword argument given to a service becomes an attribute with
    the value given, None and other false values included, and the
    constructors of the library's own services pass on those they do not
    know. An attribute a service does not have raises AttributeError. A
    service is refused with AttributeError exactly when one of its
    __required__ names is not among the arguments. Assigning to such an
    attribute later is seen by readers and by the pickled state, which has
    the current values of the parameters; a service restored from that state
    has them again. Services do not share parameters. A service class whose
    start(), stop() or other name of __async_required__ is not a coroutine
    function is refused with TypeError when it is defined; others are not.""",
    [CFG, INP], """all names and values of parameters (a value, None, False),
    required names, assignments and copies; all service classes""",
    """Tests create services with a few true values and do not look at what
    a process service receives after a parameter was changed.""",
    ["aiomisc/service/base.py", "aiomisc/service/*.py"],
    [("parameters", "Service.__init__ / _set_params / __setattr__"),
     ("state", "Service.__getstate__ / __setstate__"),
     ("classes", "ServiceMeta.__new__")],
    ["params.parameters", "params.metaclass"], TS, BOUND)

prop(
    "C44", "Event loops, entrypoints and run() are made with the given options",
    """create_default_event_loop() makes one loop by the given policy, with
    the given debug mode, sets it as the current loop of the thread and gives
    it, as its default executor, the thread pool it returns, of the size
    given or, without one (None, 0), of the default size; new_event_loop()
    returns such a loop. While a loop is running in the thread they raise
    RuntimeError and change neither policy, current loop nor anything else.
    Entrypoint uses the loop it is given and otherwise makes one, once, with
    its policy, pool_size and debug; it and its loop are the current ones of
    the context. Every log option given reaches the log configuration; with
    log_config off nothing is configured. Exactly the signals of
    catch_signals are handled; by default SIGINT and SIGTERM when made in the
    main thread and none elsewhere. run() starts exactly the services given,
    with the options given, runs the coroutine once and gives its result or
    raises its error. get_current_loop() and every strict context variable
    give the value that was set, whatever it is, and raise when none was;
    the loop of an EventLoopMixin object is the running loop of its first
    use, and stays that.""",
    [CFG], """all combinations of options; threads without a loop, with an
    idle one and with a running one; all outcomes of the coroutine""",
    """The tests make loops with default options; a policy, size or option
    that is lost shows in no result.""",
    ["aiomisc/utils.py", "aiomisc/entrypoint.py", "aiomisc/compat.py",
     "aiomisc/_context_vars.py"],
    [("loop", "create_default_event_loop / new_event_loop"),
     ("options", "Entrypoint.__init__ / loop / _start"),
     ("run", "run"), ("current", "StrictContextVar / EventLoopMixin.loop")],
    ["loops.creation", "loops.options", "loops.runs", "plugins.current"], TS,
    BOUND)

prop(
    "C45", "What ends an entrypoint is told to its services and to its caller",
    """When an entrypoint is left, stop() of every service gets the exception
    that ended the body, None when the body ended normally, and an exception
    when an OS signal ended it. The exit raises what the body raised; an error
    raised by a stop() is raised by the exit when every stop() has ended;
    otherwise the exit raises nothing. closing() waits for the shutdown and
    returns when it begins, before the first stop(). An entrypoint without
    services sends pre_start, post_start, pre_stop and post_stop like any
    other.""",
    [FLT, SCH], """all outcomes of the body and of the stops of two services,
    own and foreign loop, with and without await, end by a signal""",
    """The tests look at services that stop without errors; an error lost
    during a shutdown is silent.""",
    ["aiomisc/entrypoint.py"],
    [("exception", "Entrypoint.__aexit__ / _stop / graceful_shutdown"),
     ("errors", "Entrypoint.stop_services"),
     ("closing", "Entrypoint.closing")],
    ["entrypoint.leaving"], TS, BOUND)

prop(
    "C46", "Functions moved to threads get their arguments, options and outcome",
    """threaded(f), threaded_separate(f), run_in_executor(f, ...) and
    run_in_new_thread(f, ...) call f once in a thread with exactly the
    positional and keyword arguments given and their await gives its outcome,
    also when the call is made before a loop runs. run_in_executor() uses the
    executor given, threaded() the default one of the loop; detach, no_return
    and statistic_name of new threads are those given. threaded() and
    threaded_separate() refuse coroutine functions with TypeError; threaded()
    makes an iterator of generator functions. threaded_iterable and
    threaded_iterable_separate, used plainly, called, with a size or with
    max_size=, make iterators which call the function with the arguments
    given, have that max_size and run in the pool or in a new thread.""",
    [INP, PRG, CFG], """all forms of the decorators, kinds of function,
    outcomes of the function, with and without a running loop""",
    """Tests use the plain forms with a running loop; an option that gets
    lost has no visible result.""",
    ["aiomisc/thread_pool.py"],
    [("pool", "run_in_executor / threaded"),
     ("new threads", "run_in_new_thread / threaded_separate"),
     ("iterators", "threaded_iterable / threaded_iterable_separate")],
    ["decor.decorators"], TS, BOUND)

prop(
    "C47", "A thread pool runs as many jobs at once as it has workers, never more",
    """ThreadPoolExecutor(n) has at least one thread from the beginning and
    never more than n. With j unfinished jobs submitted it has started at
    least min(j, n) threads, so no job waits while a worker could be started.
    What cannot be called is refused with ValueError at submission. The
    threads of a pool that is forgotten without a shutdown end.""",
    [HIS, CFG], """pools of 1 to 8 workers with up to one job more than
    workers, none of which ends""",
    """Tests use pools whose jobs end at once; a pool that stays too small
    is only slow, or deadlocks jobs that wait for each other.""",
    ["aiomisc/thread_pool.py"],
    [("growth", "ThreadPoolExecutor.submit / _adjust_thread_count"),
     ("end", "ThreadPoolExecutor.__del__")],
    ["decor.growth"], TS, BOUND)

prop(
    "C48", "Worker processes start with exactly what their pool was given",
    """start() of a worker pool of n workers listens on a socket only its own
    user can connect to, limits the queue of waiting tasks to max_overflow and
    starts one supervisor - none if the pool was closed meanwhile. The
    supervisor logs with the level and format of the pool, calls the
    initializer once with its arguments and then runs n worker processes, each
    with the address, the pool's secret cookie and a worker id of its own. An
    initializer that raises anything is reported to the pool with its
    exception and no worker is started. Workers do not keep the supervisor's
    signal handlers. The supervisor for systems without fork() does the same
    with separate processes, replaces those that ended with the same id and,
    when it ends, terminates exactly those still running.""",
    [CFG, FLT, HIS], """pools of any size, with and without initializer and
    arguments, initializers that fail, close() while the pool starts, workers
    that die in any order""",
    """Tests check that a pool works; an argument lost on the way, a process
    too many or a world-accessible socket does not make a task fail, and the
    supervisor without fork() is never run on the platform of the tests.""",
    ["aiomisc/worker_pool.py", "aiomisc_worker/forking.py",
     "aiomisc_worker/process.py", "aiomisc_worker/process_inner.py"],
    [("start", "WorkerPool.start / __create_supervisor"),
     ("forking", "forking.main"), ("separate", "process.main / Worker"),
     ("inner", "process_inner.worker_inner")],
    ["workerstart.started", "workerstart.separate"],
    "end-to-end abstract interpretation from the constructor of the pool "
    "through the pipe into the processes", BOUND + "Pools of 1 to 3 workers; "
    "two deaths of separate processes.")

prop(
    "C49", "DNS records keep what they were made of and can be served",
    """create() of every record class gives a record of that class's type with
    the given name and ttl whose data got each argument in its place, and the
    reply made of it has the same name, class, ttl and data. Every kind of
    record can be put into a zone: its hash is computed from what its data
    has, so that equal records count once, and two records which differ in a
    value are both kept. Types and classes have their assigned numbers.""",
    [INP], """all arguments of all record classes""",
    """The tests create one record of each kind and look at its attributes;
    only two kinds are ever put into a zone, and never two similar ones.""",
    ["aiomisc/service/dns/records.py"],
    [("create", "create() of the record classes"),
     ("hash", "RD.__hash__"), ("reply", "DNSRecord.rr")],
    ["dns.records"], "abstract interpretation of every record class with "
    "distinct argument tokens; tables of the data attributes of dnslib and "
    "of the assigned numbers", BOUND + "dnslib itself is not analysed.")

prop(
    "C50", "No record or unhandled error is lost on its way into the log",
    """Every log format gives a handler of its kind, with a formatter, the
    stream and the date format that were asked for, and is remembered for
    worker processes. The JSON formatter makes exactly one line of every
    record, whatever its level, with its formatted message, its level and
    fields, its time when a date format is set and its stack trace when it has
    an exception. Every unhandled error reported to the loop is logged with
    its message, its exception - also that of a failed task or future - and
    the rest of its context, whatever the context contains: nothing, or
    futures which are pending or cancelled; unhandled exceptions of the
    interpreter are logged with their traceback. Handlers of unhandled errors
    write each error once.""",
    [INP, FLT], """all log formats with and without stream and date format,
    records of any level with and without exception, and contexts with and
    without exception, futures and tasks in any state and every other key""",
    """The tests log at the standard levels and call the hook with complete
    contexts; a formatter that fails loses the record without failing
    anything.""",
    ["aiomisc_log/__init__.py", "aiomisc_log/formatter/json.py",
     "aiomisc_log/formatter/color.py", "aiomisc_log/formatter/rich.py",
     "aiomisc_log/formatter/journald.py", "aiomisc/log.py"],
    [("formats", "aiomisc_log.create_logging_handler"),
     ("json", "JSONLogFormatter.format"),
     ("loop", "UnhandledLoopHook.__call__"),
     ("python", "UnhandledPythonHook.__call__")],
    ["logformat.formats"], TS, BOUND + "What json.dumps and the external "
    "formatters do is not analysed.")

prop(
    "C51", "Tracer, profiler and Carbon sender report what they were asked to",
    """MemoryTracer compares, once per interval, the current snapshot with the
    one taken when it started, grouped as asked, and logs exactly the top
    results asked for. Profiler logs, once per interval, the statistics of its
    own profiler in the order asked for and as many of them as asked, and
    writes them to the path asked for, if there is one. CarbonSender sends
    with its protocol and storage under its namespace and refuses an unknown
    protocol.""",
    [CFG, HIS], """all options of the three services, over several
    intervals""",
    """The tests look for some output; a wrong base, order, limit or
    interval gives output, too.""",
    ["aiomisc/service/tracer.py", "aiomisc/service/profiler.py",
     "aiomisc/service/carbon.py"],
    [("tracer", "MemoryTracer.start / show_stats"),
     ("profiler", "Profiler.start / save_stats"),
     ("carbon", "CarbonSender.start")],
    ["monitors.monitors"], TS, BOUND + "What tracemalloc, pstats and "
    "aiocarbon do is not analysed.")

prop(
    "C52", "Every installed plugin is set up once, whatever the others do",
    """Every entry point of the group is loaded and set up once. A plugin
    that can not be loaded is logged and affects no other; the failure of a
    setup is raised. With AIOMISC_NO_PLUGINS set none is loaded. Only entry
    points of exactly the groups aiomisc.plugins and aiomisc are plugins.""",
    [CFG, FLT], """sets of plugins of which any fail while they are loaded
    or set up""",
    """The tests have one healthy plugin installed.""",
    ["aiomisc/plugins/__init__.py", "aiomisc/compat.py"],
    [("setup", "aiomisc.plugins.setup_plugins"),
     ("group", "aiomisc.compat.entry_pont_iterator")],
    ["plugins.plugins"], TS, BOUND + "Three plugins; importlib.metadata is "
    "not analysed.")

prop(
    "C53", "chunk_list() loses, moves and shares no element",
    """The chunks of chunk_list(iterable, size), one after the other, are the
    elements of the iterable in their order, false values and a last
    incomplete chunk included, whether the iterable is a collection or an
    iterator. Every chunk but the last has size elements, none is empty, and a
    chunk handed out is not changed when the next one is made.""",
    [INP], """every iterable and chunk size""",
    """The test splits two ranges.""",
    ["aiomisc/utils.py"],
    [("chunks", "aiomisc.utils.chunk_list")],
    ["chunks.chunks"], TS, BOUND + "Up to five elements of lists and "
    "iterators in chunks of 1, 2, 3 and 7.")

# ------------------------------------------------------------ not applicable
na(
    "N01", "A circuit breaker's error ratio is computed over the last window",
    """The breaker compares the number of failures divided by the number of
    calls of the last response_time seconds with error_ratio, and the window
    forgets exactly the calls that are older.""",
    [HIS, INP], """every history of calls and clock readings""",
    """A test samples a few histories with a few clock values.""",
    ["aiomisc/circuit_breaker.py"],
    [("ratio", "CircuitBreaker.counter / _on_passing")],
    """A numeric statement about sums over runtime timestamps: abstract paths
    do not bound the counters' values. C13 decides the structural part (what
    is counted, when, and which transitions exist).""")
na(
    "N02", "Cron callbacks run at exactly the times of their expression",
    """A cron callback is called at every instant the cron expression names
    and at no other.""",
    [INP, HIS], """every expression and clock""",
    """Tests use one or two expressions.""",
    ["aiomisc/cron.py"],
    [("next time", "CronCallback.get_next / get_delay")],
    """The times are computed by the external croniter library and by float
    arithmetic on the wall clock, out of reach of a static argument. C15 and
    C14 decide the protocol around it.""")
na(
    "N03", "DNS records survive a round trip through the wire format",
    """Decoding an encoded reply gives the records which were added to the
    zone.""",
    [INP], """every record type and content""",
    """Round trips are sampled with one record of each type.""",
    ["aiomisc/service/dns/records.py"],
    [("records", "service.dns.records")],
    """Encoding is done by the external dnslib; equality of a round trip is
    about its runtime values. C35 decides that every record found is put into
    the reply.""")
na(
    "N04", "Identifiers made by fast_uuid1 and fast_uuid4 are unique",
    """Two calls, in whatever processes and threads, give different, valid
    UUIDs of the named version.""",
    [SCH, HIS], """all processes, threads and instants""",
    """Uniqueness is tested on a short run.""",
    ["aiomisc/utils.py"],
    [("uuid", "utils.fast_uuid1 / fast_uuid4")],
    """Uniqueness is a statement about clock and random values at run time;
    no static argument bounds them.""")
na(
    "N05", "No interleaving of threads exceeds the pool's number of threads",
    """At no time more than max_workers functions run in the threads of one
    pool, and a waiting job is taken as soon as a thread is free.""",
    [SCH], """every interleaving of the operating system's scheduler""",
    """Timing of threads is not controlled by tests.""",
    ["aiomisc/thread_pool.py"],
    [("threads", "ThreadPoolExecutor.__init__")],
    """The count and promptness of running threads are quantities of the
    scheduler. C05-C07 decide what every thread does with every job.""")
