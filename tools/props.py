"""Writes /verif/properties.jsonl.  (The table below is the source.)"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe="", hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=[observe] if observe else [], hook_needed=hook)))


prop("P01", "Pool lends an instance to one holder, freshly checked, within its capacity",
     "At every moment at most maxsize instances are usable or being created, and no instance is lent to two holders at once. "
     "An instance is lent only after its check returned true since it was last given back or created; one whose check returned false or raised, or which outlived twice the recycle age when given back, is never lent again. "
     "Every instance is passed to destroy at most once, and only after being rejected or when the pool is closed.",
     "schedules histories fault_sequences",
     "all interleavings of acquire, release, cancellation and time with create/check/destroy callbacks that are slow, fail, reject or are cancelled",
     "Tests lend a handful of instances with instant, never failing callbacks; the guarantee is over interleavings of concurrent clients and callback failures.",
     "aiomisc/pool.py", [("PoolBase acquire/release and the capacity semaphore", "aiomisc/pool.py")],
     [("idle instances", "created, not lent", "aiomisc/pool.py")], "user supplied _create/_check/_destroy callbacks and acquire() results")
prop("P02", "Pool never loses capacity, never strands a waiter, and close destroys everything",
     "Whenever nothing is running, a caller waiting for an instance implies that there is no idle instance and that all capacity is in use: failed or cancelled creation and checks, rejected and recycled instances all give their capacity back and wake a waiter. "
     "A rejected instance is destroyed without further action by the user, an acquire fails only by its own cancellation or with the failure of a creation, and len() is the number of usable instances. "
     "close() passes every remaining instance to destroy and returns when all are destroyed, or at its timeout.",
     "schedules histories fault_sequences", "same as P01, at every quiescent point of every history",
     "A leak shows only after a particular failure or cancellation followed by demand for the lost slot; tests never exercise failing creation or cancellation inside callbacks.",
     "aiomisc/pool.py", [("capacity release on every exit path, recycler task, close", "aiomisc/pool.py")],
     [], "pending acquires at quiescent points, len(pool)")
prop("A01", "Aggregated calls each get their own result, from exactly one batch",
     "Every call made through an aggregator is handed over with its own argument to executions of the aggregated function, in call order within a batch, together only with calls of the same batch, and no batch exceeds max_count. "
     "Each caller gets the result or exception produced for its own argument: an exception of the function reaches every caller of the batch without a result, and a caller whose result was not provided gets ResultNotSetError. "
     "Once a batch has produced results it is not executed again.",
     "schedules histories inputs", "all call timings, batch sizes, cancellations and function outcomes",
     "Tests use a few fixed timings; mixing, loss or re-execution appears only for particular overlaps of batches, slow functions and cancelled callers.",
     "aiomisc/aggregate.py", [("AggregatorAsync.aggregate / _execute", "aiomisc/aggregate.py")], [], "arguments of the aggregated function and results of callers")
prop("A02", "A batch starts on time and survives cancellation of its callers",
     "A batch starts executing as soon as it has max_count calls, and otherwise exactly when leeway_ms has passed since its first call, no earlier and no later, if any caller is still waiting; calls made after a batch is full or due belong to a new batch with its own window. "
     "If the caller on whose behalf the function runs is cancelled, the execution is cancelled and another caller of the batch takes it over; cancelling any other caller does not disturb the batch. "
     "No caller waits forever while its batch is not running, and cancellation reaches the cancelled caller.",
     "schedules histories", "all placements of cancellations and calls relative to window ends and executions",
     "Cancellation takeover depends on which caller runs the function and when; tests cover single hand-picked cancellations.",
     "aiomisc/aggregate.py", [("wait_for on the batch event, per-batch lock", "aiomisc/aggregate.py")], [], "start times of the aggregated function")
prop("B01", "Retry makes exactly the attempts its policy allows and reports the last failure",
     "A function wrapped by asyncbackoff or asyncretry is attempted again exactly when the attempt failed with a listed exception or a timeout, fewer than max_tries attempts were made and giveup did not return true for that exception; attempts never overlap and get the original arguments. "
     "The first success is returned as is; otherwise the caller gets the exception of the last attempt. "
     "Other exceptions and cancellation end the call at once and are never retried.",
     "inputs histories configurations", "all sequences of attempt outcomes and all policies",
     "Policies combine (max_tries, giveup, exceptions, timeouts); tests sample each option alone.",
     "aiomisc/backoff.py", [("asyncbackoff run loop", "aiomisc/backoff.py")], [], "calls of the wrapped function")
prop("B02", "Retry respects attempt timeout, pause, deadline and cancellation exactly in time",
     "An attempt running attempt_timeout is cancelled at that instant, the next attempt starts exactly pause after the end of a failed one, and the whole call ends at the deadline at the latest, with the last attempt's exception or else a timeout. "
     "Cancelling the caller cancels the running attempt at once, ends the call with CancelledError and starts nothing more, and no attempt is left running when the call has ended. "
     "A function wrapped by timeout() ends with its own outcome if that comes earlier and otherwise with a timeout at exactly its limit.",
     "schedules histories configurations", "all durations of attempts relative to the limits and all cancellation instants",
     "Tests measure real time with tolerances of tens of percent and hand-picked durations.",
     "aiomisc/backoff.py aiomisc/timeout.py", [("nested wait_for", "aiomisc/backoff.py"), ("timeout decorator", "aiomisc/timeout.py")], [], "virtual-clock instants of attempts and outcome")
prop("K01", "Circuit breaker gates calls by state and passes results through",
     "While passing, every call runs the function; while broken, no call does and each raises CircuitBroken carrying the most recent listed failure, or none if a success came later; while recovering, a call is let through exactly when 1 + a uniform random draw is below 2 to the power of elapsed recovery time over recovery_time. "
     "A call that is let through gets the function's own result or exception, unchanged, for sync and async use alike.",
     "histories inputs", "all histories of calls, outcomes, time steps and random draws",
     "Admission in recovery is random and time dependent; tests check loose percentages.",
     "aiomisc/circuit_breaker.py", [("CircuitBreaker.context", "aiomisc/circuit_breaker.py")], [], "state property and function calls")
prop("K02", "Circuit breaker changes state exactly on its documented statistics and times",
     "The breaker leaves passing only when the passing time is over, ten time slots have been recorded and in every recorded slot of the last response_time the share of counted failures reaches error_ratio, and then stays broken at least broken_time. "
     "The first call after that starts recovery; recovery falls back to broken when the share of bad slots reaches half of error_ratio, and becomes passing once recovery_time has gone by without that. "
     "Only listed exceptions accepted by the inspector count as failures, and the statistics are dropped when the breaker breaks.",
     "histories inputs configurations", "all histories of calls, outcomes and time steps",
     "State changes depend on the whole history in the window; tests follow two hand-made scenarios.",
     "aiomisc/circuit_breaker.py", [("_compute_state, bucketed statistics", "aiomisc/circuit_breaker.py")], [], "state property after every call")
prop("R01", "Recurring callbacks run one at a time, exactly on schedule, until stopped",
     "A recurring or periodic callback is first called after its initial delay and then each time exactly the strategy's delay (interval) after the previous call ended, however that ended: errors are swallowed and calls never overlap. "
     "A strategy can skip (ask again after the given time), stop, or return a bad delay (stop); negative delays count as zero. "
     "After stop() no further call starts and the running one is cancelled at once; with shield the running call is not cancelled; starting a started callback fails, and a stopped one can be started again and stopped again.",
     "schedules histories", "all durations and outcomes of calls, and start/stop at any point",
     "Tests count calls over real time with tolerance; stop/restart races and long calls are not explored.",
     "aiomisc/recurring.py aiomisc/periodic.py aiomisc/service/periodic.py", [("RecurringCallback._start", "aiomisc/recurring.py"), ("PeriodicCallback.start/stop", "aiomisc/periodic.py")], [], "call instants on a virtual clock")
prop("R02", "Cron callbacks fire exactly at the instants of their spec",
     "Each call of a cron callback starts at the first instant matching its spec that is strictly after the moment the previous call ended (or it was started); no matching instant is skipped while the callback is idle and none fires twice. "
     "Errors do not stop the schedule, and after stop nothing more is called.",
     "inputs schedules histories", "all specs, call durations and start offsets",
     "The project's own cron test is flaky wall-clock counting and is excluded from the stable tests.",
     "aiomisc/cron.py aiomisc/service/cron.py aiomisc/recurring.py", [("CronCallback.get_next", "aiomisc/cron.py")], [], "call instants on a virtual clock")
prop("E01", "Entrypoint starts every service once, and is ready only when all are started",
     "Every passed service gets its start() called exactly once, on the entrypoint's loop, after the pre-start hooks have completed and before the post-start hooks are called. "
     "Entering completes only when every service has either finished start() or set its start event, and fails with the exception of a service whose start() failed before that. "
     "A start() that continues after the start event keeps running in the background.",
     "schedules histories configurations", "all numbers of services, start durations, start-event and failure timings",
     "Tests start a few well-behaved services; ordering across concurrent starts and failures is not explored.",
     "aiomisc/entrypoint.py aiomisc/service/base.py", [("Entrypoint.start_services/_start_service", "aiomisc/entrypoint.py")], [], "service start(), hooks, __aenter__ result")
prop("E02", "Entrypoint stops every service exactly once, in order, whatever happens",
     "On exit, by normal end, by an exception or by an interrupt, still running start() tasks are cancelled, then after the pre-stop hooks every service's stop() is called exactly once with the causing exception (or None), and then post-stop hooks are called; with no service the hooks are called as well. "
     "A stop() that fails or is slow does not keep other services' stop() from being called, and exit waits for all of them. "
     "When the entrypoint owns the loop no background task survives it; when it does not, foreign tasks are left alone; the context and the closing() waiters are released.",
     "schedules histories fault_sequences configurations", "all combinations of stop durations and failures, interrupts at any moment",
     "Shutdown interleavings (interrupt during start or stop, failing stops) are not covered by the tests.",
     "aiomisc/entrypoint.py aiomisc/service/base.py", [("graceful_shutdown, stop_services, _on_interrupt", "aiomisc/entrypoint.py")], [], "service stop(), hooks, tasks alive at the end")
prop("X01", "Context values reach every waiter, and the latest value wins",
     "Awaiting a context key returns the value of a set of that key: every reader waiting when the first value is set gets exactly that value, and readers coming after a set gets the latest value set before. "
     "Sets take effect in order, also when made from other threads, keys are independent, and setting a key while it is awaited never loses a waiter.",
     "schedules histories", "all interleavings of sets and reads of several keys by tasks and threads",
     "Tests cover single sets; ordering of several sets and waiting readers is not sampled.",
     "aiomisc/context.py", [("Context.__setitem__/__getitem__", "aiomisc/context.py")], [], "awaited values")
prop("S01", "select returns the first finished awaitable and settles the rest",
     "select() returns the value of an awaitable that finished first, or raises its exception (or returns it with return_exceptions), never anything of a later one. "
     "Unless cancel=False all unfinished awaitables are cancelled, with wait=True before select returns; with cancel=False they keep running. "
     "Cancelling the caller cancels all of them and waits for them before the cancellation is reported.",
     "schedules inputs", "all completion orders, failures, cancellations and option combinations",
     "Options interact with completion order; tests take one order per option.",
     "aiomisc/utils.py", [("SelectAwaitable", "aiomisc/utils.py")], [], "result and state of the awaitables")
prop("S02", "cancel_tasks and shield: everything cancelled and awaited, nothing else",
     "The future returned by cancel_tasks completes only when every task passed to it has finished, each unfinished task having been cancelled exactly once, plain futures get a CancelledError, finished ones are untouched, and it never raises what the tasks raise. "
     "A shielded coroutine function runs to completion even when its caller is cancelled, the caller being cancelled at once, and otherwise passes result and exception through unchanged.",
     "schedules inputs", "all mixes of finished, slow-to-cancel, failing and stubborn tasks",
     "Tests cancel simple sleeping tasks only.",
     "aiomisc/utils.py", [("cancel_tasks, set_exception, shield", "aiomisc/utils.py")], [], "task states")
prop("H01", "Thread pool runs every submitted job exactly once, concurrently up to its size",
     "Each function submitted to the thread pool runs exactly once, in some pool thread, unless its future was cancelled before it started; its result or exception, whatever it is, reaches the awaiting loop. "
     "At most max_workers jobs run at the same time, and whenever jobs wait while fewer than max_workers run, another one starts without further action. "
     "Cancelling a waiting caller does not disturb other jobs, and a job whose loop was closed does not take down the pool's capacity for other loops.",
     "schedules histories fault_sequences", "all thread schedules of submitters, workers and loop, all job outcomes and cancellations",
     "Lost wake-ups and double runs need specific thread schedules; tests sample one schedule per run.",
     "aiomisc/thread_pool.py", [("ThreadPoolExecutor.submit, WorkItem, worker threads", "aiomisc/thread_pool.py")], [], "job functions and futures")
prop("H02", "Thread pool shutdown ends all threads and leaves no future pending",
     "shutdown() makes every pool thread end after its current job, and with wait it returns only then; it never hangs. "
     "Every job accepted before or during shutdown either runs or has its future failed or cancelled, none stays pending, and submitting after shutdown raises instead of accepting work.",
     "schedules histories", "all thread schedules of submit, run, cancel and shutdown",
     "Shutdown races with submits and busy workers are schedule dependent.",
     "aiomisc/thread_pool.py", [("ThreadPoolExecutor.shutdown", "aiomisc/thread_pool.py")], [], "futures, live threads")
prop("I01", "Threaded iterators deliver every item once, in order, then the true end",
     "An async iterator over a threaded generator yields exactly the generator's items, each once, in order, for any buffer size and any relative speed, and then ends with StopAsyncIteration, or with the generator's exception after all items produced before it. "
     "At most max_size items are produced ahead of consumption (plus the one being handed over).",
     "schedules inputs", "all thread schedules of producer and consumer, item counts and buffer sizes, exceptions",
     "Losing the last item or the exception needs a specific thread schedule.",
     "aiomisc/iterator_wrapper.py", [("FromThreadChannel, IteratorWrapper", "aiomisc/iterator_wrapper.py")], [], "items received")
prop("I02", "Closing a threaded iterator stops its producer thread and never hangs",
     "After close(), leaving the context manager, or dropping the iterator, the generator is closed in its thread (its finally blocks run), produces nothing more and its thread ends, even when it is blocked on a full buffer; waiting for the close returns. "
     "Iterating a closed iterator ends instead of hanging.",
     "schedules", "all thread schedules of close against produce and consume",
     "Close races with a producer blocked on a full buffer or just finishing.",
     "aiomisc/iterator_wrapper.py aiomisc/thread_pool.py", [("IteratorWrapper.close/wait_closed", "aiomisc/iterator_wrapper.py")], [], "generator finally blocks, close() completion")
prop("Y01", "Sync bridges always deliver the coroutine's outcome to the calling thread",
     "wait_coroutine, sync_wait_coroutine and sync_await called from a worker thread return the coroutine's result or raise its exception exactly once it finishes, including when it is cancelled, in the thread that called; the coroutine runs on the loop's thread, exactly once. "
     "A function run by threaded, threaded_separate or run_in_new_thread delivers its result or exception to the awaiting loop, with the caller's context variables.",
     "schedules inputs fault_sequences", "all thread schedules and outcomes (result, exception, cancellation)",
     "A hang shows only for cancelled coroutines and particular schedules.",
     "aiomisc/thread_pool.py", [("CoroutineWaiter", "aiomisc/thread_pool.py"), ("run_in_new_thread", "aiomisc/thread_pool.py")], [], "outcome in the thread")
prop("L01", "Buffered logging keeps every record, in order, and flushes on close",
     "A record handed to the threaded log handler is passed to the wrapped handler exactly once and in order, unless the buffer was full and buffering allows dropping; emitting never raises into the application nor blocks forever. "
     "Closing the handler delivers every accepted record and ends its thread.",
     "schedules histories", "all thread schedules of emitters, flusher and close, all buffer sizes",
     "Records lost on close or a deadlock with a full buffer need specific schedules.",
     "aiomisc/log.py", [("ThreadedHandler", "aiomisc/log.py")], [], "wrapped handler's emit")
prop("W01", "Worker pool calls each get their own outcome and run at most once",
     "Every call to a worker pool runs in at most one worker at a time and its caller gets that call's own result, or its own exception; calls are never mixed up between callers, however many workers fail or restart. "
     "A worker process is only sent a new task after it finished the previous one, and only processes presenting the pool's secret get tasks.",
     "schedules histories fault_sequences", "all orders of completion, worker loss and reconnection",
     "Tests run a few calls on healthy workers.",
     "aiomisc/worker_pool.py aiomisc_worker/protocol.py", [("WorkerPool task queue, handle_client", "aiomisc/worker_pool.py")], [], "worker-side protocol and results of create_task")
prop("W02", "Worker loss, cancellation and close never strand a caller",
     "When a worker is lost its running call fails at once, and other calls are served by the remaining or restarted workers. "
     "Cancelling a call that runs signals exactly the worker running it, a call that finished or has not started signals nobody and never runs later; a signal never corrupts or repeats a worker's reply. "
     "After close every pending call has failed or been cancelled, no worker stays connected, and new calls are refused.",
     "schedules histories fault_sequences crash_points", "worker deaths, cancellations and close at every point of the protocol",
     "Each point of the protocol is a distinct crash point; tests kill a worker in one of them.",
     "aiomisc/worker_pool.py aiomisc_worker/worker.py aiomisc_worker/forking.py", [("handle_client, create_task, close", "aiomisc/worker_pool.py"), ("main, fork", "aiomisc_worker/forking.py")], [], "callers' outcome, signals sent")
prop("W03", "Worker protocol delivers whole packets under any fragmentation",
     "The worker-side protocol and the pool-side protocol decode exactly the sequence of packets the other side sent, for every payload size and every splitting of the byte stream, and a truncated stream is reported as an error rather than as a packet.",
     "inputs schedules", "all payloads and all fragmentations of the stream",
     "Tests send small packets over a local socket that never fragments.",
     "aiomisc_worker/protocol.py aiomisc/worker_pool.py", [("AsyncProtocol, SyncProtocol", "aiomisc_worker/protocol.py")], [], "decoded packets")
prop("D01", "DNS store answers every query from the most specific zone, exactly",
     "A query returns exactly the records with that name and type in the most specific zone of the store that contains the name, and nothing if no zone contains it, and regardless of the order in which zones and records were added, replaced or removed. "
     "A zone accepts only records at or below its name, a record is returned once however often it was added, and a removed zone or record is never returned.",
     "inputs histories", "all sets of zones and records and all sequences of changes",
     "Lookup depends on nesting of zones and history of removals; tests use one or two zones.",
     "aiomisc/service/dns/store.py aiomisc/service/dns/tree.py aiomisc/service/dns/zone.py aiomisc/service/dns/records.py", [("DNSStore.query, RadixTree.find_prefix", "aiomisc/service/dns")], [], "DNSStore.query")
prop("D02", "DNS server answers each request with its own id, question and complete answer",
     "Every well-formed query, over UDP or TCP, gets exactly one reply with its id and question, authoritative, holding exactly the records the store has for it, and NXDOMAIN exactly when there are none. "
     "Over TCP each message is length-prefixed, any fragmentation or pipelining of requests gives the same replies in order, and a malformed or truncated request yields no reply and disturbs no other client. "
     "A UDP reply never exceeds the size the client can accept, being marked truncated instead.",
     "inputs schedules", "all queries, fragmentations and pipelinings",
     "Tests send one whole query at a time.",
     "aiomisc/service/dns/service.py", [("handle_request, handle_client", "aiomisc/service/dns/service.py")], [], "bytes sent to clients")
prop("T01", "Published statistics always equal the true history of operations",
     "At every quiescent point get_statistics() reports for each live component exactly what happened: counts of calls, attempts, successes, errors and cancellations, gauges such as limits and queue sizes as configured, and each instance under its own name. "
     "A metric never disappears or freezes when it is assigned, and filtering by kind returns that kind only.",
     "histories", "all histories of operations of the instrumented components",
     "Only a few counters are compared with a fixed number after one scenario.",
     "aiomisc/counters.py aiomisc/backoff.py aiomisc/circuit_breaker.py aiomisc/aggregate.py aiomisc/recurring.py aiomisc/context.py aiomisc/thread_pool.py aiomisc/iterator_wrapper.py aiomisc/worker_pool.py aiomisc/log.py", [("Statistic/Metric", "aiomisc/counters.py")], [], "get_statistics()")
prop("N01", "Stream and datagram servers serve every client and stop completely",
     "A started TCP, UDP or UNIX service calls its handler once per accepted connection or datagram, with the peer's own data, handlers of different clients running independently so that a slow or failing one disturbs no other; the connection of a failed handler is closed. "
     "After stop() no handler is running, every connection is closed and nothing more is accepted.",
     "schedules histories fault_sequences", "all orders of connects, data, failures, disconnects and stop",
     "Stop with busy handlers and failing clients is not explored.",
     "aiomisc/service/tcp.py aiomisc/service/udp.py aiomisc/service/base.py", [("TCPServer, UDPServer, SimpleServer.stop", "aiomisc/service")], [], "handler calls and sockets")
prop("N02", "The robust TCP client reconnects after every loss until stopped",
     "Clients (TCP and TLS) keep at most one connection and hand each established one to the handler. An attempt failed by a connection error is repeated after the retry timeout, connect_attempts times. "
     "The robust client connects again after its reconnect timeout whenever its handler failed or all attempts did, without limit, until the handler ends normally; the plain client ends with the error, and after its first handler. "
     "The connection of a failed handler is closed. After stop() there is no connection, no handler running and no further attempt.",
     "schedules fault_sequences", "all sequences of refused, lost and failing connections and stop at any point",
     "Tests reconnect once.",
     "aiomisc/service/tcp.py aiomisc/service/tls.py", [("TCPClient, RobustTCPClient", "aiomisc/service/tcp.py"), ("TLSClient, RobustTLSClient", "aiomisc/service/tls.py")], [], "connections seen by the server")
prop("V01", "Process services run one child, restart it when asked to, and kill it on stop",
     "A process service starts exactly one child, which calls its hook once with the process arguments; start() returns when the child is up, and fails if it died before. stop() interrupts the child, and kills it if it is still there after process_stop_timeout; after stop() the child is gone, whenever stop() was called. "
     "The respawning variant replaces a child that exits within its poll timeout, never runs two at once and leaves none after stop.",
     "schedules fault_sequences crash_points", "child exits, hangs and failures at any point, stop at any point",
     "Tests start and stop a healthy child.",
     "aiomisc/service/process.py", [("ProcessService, RespawningProcessService", "aiomisc/service/process.py")], [], "child processes")
prop("V02", "systemd gets READY after start, periodic WATCHDOG, and STOPPING before the end",
     "With a notify socket the watchdog service sends STATUS=Starting before the services start, STATUS=Started and READY=1 once, and only if all services were started, STATUS=Stopping before the services are stopped and STOPPING=1 once they are, and nothing after it. "
     "With a watchdog interval, from WATCHDOG_USEC or its argument, WATCHDOG=1 is sent from the start of the service until its stop at every half of the interval; an interval which differs from the one of the environment is announced by WATCHDOG_USEC before. "
     "Messages which cannot be sent change nothing else; without a socket nothing is sent and nothing fails.",
     "histories configurations", "all lifetimes, intervals and environments",
     "Tests look for one message of each kind.",
     "aiomisc/service/sdwatchdog.py", [("SDWatchdogService", "aiomisc/service/sdwatchdog.py")], [], "datagrams on the notify socket")
prop("F01", "Async file operations behave as the same operations on a plain file",
     "Any sequence of reads, writes, seeks, truncates, tells, line reads and iterations on an async file returns what the same sequence on an ordinary file returns, leaves the same content, and raises the same errors; concurrent operations on one file take effect one at a time. "
     "The file is closed when the context manager is left, however it is left, and compressed files round-trip.",
     "inputs histories schedules", "all operation sequences, modes and contents",
     "Tests call each method once.",
     "aiomisc/io.py", [("AsyncFileIO", "aiomisc/io.py")], [], "results and file content")
prop("G01", "Signals call each connected receiver once, in isolation between copies",
     "Calling a signal awaits every connected receiver exactly once with the given arguments, one after another, and stops at the first that raises; receivers connected twice run once and disconnected ones never. "
     "A frozen signal cannot be changed but still calls its receivers; a copy is unfrozen and changes to either never affect the other.",
     "histories", "all sequences of connect, disconnect, freeze, copy and call",
     "Tests do one connect and call per case.",
     "aiomisc/signal.py", [("Signal", "aiomisc/signal.py")], [], "receiver calls")
prop("Q01", "Process pool delivers each job's own outcome and shuts down completely",
     "Every job submitted to the process pool yields its own result or exception to its caller, cancelled ones count as such, and the pool's statistics account for each submitted job exactly once. "
     "After shutdown its processes are gone and submitting raises.",
     "schedules histories fault_sequences", "all mixes of results, exceptions and cancellations",
     "Tests run a few jobs that succeed.",
     "aiomisc/process_pool.py", [("ProcessPoolExecutor.submit", "aiomisc/process_pool.py")], [], "futures and statistics")

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
