"""Property -> components that decide it."""
VIRTUAL = "asyncio is exercised on a deterministic loop with a virtual clock (SelectorEventLoop subclass); uvloop is not explored"
THREADS = "real threads under a deterministic scheduler which switches threads at synchronisation primitives and between lines of aiomisc; switches inside a line are not explored; time is virtual"

REGISTRY = {
    "P01": dict(components=["pool"], specs=["Pool"], assumptions=[VIRTUAL]),
    "P02": dict(components=["pool"], specs=["Pool"], assumptions=[VIRTUAL, "close() is called while no acquire is in progress"]),
    "A01": dict(components=["aggregate"], specs=["Aggregate"], assumptions=[VIRTUAL]),
    "B01": dict(components=["backoff"], specs=["Backoff"], assumptions=[VIRTUAL, "limits of exactly 0 are not explored"]),
    "B02": dict(components=["backoff"], specs=["Backoff"], assumptions=[VIRTUAL, "limits of exactly 0 are not explored"]),
    "K01": dict(components=["circuit_breaker"], specs=["CircuitBreaker"], assumptions=[VIRTUAL, "random.random is replaced by controlled draws; times are multiples of 125 ms, response times whole seconds"]),
    "K02": dict(components=["circuit_breaker"], specs=["CircuitBreaker"], assumptions=[VIRTUAL, "random.random is replaced by controlled draws; times are multiples of 125 ms, response times whole seconds"]),
    "R01": dict(components=["recurring"], specs=["Recurring"], assumptions=[VIRTUAL]),
    "R02": dict(components=["recurring"], specs=["Recurring"], assumptions=[VIRTUAL, "wall clock and loop clock advance together; day-of-month and month fields are *"]),
    "X01": dict(components=["context"], specs=["Context"], assumptions=[VIRTUAL]),
    "G01": dict(components=["signal_"], specs=["Signal"], assumptions=[VIRTUAL]),
    "S01": dict(components=["settle"], specs=["Settle"], assumptions=[VIRTUAL]),
    "S02": dict(components=["settle"], specs=["Settle"], assumptions=[VIRTUAL]),
    "E01": dict(components=["entrypoint_"], specs=["Entrypoint"], assumptions=[VIRTUAL, "hooks do not fail; start_services() and stop_services() do not run concurrently with the shutdown"]),
    "E02": dict(components=["entrypoint_"], specs=["Entrypoint"], assumptions=[VIRTUAL, "hooks do not fail; start_services() and stop_services() do not run concurrently with the shutdown"]),
    "T01": dict(components=["counters", "backoff", "circuit_breaker", "aggregate", "recurring", "context", "logh", "thread_pool", "channel", "worker_pool_", "process_pool_", "bridge"], specs=["Counters", "Backoff", "CircuitBreaker", "Aggregate", "Recurring", "Context", "LogHandler", "ThreadPool", "Channel", "WorkerPool", "ProcessPool", "Bridge"], assumptions=[VIRTUAL, THREADS]),
    "H01": dict(components=["thread_pool"], specs=["ThreadPool"], assumptions=[THREADS, "the second event loop of a script is never run"]),
    "H02": dict(components=["thread_pool"], specs=["ThreadPool"], assumptions=[THREADS]),
    "I01": dict(components=["channel"], specs=["Channel"], assumptions=[THREADS]),
    "I02": dict(components=["channel"], specs=["Channel"], assumptions=[THREADS, "a generator which waits for something else cannot be interrupted until it goes on"]),
    "Y01": dict(components=["bridge"], specs=["Bridge"], assumptions=[THREADS, "the event loop is not closed while threads wait"]),
    "L01": dict(components=["logh"], specs=["LogHandler"], assumptions=[THREADS, "records emitted while the handler is being closed may be dropped"]),
    "W01": dict(components=["worker_pool_", "worker_side", "workforce"], specs=["WorkerPool", "Worker", "Workforce"], assumptions=[VIRTUAL, "in the first two components worker processes are played by the script over in-memory connections, and the code of a worker process runs in the checking process with its socket played by the script"]),
    "W02": dict(components=["worker_pool_", "worker_side", "workforce"], specs=["WorkerPool", "Worker", "Workforce"], assumptions=[VIRTUAL, "in the first two components worker processes are played by the script over in-memory connections, and the code of a worker process runs in the checking process with its socket played by the script; signals arrive between lines of it", "in the third one real processes run in real time, and have 30 s to do what they must", "a signal which reaches a worker process before it began the request, or after it replied, may end it"]),
    "W03": dict(components=["framing"], specs=["Framing"], assumptions=["sockets and files are played by the script"]),
    "D01": dict(components=["dns_"], specs=["Dns"], assumptions=["names, types and values of records come from small pools"]),
    "D02": dict(components=["dns_"], specs=["Dns"], assumptions=[VIRTUAL, "requests come over in-memory transports and are read back with dnslib"]),
    "N01": dict(components=["server"], specs=["Server"], assumptions=[VIRTUAL, "transports are in memory; TLS itself is not exercised", "clients read what they are sent; handlers end when they are cancelled, some only after a cleanup"]),
    "N02": dict(components=["client"], specs=["Client"], assumptions=[VIRTUAL, "the network is played by the script; TLS itself is not exercised"]),
    "V01": dict(components=["process_"], specs=["Process"], assumptions=[VIRTUAL, "child processes, their events and signals are played by the script; what runs in a child runs in a thread of the checking process"]),
    "V02": dict(components=["watchdog"], specs=["Watchdog"], assumptions=[VIRTUAL, "systemd reads its socket at once; WATCHDOG_INTERVAL, computed at import, is set as the import would"]),
    "F01": dict(components=["file_"], specs=["File"], assumptions=[THREADS, "files are small; the files of concurrent operations are those of the Python implementation of io, of bz2 and lzma, whose lines may interleave"]),
    "Q01": dict(components=["process_pool_"], specs=["ProcessPool"], assumptions=["real processes of the fork start method in real time; what they do next is decided by the script", "max_tasks_per_child, and a process dying or a shutdown while the arguments of another job cannot be pickled (CPython deadlocks), are not explored"]),
    "A02": dict(components=["aggregate"], specs=["Aggregate"], assumptions=[VIRTUAL]),
}

NOT_APPLICABLE = {}
