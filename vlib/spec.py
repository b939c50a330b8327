"""Which workloads decide which property. The statements are in properties.jsonl."""

LEVEL_NOTE = ("Oracles watch executions of the real library: what the generated workloads, injected delays and chaotic scheduling do not "
              "reach is not judged.")


def w(driver, flavour, scenario, cases, reps, **kw):
    return dict(driver=driver, flavour=flavour, scenario=scenario, cases=cases, reps=reps, **kw)


def mix(driver, scenario, cases=6, asan=2, chaos=3, tsan=1, plain=0, threads=(None, 2, 1), **kw):
    """the usual mixture: memory errors, chaotic preemption, data races"""
    out = []
    t = list(threads)
    if asan:
        out.append(w(driver, "asan", scenario, cases, asan, threads=t, **kw))
    if chaos:
        out.append(w(driver, "chaos", scenario, cases, chaos, threads=t[1:] + t[:1], modes=[0, 1, 2, 0, 3], **kw))
    if tsan:
        out.append(w(driver, "tsan", scenario, max(2, cases * 2 // 3), tsan, threads=t, modes=[1, 2, 0], **kw))
    if plain:
        out.append(w(driver, "plain", scenario, cases * 3, plain, threads=t, **kw))
    return out


def qt(driver, scenario, cases=5, reps=1, chaos=0, **kw):
    """the same workload on queues, timers and groups of the Qt backend"""
    out = [w(driver, "asan", scenario, cases, reps, qt=True, backend="qt5", threads=[None, 2], **kw)] if reps else []
    if chaos:
        out.append(w(driver, "chaos", scenario, cases, chaos, qt=True, backend="qt5", threads=[2, None], modes=[0, 1], **kw))
    return out


PROPERTIES = {}


def prop(pid, technique, runs, level_note="", assumptions=()):
    PROPERTIES[pid] = dict(technique=technique, runs=runs, level_note=level_note or LEVEL_NOTE, assumptions=list(assumptions))


def T(*t):
    return tuple(None if x == 0 else x for x in t)


ALL = T(0, 2, 1, 8)
IDLE = dict(VH_IDLE_MS=["1", "3", "10", "20"])

prop("C01", "event-log oracle for FIFO order and mutual exclusion over stress workloads with injected delays and preemption; ASan/UBSan, TSan",
     mix("queue", "serial_order", 8, asan=16, chaos=30, tsan=10, plain=4, threads=ALL) +
     mix("queue", "serial_mixed", 6, asan=14, chaos=26, tsan=8, threads=ALL) + qt("queue", "serial_order", 5, 12, 8) + qt("queue", "serial_mixed", 5, 8, 6))

prop("C02", "conservation (exactly-once) monitor and quiescence-based stuck oracle over stress workloads with injected delays and preemption",
     mix("queue", "exactly_once", 6, asan=16, chaos=28, tsan=8, plain=4, threads=ALL) + mix("queue", "trickle", 6, asan=12, chaos=24, tsan=4, threads=ALL) +
     mix("queue", "churn", 4, asan=10, chaos=16, tsan=4, threads=ALL) +
     [w("queue", "chaos", "trickle", 6, 16, threads=list(T(0, 2, 1)), env=dict(VH_IDLE_MS=["1", "5", "20"]), modes=[0, 1, 2])] +
     qt("queue", "exactly_once", 4, 8, 6) + qt("queue", "trickle", 4, 6, 6))

prop("C03", "lifetime tokens captured in operations, heap accounting between rounds, ASan/LSan",
     mix("queue", "lifetime", 8, asan=24, chaos=30, tsan=8, leaks=True, threads=ALL) +
     [w("queue", "plain", "no_growth", 4, 6, threads=[None, 2]), w("queue", "chaos", "no_growth", 2, 4, threads=[2, None]),
      w("queue", "asan", "no_growth", 2, 6, threads=[None, 1], leaks=True)] + qt("queue", "lifetime", 4, 10, 8))

prop("C04", "per-index counters, unsynchronised publication check and event log around apply(); stuck oracle; TSan for visibility",
     mix("queue", "apply", 8, asan=24, chaos=44, tsan=16, plain=4, threads=ALL) + qt("queue", "apply", 5, 12, 8) +
     mix("wqueue", "apply_after", 6, asan=6, chaos=12, tsan=4, threads=ALL))

prop("C05", "clock oracle: not early, once, on the queue, released; best-of-many lateness bound; stuck oracle",
     mix("queue", "after", 5, asan=20, chaos=30, tsan=8, threads=ALL) + [w("queue", "plain", "after_latency", 2, 4, threads=[None, 2])] +
     qt("queue", "after", 4, 10, 6))

prop("C06", "history checker for wait() (completion before return, false only after the timeout), stuck oracle, heap and stack growth, TSan for visibility",
     mix("group", "wait_random", 6, asan=14, chaos=24, tsan=10, threads=ALL) + mix("group", "wait_gated", 6, asan=8, chaos=12, tsan=3, threads=ALL) +
     mix("group", "wait_in_pool", 6, asan=10, chaos=20, tsan=4, threads=T(1, 2, 0)) + mix("group", "wait_poll", 2, asan=4, chaos=5, tsan=2) +
     mix("group", "wait_pingpong", 6, asan=8, chaos=20, tsan=4, threads=ALL) +
     mix("group", "history", 8, asan=10, chaos=20, tsan=6, threads=ALL) + qt("group", "history", 6, 5, 4) + qt("group", "wait_random", 5, 6, 6) + qt("group", "wait_gated", 4, 3, 2) +
     qt("group", "wait_in_pool", 4, 4, 2))

prop("C07", "history checker for notifications: once, after every earlier operation of the group, on the queue; gates prove that notify() does not block",
     mix("group", "notify_random", 6, asan=24, chaos=40, tsan=12, threads=ALL) + mix("group", "notify_gated", 6, asan=18, chaos=30, tsan=8, threads=ALL) +
     mix("group", "history", 8, asan=10, chaos=20, tsan=6, threads=ALL) +
     qt("group", "notify_random", 5, 8, 6) + qt("group", "notify_gated", 5, 6, 4))

prop("C08", "clock and event-log oracle on firings: not early, rate-bounded, not overlapping, on the queue, keeps firing; stuck oracle",
     mix("timer", "fire", 4, asan=8, chaos=14, tsan=4) + mix("timer", "suspend_resume", 4, asan=8, chaos=14, tsan=4) +
     mix("timer", "concurrent_control", 4, asan=8, chaos=14, tsan=4) + mix("timer", "single_shot", 4, asan=8, chaos=12, tsan=3) +
     mix("timer", "busy_queue", 4, asan=6, chaos=10, tsan=3) + mix("timer", "reconfigure", 4, asan=8, chaos=14, tsan=4) +
     mix("timer", "many", 3, asan=5, chaos=8, tsan=2) + [w("timer", "plain", "latency", 2, 3, threads=[None])] +
     [x for s in ("fire", "suspend_resume", "single_shot", "reconfigure", "concurrent_control") for x in qt("timer", s, 3, 3, 2)])

prop("C09", "event-log oracle: no handler begins or is active once cancel() returned; lifetime tokens; stuck oracle on cancel()",
     mix("timer", "cancel_race", 6, asan=16, chaos=30, tsan=8, threads=ALL) + mix("timer", "cancel_pending", 5, asan=12, chaos=22, tsan=6, threads=ALL) +
     mix("timer", "cancel_self", 5, asan=12, chaos=20, tsan=5, threads=ALL) + mix("timer", "cancel_chain", 5, asan=8, chaos=14, tsan=4, threads=ALL) +
     [x for s in ("cancel_race", "cancel_pending", "cancel_self", "cancel_chain") for x in qt("timer", s, 4, 4, 3)])

prop("C10", "real pipes and sockets: bytes conserved, handler only while poll() agrees, arguments, no overlap, exactly-pending monitor; stuck oracle",
     mix("notifier", "read_data", 5, asan=14, chaos=24, tsan=6, threads=ALL) + mix("notifier", "write_ready", 5, asan=10, chaos=16, tsan=4, threads=ALL) +
     mix("notifier", "levels", 5, asan=10, chaos=16, tsan=4, threads=ALL) + mix("notifier", "invalid", 4, asan=6, chaos=8, tsan=2, threads=ALL) +
     mix("notifier", "many", 3, asan=6, chaos=10, tsan=2, threads=ALL) + qt("notifier", "read_data", 4, 4, 3) + qt("notifier", "levels", 4, 3, 2) +
     [w("notifier", "asan", "quiet", 1, 3, threads=list(T(0, 1, 2))), w("notifier", "chaos", "quiet", 1, 3, threads=list(T(1, 0, 2)))] +
     [w("notifier", "chaos", s, 4, 8, threads=list(ALL), modes=[0, 1, 2], env=IDLE) for s in ("quiet", "read_data", "levels", "write_ready")])

prop("C11", "event-log oracle around suspend()/cancel() with real descriptors; lifetime tokens; stuck oracle",
     mix("notifier", "suspend_resume", 5, asan=10, chaos=18, tsan=5, threads=ALL) + mix("notifier", "busy_queue", 5, asan=8, chaos=14, tsan=4, threads=ALL) +
     mix("notifier", "concurrent_control", 5, asan=8, chaos=14, tsan=4, threads=ALL) + mix("notifier", "cancel_race", 5, asan=10, chaos=18, tsan=5, threads=ALL) +
     mix("notifier", "cancel_pending", 5, asan=8, chaos=12, tsan=3, threads=ALL) + mix("notifier", "cancel_self", 5, asan=8, chaos=12, tsan=3, threads=ALL) +
     [x for s in ("suspend_resume", "cancel_race", "cancel_pending", "cancel_self") for x in qt("notifier", s, 4, 3, 2)] +
     [w("notifier", "chaos", s, 4, 8, threads=list(ALL), modes=[0, 1, 2], env=IDLE) for s in ("suspend_resume", "cancel_race", "concurrent_control")])

prop("C12", "exactly-once, value and order checker over deliveries per handler; gates prove that emitting does not wait; TSan",
     mix("signal", "emit_random", 6, asan=16, chaos=30, tsan=10, threads=ALL) + mix("signal", "emit_order", 5, asan=12, chaos=24, tsan=5, threads=ALL) +
     mix("signal", "emit_blocked", 5, asan=8, chaos=14, tsan=4, threads=ALL) + qt("signal", "emit_random", 4, 6, 4) + qt("signal", "emit_order", 4, 4, 3))

prop("C13", "checker over emit and invocation logs: collapsing while gated, an invocation after the last emit, at most one per emit",
     mix("signal", "batch_gated", 6, asan=16, chaos=26, tsan=6, threads=ALL) + mix("signal", "batch_stress", 6, asan=20, chaos=40, tsan=10, threads=ALL) +
     qt("signal", "batch_gated", 4, 5, 4) + qt("signal", "batch_stress", 5, 6, 5))

prop("C14", "event-log oracle: no invocation begins or is active once disconnecting returned; lifetime tokens; stuck oracle",
     mix("signal", "disconnect_race", 6, asan=14, chaos=30, tsan=8, threads=ALL) + mix("signal", "disconnect_pending", 6, asan=12, chaos=22, tsan=6, threads=ALL) +
     mix("signal", "disconnect_self", 6, asan=10, chaos=18, tsan=5, threads=ALL) + mix("signal", "disconnect_copies", 6, asan=10, chaos=18, tsan=5, threads=ALL) +
     [x for s in ("disconnect_race", "disconnect_pending", "disconnect_self", "disconnect_copies") for x in qt("signal", s, 5, 3, 3)])

prop("C15", "ASan/TSan over random lifecycles of signals, connections, scoped connections and managers against a reference model; lifetime tokens; stuck oracle",
     mix("signal", "lifecycle", 8, asan=24, chaos=30, tsan=8, threads=ALL) + mix("signal", "handles", 6, asan=14, chaos=16, tsan=4, threads=ALL) +
     mix("signal", "reentrant", 6, asan=14, chaos=22, tsan=5, threads=ALL) + qt("signal", "lifecycle", 5, 6, 4) + qt("signal", "reentrant", 4, 3, 3))

prop("C16", "history checker for barrier waits against the event, value checker, stuck oracle; TSan for visibility",
     mix("signal", "barrier_op", 6, asan=10, chaos=16, tsan=4, threads=ALL) + mix("signal", "barrier_race", 5, asan=12, chaos=28, tsan=6, threads=ALL) +
     mix("signal", "signal_barriers", 6, asan=10, chaos=16, tsan=4, threads=ALL) + mix("signal", "signal_barrier_race", 6, asan=12, chaos=26, tsan=8, threads=ALL) +
     [x for s in ("barrier_op", "barrier_race", "signal_barriers", "signal_barrier_race") for x in qt("signal", s, 4, 2, 2)])

prop("C17", "FIFO history checker plus completion oracle around wait_for_all()/wait_for_one(); dormant and blocked inner queues; stuck oracle; TSan",
     mix("wqueue", "order", 6, asan=12, chaos=24, tsan=6, threads=ALL) + mix("wqueue", "starving", 6, asan=10, chaos=16, tsan=4, threads=ALL) +
     mix("wqueue", "one_by_one", 5, asan=6, chaos=10, tsan=3, threads=ALL) + mix("wqueue", "active_op", 12, asan=5, chaos=10, tsan=3, threads=ALL) +
     mix("wqueue", "in_pool", 6, asan=8, chaos=16, tsan=4, threads=T(1, 2, 0)) + mix("wqueue", "apply_after", 6, asan=8, chaos=14, tsan=4, threads=ALL) +
     mix("wqueue", "lifetime", 5, asan=8, chaos=12, tsan=3, threads=ALL, leaks=True) + [x for s in ("order", "apply_after", "lifetime") for x in qt("wqueue", s, 4, 3, 2)])

prop("C18", "rendezvous workloads needing the full capacity, nested waiting with one thread, shortened idle expiry; quiescence-based stuck oracle",
     mix("pool", "meet", 5, asan=10, chaos=22, tsan=5, threads=ALL) + mix("pool", "blocked", 6, asan=10, chaos=22, tsan=5, threads=T(1, 2, 0)) +
     mix("pool", "blocked_gated", 8, asan=10, chaos=22, tsan=5, threads=ALL) + mix("pool", "sources", 5, asan=8, chaos=16, tsan=4, threads=ALL) +
     [w("pool", "chaos", "idle", 3, 20, threads=list(T(0, 2, 1)), modes=[0, 1, 2], env=IDLE), w("pool", "chaos", "meet", 4, 12, threads=list(T(2, 1, 0)), modes=[0, 2, 1], env=IDLE),
      w("pool", "asan", "idle", 3, 4, threads=[None, 2, 1])] + qt("group", "wait_in_pool", 4, 4, 2) + qt("loop", "pool_wait", 4, 6, 6))

prop("C19", "peak and thread-set monitors inside operations against twice the configured thread count, rendezvous for the full capacity, thread census of the process",
     mix("pool", "bound", 6, asan=10, chaos=24, tsan=6, threads=ALL) + mix("pool", "bound_startup", 6, asan=10, chaos=28, tsan=6, threads=ALL) +
     mix("pool", "no_pileup", 5, asan=8, chaos=16, tsan=4, threads=ALL) + mix("pool", "meet", 3, asan=4, chaos=8, tsan=0, threads=ALL) +
     [w("pool", "chaos", "expire", 4, 16, threads=list(T(0, 2, 1)), modes=[0, 1, 2], env=IDLE)])

prop("C20", "start-order checker per priority over a saturated pool: a lower operation only starts with fewer than the number of threads higher ones pending",
     mix("pool", "priorities", 5, asan=20, chaos=34, tsan=10, threads=T(1, 2, 0, 8)) + mix("pool", "priorities_arriving", 5, asan=14, chaos=24, tsan=6, threads=T(1, 2, 0)) +
     mix("pool", "custom_queues", 5, asan=4, chaos=8, tsan=2) + qt("loop", "pool_priorities", 5, 10, 8))

prop("C25", "a monitored thread pool implementing the public interface records every call; per-thread balance, bounded tasks, priorities, release thread; ASan, TSan",
     mix("pool", "custom_queues", 5, asan=12, chaos=24, tsan=6) + mix("pool", "custom_fair", 3, asan=6, chaos=8, tsan=2) +
     mix("pool", "custom_blocking", 10, asan=10, chaos=24, tsan=5) + mix("pool", "custom_release", 4, asan=12, chaos=24, tsan=5))

prop("C26", "generation oracle around skip_all(): nothing queued before starts after it, everything emitted later arrives; gates prove it does not wait",
     mix("signal", "skip_gated", 6, asan=16, chaos=26, tsan=6, threads=ALL) + mix("signal", "skip_active", 6, asan=12, chaos=22, tsan=6, threads=ALL) +
     mix("signal", "skip_race", 5, asan=14, chaos=26, tsan=8, threads=ALL) + qt("signal", "skip_gated", 5, 4, 3) + qt("signal", "skip_race", 4, 4, 3))

NOT_APPLICABLE = {}

prop("C21", "TSan over all parts of the library; unsynchronised cells which only the promised ordering protects; mixed use of shared objects from many threads",
     mix("misc", "visibility", 4, asan=10, chaos=30, tsan=50, threads=ALL) + mix("misc", "mixed", 4, asan=14, chaos=24, tsan=50, threads=ALL) +
     [w(d, "tsan", s, 3, 6, threads=list(ALL), modes=[2, 1, 0, 4, 3]) for d, s in (
         ("queue", "exactly_once"), ("queue", "serial_mixed"), ("queue", "apply"), ("group", "wait_random"), ("group", "notify_random"), ("timer", "concurrent_control"),
         ("timer", "cancel_race"), ("notifier", "concurrent_control"), ("notifier", "read_data"), ("signal", "emit_random"), ("signal", "batch_stress"),
         ("signal", "lifecycle"), ("signal", "barrier_race"), ("signal", "signal_barrier_race"), ("wqueue", "order"), ("wqueue", "starving"), ("pool", "blocked"),
         ("pool", "custom_queues"))] +
     [w("pool", "tsan", "idle", 2, 4, threads=[2, None], modes=[0, 1], env=IDLE)] + qt("misc", "visibility", 4, 8, 8) + qt("misc", "mixed", 4, 6, 6))

prop("C22", "thread-identity and order monitor on every operation and handler of the main queue, Qt threads and Qt pools; event loops started, paused and torn down",
     mix("loop", "main_queue", 4, asan=12, chaos=20, tsan=8, threads=ALL) + mix("loop", "main_and_pool", 4, asan=10, chaos=18, tsan=6, threads=ALL) +
     [x for s in ("main_queue", "main_and_pool", "main_paused", "thread_queues", "thread_drop", "pool_queues", "pool_drop", "pool_wait") for x in qt("loop", s, 4, 10, 10)])

prop("C23", "exception monitor over all pairs of object kinds and backends, with recording stand-ins for the implementations and with the real backends",
     mix("misc", "backends", 6, asan=10, chaos=14, tsan=4, plain=4, threads=ALL) + qt("misc", "backends", 6, 12, 12))

prop("C24", "object-liveness monitor on the handlers of a QObject over random orders of emits, destruction and disconnects; ASan",
     [x for s in ("object_model", "object_race", "object_slot") for x in qt("loop", s, 5, 24, 24)])

prop("C27", "exit status and sanitizer monitor over child processes ending from main(), operations, handlers and threads while everything is busy; hang limit",
     mix("atexit", "exit_main", 4, asan=16, chaos=30, tsan=8, plain=6, threads=ALL) + mix("atexit", "exit_elsewhere", 4, asan=20, chaos=36, tsan=10, plain=8, threads=ALL) +
     mix("atexit", "exit_handler", 4, asan=20, chaos=36, tsan=10, plain=8, threads=ALL) +
     [x for s in ("exit_main", "exit_elsewhere", "exit_handler") for x in qt("atexit", s, 4, 6, 6)])

prop("C28", "result and clock oracle for every interface taking a duration over boundary values; UBSan; stuck oracle",
     mix("misc", "extreme_waits", 4, asan=24, chaos=24, tsan=6, plain=4, threads=ALL) + mix("misc", "extreme_delays", 6, asan=24, chaos=24, tsan=6, plain=4, threads=ALL) +
     [w("misc", f, "extreme_config", 2, 5, threads=[None], env=dict(XDISPATCH2_THREAD_COUNT=["0", "-5", "abc", "1000", "3"])) for f in ("asan", "chaos")] +
     qt("misc", "extreme_waits", 3, 6, 4) + qt("misc", "extreme_delays", 4, 6, 4))
