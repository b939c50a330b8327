import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=wh) for n,wh in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=wh) for n,m,wh in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

N='src/naive/'
p('C01','Serial queues execute in submission order and never two operations at once',
 "Operations submitted to a serial queue start in an order that agrees with the order of their submissions whenever one submission returned before the other began, and no operation starts before its predecessor has ended. This holds for every priority, every backend, any number of submitting threads, and for operations submitted from within operations; everything an operation did is visible to the next one.",
 ['schedules','programs','configurations'],"all interleavings of submitters, draining pool threads and queue creation/destruction; all submission programs, pool sizes and priorities",
 "The tests submit a handful of operations from one thread and compare the order; whether two pool threads can ever drain the same queue depends on the interleaving of the hand-over between drains, which they do not vary.",
 [N+'naive_operation_queue.cpp',N+'naive_serial_queue.cpp','src/qt5/qt5_serial_queue.cpp','src/queue.cpp'],
 [('only the submission finding the queue empty schedules a drain; entries are removed after execution',N+'naive_operation_queue.cpp: operation_queue::async_unsafe, drain'),('drain re-schedules itself after a bounded batch',N+'naive_operation_queue.cpp: operation_queue::drain')],
 ['queue::async call/return','operation begin/end'],[('pending jobs','operations submitted and not completed',N+'naive_operation_queue.h')])
p('C02','Every submitted operation is executed exactly once',
 "Every operation handed to any queue is executed exactly once: none is lost, duplicated or left waiting while the process is otherwise idle. This includes operations submitted right before the last handle to the queue is dropped, from within other operations, and at the moment worker threads fall asleep, wake up or expire.",
 ['schedules','histories','configurations'],"all interleavings of submission, worker sleep/wake/expiry and queue destruction; all submission histories",
 "The tests count a few operations in a busy process; a lost wake-up or an operation dropped with its queue needs a submission inside windows of a few instructions.",
 [N+'naive_operation_queue.cpp',N+'naive_threadpool.cpp',N+'naive_semaphore.cpp',N+'naive_parallel_queue.cpp',N+'naive_operation_queue_manager.cpp'],
 [('queue object outlives its handles until drained',N+'naive_operation_queue.cpp: operation_queue::detach'),('counting semaphore released once per queued entry',N+'naive_threadpool.cpp: threadpool::execute'),('expiring worker re-checks for work',N+'naive_threadpool.cpp: worker::run')],
 ['queue::async','operation begin'])
p('C03','Operations stay alive until executed and are released afterwards',
 "An operation and everything captured by it stay valid until it has finished executing, and are destroyed afterwards without waiting for further activity on the queue. Destroying it never deadlocks, even when what it owns uses or owns the queue, and repeating a workload does not accumulate memory.",
 ['schedules','programs','histories'],"all interleavings of execution, release and queue destruction; all ownership graphs between operations and queues",
 "The tests never look at object lifetimes; a use-after-free or leak there goes unnoticed without instrumentation and depends on which thread drops the last reference.",
 [N+'naive_operation_queue.cpp',N+'naive_operations.cpp',N+'naive_threadpool.cpp','include/xdispatch/operation.h'],
 [('operation released outside of the lock before the next one is taken',N+'naive_operation_queue.cpp: operation_queue::drain'),('self-hosted delayed operations break their own cycle',N+'naive_operations.cpp: delayed_operation')],
 ['captured object construction/destruction','heap blocks'])
p('C04','apply() runs every index exactly once and returns only when all are done',
 "apply() invokes the iteration operation exactly once for every index below the given count and for no other, and returns only after all of them have finished, with everything they did visible to the caller. It returns for any count including zero, from any thread, concurrently with other calls, and nested from within operations of other queues or of a parallel queue however few worker threads there are.",
 ['schedules','inputs','programs','configurations'],"all counts, nesting depths, callers, pool sizes and interleavings of iterations with the returning caller",
 "The tests apply once from one thread on an idle pool; early return, missing visibility and starvation when nested need particular schedules and pool sizes.",
 [N+'naive_parallel_queue.cpp',N+'naive_serial_queue.cpp',N+'naive_consumable.cpp','src/lightweight_barrier.cpp'],
 [('counted completion',N+'naive_consumable.cpp: consumable'),('caller marked as blocked so that another thread may run',N+'naive_consumable.cpp: wait_for_consumed')],
 ['queue::apply call/return','iteration begin/end'])
p('C05','Delayed operations execute once, not early, on their queue',
 "An operation submitted with a delay executes exactly once, never before the delay has passed, and subject to the rules of its queue (not overlapping with others on a serial queue). The queue is kept alive for it even if all handles were dropped, delays of any length neither block the queue nor each other, and nothing remains allocated afterwards.",
 ['schedules','inputs','histories'],"all delays, number of delayed operations, queue kinds and interleavings with queue destruction",
 "The tests schedule one delayed operation on a live queue; they cannot see a second execution, a leak, or early firing under load.",
 [N+'naive_operations.cpp',N+'naive_timer.cpp',N+'naive_serial_queue.cpp',N+'naive_parallel_queue.cpp','src/queue.cpp'],
 [('one-shot timer owned by the operation',N+'naive_operations.cpp: delayed_operation::create_and_dispatch')],
 ['queue::after call','operation begin'])
p('C06','group.wait() reports completion neither early nor late',
 "wait() on a group returns true only when every operation submitted to the group before the call has finished executing, with their effects visible to the caller, and returns false only if some such operation was unfinished and the timeout has passed. It returns promptly once they are done, in any number of concurrent, repeated, polling or timed-out calls, from outside or from within operations however few worker threads there are, and without accumulating memory or stack.",
 ['schedules','histories','inputs','configurations'],"all histories of submissions and waits on one group, all timeouts, all interleavings of completion with submission and waiting",
 "The tests wait once for a few operations; a batch completing while it is still being added to, or chained waits after timeouts, need a specific interleaving or a long history.",
 [N+'naive_group.cpp',N+'naive_consumable.cpp',N+'naive_operations.cpp','src/lightweight_barrier.cpp','src/group.cpp'],
 [('batches counted with a token held by the group',N+'naive_group.cpp: group_impl'),('batches chained to their predecessor',N+'naive_consumable.cpp')],
 ['group::async','group::wait call/return','operation end'],[('current batch','operations submitted since the last exchange',N+'naive_group.cpp')])
p('C07','group.notify() fires once, on its queue, after all operations of the group',
 "An operation passed to notify() is executed exactly once on the given queue, after all operations submitted to the group before the call have finished, and immediately if there are none. notify() itself does not block, any number of notifications may be registered, the group may be dropped right away, and the group remains usable.",
 ['schedules','histories','configurations'],"all histories of submissions, notifications and handle drops, all interleavings",
 "One notification after a few short operations is tested, which also passes when the notification fires too early by a small amount or waits for nothing at all.",
 [N+'naive_group.cpp','src/group.cpp','src/lightweight_barrier.cpp'],
 [('pool operation waiting for the group, then submitting',N+'naive_group.cpp: notify')],['group::notify','notification begin'])
p('C08','Timers fire at their interval, never early, never overlapping, on their queue',
 "The k-th firing of a running timer never happens before the start delay plus k intervals have passed since it was resumed, firings never overlap each other and obey the rules of the target queue, and a running timer keeps firing. A timer without interval fires exactly once per resume; suspending stops it with at most one already due firing to follow, resuming restarts it at the single configured rate however often this is repeated, and a changed handler or interval applies to later firings.",
 ['schedules','histories','inputs'],"all sequences of resume, suspend, interval and handler changes relative to firings, all delays and intervals",
 "The tests use half-second intervals and look at one firing; multiplied rates or overlap after suspend/resume need a sequence and a clock oracle.",
 [N+'naive_timer.cpp','src/timer.cpp','src/qt5/qt5_timer.cpp'],
 [('one worker per timer identified by a cookie',N+'naive_timer.cpp: timer_impl::resume'),('worker waits for the handler before sleeping again',N+'naive_timer.cpp')],
 ['timer::resume/suspend/cancel','handler begin/end'])
p('C09','After a timer was cancelled its handler neither runs nor will ever run again',
 "When cancelling a timer returns, its handler is not executing and never will again, unless it was cancelled from within that handler, which completes as the last one. This holds for concurrent cancellation from several threads, for handlers pending on a busy queue, and for cancelling while it is being resumed; a cancelled timer cannot be revived and it as well as its handler are released once dropped.",
 ['schedules','histories'],"all interleavings of cancellation with sleeping, pending and executing handlers, and with other control calls",
 "The tests cancel before the first firing or from within the handler; returning while the handler executes on another thread needs a race they do not provoke.",
 [N+'naive_timer.cpp','src/cancelable.cpp','src/timer.cpp'],
 [('cancelable entered around each handler; disabling waits for it','src/cancelable.cpp: cancelable'),('worker stopped via cookie',N+'naive_timer.cpp: cancel')],
 ['timer::cancel return','handler begin/end','captured state destruction'])
p('C10','Socket notifiers invoke their handler exactly while the descriptor is ready',
 "A resumed notifier invokes its handler on its queue with its own descriptor and type whenever the descriptor is readable (or at end of stream) respectively writable, keeps doing so while it remains ready, and does not invoke it while it is not ready. Handlers never overlap, no data is missed, and this works for any open descriptor regardless of its number; an invalid descriptor does no harm.",
 ['schedules','inputs','fault_sequences'],"all descriptors, readiness sequences, peers closing, and interleavings of the handler with the readiness change",
 "The tests push one message through one socket pair; large descriptor numbers, closed peers, many notifiers and slow handlers are not covered.",
 [N+'naive_socket_notifier.cpp','src/socket_notifier.cpp','src/qt5/qt5_socket_notifier.cpp'],
 [('worker polls the descriptor, waits for the handler, polls again',N+'naive_socket_notifier.cpp: resume')],['handler begin with arguments','bytes available at that time'])
p('C11','A suspended or cancelled socket notifier stays quiet',
 "After cancelling a notifier returns, its handler is not executing and never will again unless cancelled from within that handler. After suspending, at most one already queued invocation follows, resuming as often as suspended makes it work again with never more than one invocation pending or active, and a cancelled notifier cannot be revived and is released once dropped.",
 ['schedules','histories'],"all sequences and interleavings of resume, suspend and cancel with readiness changes and handlers",
 "The tests suspend and resume once in a quiet moment; races with the polling worker and double workers need many rounds and injected delays.",
 [N+'naive_socket_notifier.cpp','src/cancelable.cpp'],
 [('cookie identifies the current worker',N+'naive_socket_notifier.cpp'),('cancelable around the handler','src/cancelable.cpp')],['socket_notifier::suspend/cancel return','handler begin/end'])
p('C12','Signals deliver every emit to every connected handler with its values',
 "Each emit of a signal results in exactly one invocation of every handler connected in single-updates mode at that time, on the queue given at connection with the emitted values, and in emit order if that queue is serial. This holds for emits from several threads, handlers executing concurrently on a parallel queue, signals delivering through a group (which then waits for all invocations), and signals chained to other signals; emitting does not wait for queued handlers.",
 ['schedules','histories','programs'],"all histories of connects and emits from any number of threads, all queue kinds, all interleavings of handlers",
 "The tests emit a few values to handlers on serial queues; concurrent invocations on a parallel queue, where values could be dropped, are not exercised.",
 ['include/xdispatch/signals.h','src/signals.cpp','src/cancelable.cpp'],
 [('invocation queued per handler under the signal lock','include/xdispatch/signals.h: signal::operator()')],['emit','handler begin with values'])
p('C13','batch_updates collapses emits but never loses the last one',
 "A handler connected in batch-updates mode is invoked at most once per emit, only once for all emits made while an invocation is pending, and always again after the last emit: once all is quiet, an invocation has started after that emit began. This continues to hold forever, whatever handlers did before.",
 ['schedules','histories'],"all histories of emits relative to the handler's start, all queue kinds",
 "The test checks that fewer invocations than emits happen; losing the final update requires an emit racing with the start of the handler.",
 ['include/xdispatch/signals.h','src/signals.cpp'],[('pending counter','include/xdispatch/signals.h: signal::operator()')],['emit begin/end','handler begin'])
p('C14','After disconnecting a handler neither runs nor will ever run again',
 "When disconnecting a connection returns, its handler is not executing on any thread and never will again, no matter how many invocations were queued, unless disconnected from within the handler in which case only the current call completes. This equally holds for scoped connections and managers going out of scope, for several threads disconnecting copies of the same connection, and when the signal itself is destroyed; other handlers are unaffected.",
 ['schedules','histories'],"all interleavings of disconnect (any form, any number of threads) with emits and queued or executing handlers",
 "The tests disconnect on a quiet queue; returning while a handler is executing or about to start requires racing threads.",
 ['src/signals.cpp','src/cancelable.cpp','include/xdispatch/signals.h'],
 [('cancelable counts active invocations; disabling waits for them','src/cancelable.cpp'),('handler removed under the signal lock','src/signals.cpp: disconnect_handler')],['disconnect return','handler begin/end'])
p('C15','Connections, managers and signals may go away in any order',
 "Connections, scoped connections, connection managers and signals may be copied, moved, disconnected and destroyed in any order and from any thread, with invocations queued or executing, without touching freed memory or blocking forever. A connection to a destroyed signal is merely disconnected, comparing and querying connections reflects which signal and handler they belong to, and handlers with everything they captured are released once disconnected and drained.",
 ['histories','schedules','programs'],"all orders of destruction and disconnection of signals, connections and managers relative to queued and running handlers",
 "The tests destroy connections before the signal and on quiet queues; the other orders and running handlers needing the same locks are not exercised.",
 ['src/signals.cpp','include/xdispatch/signals.h'],
 [('weak reference from connection to handler; handler knows whether its signal is alive','src/signals.cpp'),('nothing waits for a handler while holding a lock','src/signals.cpp')],['destruction events','captured state'])
p('C16','Barriers release every waiter after, and only after, their event',
 "Waiting on a barrier operation or a signal barrier returns true only after the operation was executed respectively the signal was emitted since the barrier was created, returns false only once the timeout has passed without it, and releases all current and future waiters afterwards. A signal barrier reports the values of the first such emit, refuses to report any before, and may be created and destroyed at any time relative to emits.",
 ['schedules','inputs','histories'],"all interleavings of completion with any number of waiters, timeouts, construction and destruction",
 "The tests wait with one thread; a completion between the check and the sleep of a waiter, several waiters, or destruction during an emit are not provoked.",
 ['src/lightweight_barrier.cpp','src/barrier_operation.cpp','include/xdispatch/signals_barrier.h'],
 [('single atomic word: no owner, waiter or completed','src/lightweight_barrier.cpp'),('only the first invocation stores values','include/xdispatch/signals_barrier.h')],['wait call/return','operation execution','emit'])
p('C17','A waitable queue behaves as a serial queue whose waits cannot be starved',
 "Operations of a waitable queue execute exactly once, in submission order and never two at a time, whether executed by the underlying queue or by a waiting thread. Waiting for all returns only when everything submitted before is done, waiting for one when at least one operation is done or none is pending, and both return even if the underlying queue or pool never gets to execute anything; delayed operations, apply and nested use follow the rules of queues in general.",
 ['schedules','histories','configurations'],"all interleavings of submitters, waiters and the underlying queue, blocked underlying queues",
 "The tests use one waiter and a free underlying queue or one blocked thread; concurrent waiters taking over from the queue are not exercised.",
 ['src/waitable_queue.cpp','include/xdispatch/waitable_queue.h'],
 [('drain takes one operation at a time guarded by an active flag','src/waitable_queue.cpp: drain_one'),('waiter executes itself when idle','src/waitable_queue.cpp: wait_for_one')],['operation begin/end','wait call/return'])
p('C18','The pool keeps making progress: no operation waits for a free thread forever',
 "As long as fewer operations execute than the pool has threads for, every pending operation gets started without waiting for an executing one to end. Operations blocked inside the library (waiting for a group, an applied operation, timers or notifiers) do not count against that capacity, so waiting for other pool operations from within a pool operation does not deadlock even with the smallest pool; the same is true after threads idled, expired or were created concurrently.",
 ['schedules','configurations','histories'],"all interleavings of submissions with threads falling asleep, waking, expiring and being created; all pool sizes",
 "The tests run on an otherwise idle pool and finish when any thread picks up the work; a stranded operation needs a second submission within the wake-up of a thread.",
 [N+'naive_threadpool.cpp',N+'naive_semaphore.cpp',N+'naive_consumable.cpp','include/xdispatch/backend_naive_ithreadpool.h'],
 [('idle count decides whether to create a thread; woken thread re-checks',N+'naive_threadpool.cpp: schedule, worker::run'),('blocked threads raise the limit','include/xdispatch/backend_naive_ithreadpool.h: block_scope')],['operation begin/end'],[('idle/active/max','thread accounting',N+'naive_threadpool.cpp')])
p('C19','The number of concurrently executing operations stays bounded',
 "However many operations are submitted by however many threads, those not blocking inside the library execute on at most twice as many threads as configured (the number of processors by default), and all of that capacity is used when there is enough to do. Threads created for blocked operations are reused or go away again instead of accumulating with the number of operations.",
 ['schedules','configurations','programs'],"all submission patterns, concurrent thread creation, configured thread counts",
 "No test counts threads; exceeding the limit takes concurrent submissions within thread creation.",
 [N+'naive_threadpool.cpp','src/thread_utils.cpp'],[('active count checked against the limit before creating a thread',N+'naive_threadpool.cpp: schedule')],['operation begin/end per thread','threads of the process'])
p('C20','Higher priority operations are started before lower priority ones',
 "When the pool is saturated and a thread becomes available, it picks an operation of the highest priority among those pending; an operation of a lower priority only starts ahead of pending higher ones if a thread had picked it before they were submitted. Operations of all priorities are executed eventually once higher ones are done, including those of default priority which rank as utility.",
 ['schedules','inputs','configurations'],"all mixes of priorities and submission orders with a saturated pool",
 "A benchmark-like test looks at average completion per priority and tolerates individual inversions.",
 [N+'naive_threadpool.cpp','src/queue.cpp'],[('one bucket per priority searched from the highest',N+'naive_threadpool.cpp: worker::run')],['operation begin with number of pending higher priority operations'])
p('C21','The library is free of data races and publishes what happened before',
 "Using queues, groups, timers, signals, barriers and waitable queues from any number of threads as documented never makes the library race on its own memory. What a thread did before submitting an operation, emitting a signal, or releasing a barrier is visible to the operation, handler or waiter that follows from it, and what an operation did is visible to whoever learnt of its completion.",
 ['schedules','programs'],"all pairs of public calls from different threads and all interleavings of their internals",
 "The tests run without race detection and on a strongly ordered machine, where missing synchronisation has no visible effect most of the time.",
 ['src/','include/xdispatch/'],[('mutexes, atomics with acquire/release ordering','src/naive/, src/lightweight_barrier.cpp, src/signals.cpp')],['every memory access of library and workload'])
p('C22','Operations run on the thread their queue stands for',
 "Operations of the main queue execute only on the thread that runs the main loop, in order, and only while it runs; operations of a queue created for a Qt thread execute only on that thread and those of a queue created for a Qt thread pool only on its threads. This includes delayed operations, timers, notifiers, group operations and signal handlers targeting such queues, and holds until the last of them was executed even if the queue handle was dropped.",
 ['schedules','programs','configurations'],"all objects targeting such queues, all submitting threads, event loop states and interleavings",
 "The tests check the thread of a few operations; delayed operations, dropped handles and threads in an event loop being torn down are not covered.",
 [N+'naive_manual_thread.cpp',N+'naive_serial_queue.cpp','src/qt5/qt5_serial_queue.cpp','src/qt5/qt5_threadpool.cpp','src/qt5/qt5_parallel_queue.cpp','src/queue.cpp'],
 [('operations posted as events to an object living in the thread','src/qt5/qt5_serial_queue.cpp: ThreadProxy'),('main loop draining a list',N+'naive_manual_thread.cpp: run')],['thread id at operation begin'])
p('C23','Objects of different backends are never silently combined',
 "Combining a timer, socket notifier or group of one backend with a queue of another backend throws a logic error and has no other effect, except for combinations documented as supported. Combinations within one backend never throw, whichever way the objects were created or re-targeted.",
 ['inputs','configurations'],"all pairs of backends and object kinds, all ways to obtain and re-target them",
 "The tests only build combinations within one backend, so a missing check or an assertion in its place remains unnoticed.",
 ['src/trace_utils.cpp','src/timer.cpp','src/socket_notifier.cpp','src/group.cpp'],[('backend types compared when combining','src/trace_utils.cpp: assert_same_backend')],['exception thrown','operations executed'])
p('C24','Connections bound to a Qt object end with that object',
 "A signal connected to a Qt object through the library invokes the object on the requested queue until the object is destroyed or the connection is removed, and never afterwards, also if invocations are queued at that time. Removing the connections of one object and signal affects no other connection, and destroying the signal first is equally fine.",
 ['histories','schedules'],"all orders of emits, object destruction, signal destruction and disconnects, with invocations pending",
 "The tests destroy an object once with nothing pending.",
 ['src/qt5/qt5_signals.cpp','src/qt5/qt5_signals.h','include/xdispatch/backend_qt.h'],[('connections owned by a child of the object','src/qt5/qt5_signals.h: ObjectConnectionManager')],['handler invocation with object alive/dead'])
p('C25','Queues on a custom thread pool follow its contract',
 "A queue created on a custom thread pool hands all work to that pool with the priority of the queue and executes nothing elsewhere; a serial queue has at most one task outstanding at the pool and executes a bounded number of operations per task. Waiting inside the library from a thread of the pool is announced to it in balanced pairs, and the pool is kept alive until all queues using it are gone and drained, and then released outside of its own threads.",
 ['programs','schedules','histories'],"all pool behaviours (reordering tasks, one or many threads), all queue lifetimes sharing a pool",
 "Nothing but a Qt based pool is tested; sharing, fairness and release order of pools are not.",
 [N+'naive_operation_queue.cpp',N+'naive_parallel_queue.cpp',N+'naive_operation_queue_manager.cpp','include/xdispatch/backend_naive_ithreadpool.h'],
 [('bounded drain which re-submits itself',N+'naive_operation_queue.cpp: drain'),('pool attached to a manager thread for release',N+'naive_operation_queue_manager.cpp')],['pool interface calls','pool destruction'])
p('C26','Skipping pending signal invocations affects exactly those',
 "After pending invocations of a signal were skipped, none of the invocations queued before starts anymore, a handler executing at that time completes, and all connections remain established: every later emit is delivered as usual in any mode. Skipping does not wait for handlers and may be called from within one.",
 ['schedules','histories'],"all interleavings of skipping with emits and queued or executing handlers",
 "No test uses it.",
 ['src/signals.cpp','include/xdispatch/signals.h'],[('pending invocations belong to a generation','src/signals.cpp: skip_pending')],['emit','skip','handler begin'])
p('C27','The process can end at any time without crash or hang',
 "A process using the library terminates cleanly with its own exit status when main returns or exit is called, whichever threads are idle or executing operations and whichever queues, timers, notifiers or signals still exist, also as global objects. No thread of the library touches destroyed globals while this happens.",
 ['crash_points','schedules','programs'],"all points in time of exit relative to the activity of the pool, all kinds of objects alive, static objects of the program",
 "The tests end in a quiet state.",
 [N+'naive_threadpool.cpp',N+'naive_operation_queue_manager.cpp','src/backend.cpp','src/trace_utils.cpp'],[('globals used by threads are leaked on purpose',N+'naive_threadpool.cpp: global_threadpool')],['exit status','sanitizer reports at exit'])
p('C28','Extreme durations and counts mean what they say',
 "Timeouts, delays and intervals of zero, negative, very large or the largest representable value behave as no waiting respectively waiting practically forever: huge ones neither fire nor return early nor crash, small ones return or fire right away, and minus one waits without limit. This holds for every interface taking a duration, and an object waiting for a huge time can still be cancelled, suspended or completed at once.",
 ['inputs','histories'],"all representable durations at every interface",
 "The tests use durations between milliseconds and seconds.",
 ['src/lightweight_barrier.cpp',N+'naive_timer.cpp',N+'naive_group.cpp','src/queue.cpp','src/timer.cpp'],[('durations limited before deadlines are calculated','src/lightweight_barrier.cpp, src/naive/naive_timer.cpp')],['call return times','handler begin'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
