// Workloads and monitors for queues bound to a thread (main loop, Qt threads and
// thread pools) and for connections bound to Qt objects.
#include "fifo.h"

#include "xdispatch/signals.h"
#include "xdispatch/socket_notifier.h"

#include <fcntl.h>
#include <set>
#include <sys/socket.h>
#include <unistd.h>

#if defined(VH_QT)
    #include <QtCore/QCoreApplication>
    #include <QtCore/QThread>
    #include <QtCore/QThreadPool>
    #include <QtCore/QTimer>

    #include "xdispatch/backend_qt.h"
#endif

using namespace vh;
namespace xd = xdispatch;

namespace {

// ---- the main loop ---------------------------------------------------------------
struct Loop
{
    std::atomic<int> thread{ 0 };
    // set while exec() is active
    std::atomic<bool> running{ false };
    std::mutex CS;
    std::condition_variable cond;
    bool wanted = false;
    bool ended = false;
    std::atomic<int> rounds{ 0 };
};

Loop&
loop()
{
    static Loop* l = new Loop;
    return *l;
}

void
run_loop()
{
    auto& l = loop();
    l.thread = tid();
    l.running = true;
    ++l.rounds;
    xd::exec();
    l.running = false;
}

bool
qt_mode()
{
#if defined(VH_QT)
    return "qt5" == opt.backend;
#else
    return false;
#endif
}

// starts the loop unless it is running already
void
start_loop()
{
    auto& l = loop();
    if (l.running) {
        return;
    }
    if (qt_mode()) {
        std::lock_guard<std::mutex> lock(l.CS);
        l.wanted = true;
        l.cond.notify_all();
    } else {
        std::thread(run_loop).detach();
    }
    must([&] { return l.running.load(); }, "the main loop to start");
}

#if defined(VH_QT)
void
stop_loop()
{
    auto& l = loop();
    if (!l.running) {
        return;
    }
    QMetaObject::invokeMethod(QCoreApplication::instance(), "quit", Qt::QueuedConnection);
    must([&] { return !l.running; }, "the main loop to end");
}
#endif

bool
on_main()
{
    return loop().running && tid() == loop().thread;
}

// ---- everything which may target a queue ---------------------------------------
struct Track
{
    Track(size_t cap, const std::function<bool()>& r, bool s, const char* n)
      : c(cap)
      , right(r)
      , ser(s)
      , name(n)
    {}
    SerialCase c;
    const std::function<bool()> right;
    const bool ser;
    const char* const name;
    std::atomic<long> expected{ 0 };
    std::atomic<int> wrong{ 0 };
    std::atomic<int> peak{ 0 };

    int reserve()
    {
        ++expected;
        return c.next_id++;
    }
    void run(int id, long us, const char* kind)
    {
        if (!right()) {
            if (0 == wrong++) {
                violation(str(name, "-thread"), str("a ", kind, " of a queue of kind '", name, "' executed on a wrong thread or while the loop was not running"));
            }
        }
        if (ser) {
            c.run(id, us);
        } else {
            c.log.add(EXEC_BEGIN, id);
            spin_us(us);
        }
        c.done();
    }
    bool complete() const { return c.executed.load() >= expected.load(); }
};

void
finish_track(const std::shared_ptr<Track>& t)
{
    must([t] { return t->complete(); }, str(t->name, " operations to execute").c_str(), [t] {
        return str(t->c.executed.load(), " of ", t->expected.load(), " executed: ", t->c.log.tail());
    });
    if (t->c.executed != t->expected) {
        violation(str(t->name, "-count"), str(t->c.executed.load(), " executions of ", t->expected.load()));
    }
    if (t->ser) {
        if (t->c.overlaps > 0) {
            violation(str(t->name, "-overlap"), str(t->c.overlaps.load(), " overlapping executions"));
        }
        check_serial(t->c.log, t->expected, t->name);
    }
    trace(t->c.log);
    vh::stat("thread_bound_operations", t->expected);
}

// submits one operation in one of many ways
void
submit_one(Rng& x, const xd::queue& q, const std::shared_ptr<Track>& t, bool may_block)
{
    const long us = x.chance(3) ? static_cast<long>(x.below(40)) : 0;
    switch (x.below(may_block ? 12 : 11)) {
        case 0: {
            const int id = t->reserve();
            q.after(ms(x.below(6)), [t, id, us] { t->run(id, us, "delayed operation"); });
            break;
        }
        case 1: {
            const int id = t->reserve();
            auto g = make_group();
            g.async([t, id, us] { t->run(id, us, "group operation"); }, q);
            if (x.chance(2)) {
                const int nid = t->reserve();
                g.notify([t, nid] { t->run(nid, 0, "group notification"); }, q);
            }
            break;
        }
        case 2: {
            // from another operation of the queue
            const int a = t->reserve();
            const int b = t->reserve();
            q.async([t, q, a, b, us] {
                t->run(a, us, "operation");
                q.async([t, b] { t->run(b, 0, "nested operation"); });
            });
            break;
        }
        case 3: {
            // by way of a pool
            const int a = t->reserve();
            parallel("via").async([t, q, a, us] { q.async([t, a, us] { t->run(a, us, "operation queued by the pool"); }); });
            break;
        }
        case 4: {
            // notification of operations executing elsewhere
            auto g = make_group();
            g.async([] { spin_us(20); }, parallel("other"));
            const int nid = t->reserve();
            g.notify([t, nid] { t->run(nid, 0, "group notification"); }, q);
            break;
        }
        case 5: {
            const int id = t->reserve();
            t->c.log.add(SUB_BEGIN, id);
            q.async(std::make_shared<FnOp>([t, id, us] { t->run(id, us, "operation"); }));
            t->c.log.add(SUB_END, id);
            break;
        }
        case 11: {
            const int n = x.range(1, 6);
            int first = 0;
            t->expected += n;
            first = t->c.next_id.fetch_add(n);
            q.apply(static_cast<size_t>(n), [t, first](size_t i) { t->run(first + static_cast<int>(i), 0, "applied operation"); });
            break;
        }
        default: {
            const int id = t->reserve();
            t->c.log.add(SUB_BEGIN, id);
            q.async([t, id, us] { t->run(id, us, "operation"); });
            t->c.log.add(SUB_END, id);
            break;
        }
    }
}

// a timer, a notifier and signals which target a queue
//
// A firing may be on its way to the queue while its source gets cancelled, the
// pool or thread of the queue has to outlive that: what is alive tells
void
sources(Rng& rng, const xd::queue& q, const std::shared_ptr<Track>& t)
{
    auto alive = std::make_shared<std::atomic<int>>(0);
    auto source = [alive] {
        ++*alive;
        return std::shared_ptr<void>(nullptr, [alive](void*) { --*alive; });
    };
    if (rng.chance(2)) {
        const long firings = rng.range(1, 6);
        auto n = std::make_shared<std::atomic<long>>(0);
        xd::timer timer(ms(rng.range(1, 3)), q);
        timer.handler([t, n, s = source()] {
            t->run(t->reserve(), 0, "timer handler");
            ++*n;
        });
        timer.resume(ms(rng.below(3)));
        must([n, firings] { return *n >= firings; }, "a timer to fire");
        timer.cancel();
        vh::stat("thread_bound_firings", *n);
    }
    if (rng.chance(2)) {
        int fds[2] = { -1, -1 };
        if (0 == ::socketpair(AF_UNIX, SOCK_STREAM, 0, fds)) {
            ::fcntl(fds[0], F_SETFL, O_NONBLOCK);
            auto n = std::make_shared<std::atomic<long>>(0);
            const long bytes = rng.range(1, 40);
            {
                xd::socket_notifier notifier(fds[0], xd::notifier_type::READ, q);
                notifier.handler([t, n, keep = source()](xd::socket_t s, xd::notifier_type) {
                    char b[8];
                    const auto r = ::read(static_cast<int>(s), b, sizeof(b));
                    t->run(t->reserve(), 0, "notifier handler");
                    if (r > 0) {
                        *n += r;
                    }
                });
                notifier.resume();
                for (long i = 0; i < bytes; ++i) {
                    if (1 != ::write(fds[1], "x", 1)) {
                        break;
                    }
                    jitter(rng, 60);
                }
                must([n, bytes] { return *n >= bytes; }, "a notifier to read everything");
                notifier.cancel();
                vh::stat("thread_bound_bytes", *n);
            }
            // wakes up the worker polling, it only finds out by then
            ::close(fds[1]);
            must([alive] { return 0 == *alive; }, "cancelled timers and notifiers to be released");
            ::close(fds[0]);
        }
    }
    must([alive] { return 0 == *alive; }, "a cancelled timer to be released");
    if (rng.chance(2)) {
        auto sig = std::make_shared<xd::signal<void(int)>>();
        std::vector<xd::connection> cs;
        const int handlers = rng.range(1, 3);
        const int emits = rng.range(1, 20);
        for (int i = 0; i < handlers; ++i) {
            cs.push_back(sig->connect([t](int) { t->run(t->reserve(), 0, "signal handler"); }, q));
        }
        auto batch = std::make_shared<std::atomic<int>>(0);
        cs.push_back(sig->connect(
          [t, batch](int) {
              t->run(t->reserve(), 0, "signal handler");
              ++*batch;
          },
          q,
          xd::notification_mode::batch_updates));
        for (int i = 0; i < emits; ++i) {
            (*sig)(i);
            jitter(rng, 40);
        }
        must([batch] { return *batch > 0; }, "a batch handler to be invoked");
        vh::stat("thread_bound_emits", emits);
        // everything queued so far is executed before on a serial queue
        auto done = std::make_shared<std::atomic<bool>>(false);
        q.async([done] { *done = true; });
        must([done] { return done->load(); }, "operations to execute");
        for (auto& c : cs) {
            c.disconnect();
        }
    }
}

struct Target
{
    xd::queue q;
    std::function<bool()> right;
    bool ser;
    const char* name;
};

// several threads use the targets in every possible way
void
exercise(Rng& rng, std::vector<Target>& targets, bool may_block, const std::function<void()>& between = std::function<void()>())
{
    std::vector<std::shared_ptr<Track>> tracks;
    for (const auto& t : targets) {
        tracks.push_back(std::make_shared<Track>(60000, t.right, t.ser, t.name));
    }
    const int threads = rng.range(1, 5);
    const int per = scaled(rng.range(5, 80));
    const auto seed = rng.next();
    run_threads(threads, [&](int i) {
        Rng x(seed + static_cast<uint64_t>(i) * 77);
        for (int k = 0; k < per; ++k) {
            const auto n = x.below(targets.size());
            submit_one(x, targets[n].q, tracks[n], may_block);
            jitter(x, 30);
        }
        if (may_block && i < 2) {
            const auto n = x.below(targets.size());
            sources(x, targets[n].q, tracks[n]);
        }
    });
    if (between) {
        between();
    }
    if (rng.chance(2)) {
        // last handle
        targets.clear();
        vh::stat("handles_dropped");
    }
    for (auto& t : tracks) {
        finish_track(t);
    }
}

} // namespace

// ---- C22 -----------------------------------------------------------------------
static void
main_queue(Rng& rng, int no)
{
    const bool first = 0 == loop().rounds;
    if (first) {
        // nothing executes before the loop runs
        auto t = std::make_shared<Track>(20000, on_main, true, "main");
        const auto q = xd::main_queue();
        for (int i = 0, n = rng.range(1, 60); i < n; ++i) {
            submit_one(rng, q, t, false);
        }
        sleep_us(rng.range(1000, 20000));
        if (t->c.executed > 0) {
            violation("main-early", str(t->c.executed.load(), " operations of the main queue executed before its loop was started"));
            return;
        }
        start_loop();
        finish_track(t);
    }
    (void)no;
    start_loop();
    std::vector<Target> targets{ { xd::main_queue(), on_main, true, "main" } };
    exercise(rng, targets, true);
}

// other queues never use the thread of the loop; blocking inside the library on
// it lets the others continue
static void
main_and_pool(Rng& rng, int)
{
    start_loop();
    std::vector<Target> targets{ { xd::main_queue(), on_main, true, "main" } };
    const auto off = [] { return tid() != loop().thread; };
    targets.push_back({ parallel("p", prio(rng)), off, false, "pool" });
    targets.push_back({ serial("s", prio(rng)), off, true, "serial" });
    targets.push_back({ xd::global_queue(prio(rng)), off, false, "global" });
    // the main loop waits for a pool
    auto waits = std::make_shared<std::atomic<int>>(0);
    const int n = rng.range(0, 5);
    for (int i = 0; i < n; ++i) {
        xd::main_queue().async([waits] {
            auto g = make_group();
            for (int k = 0; k < 5; ++k) {
                g.async([] { spin_us(30); }, parallel("p"));
            }
            if (!g.wait()) {
                violation("main-wait", "an unlimited wait returned false");
            }
            parallel("p").apply(4, [](size_t) { spin_us(10); });
            ++*waits;
        });
    }
    exercise(rng, targets, true);
    must([waits, n] { return *waits == n; }, "the main loop to return from waiting");
}

#if defined(VH_QT)
// operations queued while the loop is not running wait for the next time
static void
main_paused(Rng& rng, int)
{
    for (int round = 0; round < 4; ++round) {
        if (rng.chance(2)) {
            stop_loop();
            auto t = std::make_shared<Track>(20000, on_main, true, "main");
            const auto q = xd::main_queue();
            for (int i = 0, n = rng.range(1, 40); i < n; ++i) {
                submit_one(rng, q, t, false);
            }
            sleep_us(rng.range(500, 8000));
            if (t->c.executed > 0) {
                violation("main-stopped", str(t->c.executed.load(), " operations of the main queue executed while its loop was not running"));
                return;
            }
            start_loop();
            finish_track(t);
            vh::stat("loop_restarts");
        } else {
            // ended by somebody while operations arrive
            start_loop();
            std::vector<Target> targets{ { xd::main_queue(), on_main, true, "main" } };
            QMetaObject::invokeMethod(QCoreApplication::instance(), "quit", Qt::QueuedConnection);
            exercise(rng, targets, false, [] {
                must([] { return !loop().running; }, "the main loop to end");
                start_loop();
            });
            vh::stat("loop_restarts");
        }
    }
    start_loop();
}

static void
thread_queues(Rng& rng, int)
{
    const int n = rng.range(1, 3);
    std::vector<std::unique_ptr<QThread>> threads;
    std::vector<Target> targets;
    for (int i = 0; i < n; ++i) {
        threads.emplace_back(new QThread);
        auto* const t = threads.back().get();
        if (rng.chance(2)) {
            t->start();
        }
        for (int k = rng.range(1, 3); k > 0; --k) {
            targets.push_back({ xd::qt5::create_serial_queue("qthread", t, prio(rng)), [t] { return QThread::currentThread() == t; }, true, "qthread" });
        }
    }
    const bool late = rng.chance(3);
    if (!late) {
        for (auto& t : threads) {
            t->start();
        }
    }
    exercise(rng, targets, !late, [&] {
        if (late) {
            sleep_us(rng.range(0, 3000));
            for (auto& t : threads) {
                t->start();
            }
        }
    });
    // an event loop which ends and starts again keeps what is pending
    if (rng.chance(2)) {
        auto* const t = threads.front().get();
        t->quit();
        t->wait();
        std::vector<Target> again{ { xd::qt5::create_serial_queue("again", t), [t] { return QThread::currentThread() == t; }, true, "qthread" } };
        exercise(rng, again, false, [&] { t->start(); });
    }
    targets.clear();
    for (auto& t : threads) {
        t->quit();
        t->wait();
    }
    vh::stat("qt_threads", n);
}

// the last handle is dropped with operations pending, by whomever
static void
thread_drop(Rng& rng, int)
{
    QThread thread;
    thread.start();
    auto* const t = &thread;
    for (int round = 0, n = scaled(rng.range(3, 12)); round < n; ++round) {
        auto gate = std::make_shared<Gate>();
        auto track = std::make_shared<Track>(2000, [t] { return QThread::currentThread() == t; }, true, "qthread");
        const int style = rng.range(0, 3);
        {
            auto q = std::make_shared<xd::queue>(xd::qt5::create_serial_queue("drop", t));
            const int first = track->reserve();
            q->async([track, gate, first] {
                gate->pass();
                track->run(first, 0, "operation");
            });
            for (int i = 0, k = rng.range(0, 40); i < k; ++i) {
                submit_one(rng, *q, track, false);
            }
            if (1 == style) {
                // by an operation of the queue
                const int id = track->reserve();
                auto holder = std::make_shared<std::shared_ptr<xd::queue>>(q);
                q->async([track, id, holder] {
                    track->run(id, 0, "operation");
                    holder->reset();
                });
            } else if (2 == style) {
                // by an operation of another queue
                auto holder = std::make_shared<std::shared_ptr<xd::queue>>(std::move(q));
                parallel("dropper").async([holder] { holder->reset(); });
            }
        }
        jitter(rng, 2000);
        gate->open();
        finish_track(track);
        vh::stat("handles_dropped");
    }
    thread.quit();
    thread.wait();
}

static std::atomic<int> s_thread_ids{ 0 };
static int
unique_thread()
{
    // numbers of ended threads are never used again
    static thread_local int id = ++s_thread_ids;
    return id;
}

struct PoolThreads
{
    std::mutex CS;
    std::set<int> ids;
    std::atomic<int> active{ 0 };
    std::atomic<int> peak{ 0 };
    bool check()
    {
        const auto* const t = QThread::currentThread();
        {
            std::lock_guard<std::mutex> lock(CS);
            ids.insert(unique_thread());
        }
        return nullptr != t && 0 == strcmp(t->metaObject()->className(), "QThreadPoolThread");
    }
};

static void
pool_queues(Rng& rng, int)
{
    const int n = rng.range(1, 3);
    std::vector<std::unique_ptr<QThreadPool>> pools;
    std::vector<std::shared_ptr<PoolThreads>> seen;
    std::vector<Target> targets;
    auto global = std::make_shared<PoolThreads>();
    for (int i = 0; i < n; ++i) {
        pools.emplace_back(new QThreadPool);
        auto* const p = pools.back().get();
        p->setMaxThreadCount(rng.range(1, 4));
        p->setExpiryTimeout(rng.chance(2) ? -1 : rng.range(1, 5));
        seen.push_back(std::make_shared<PoolThreads>());
        auto s = seen.back();
        for (int k = rng.range(1, 3); k > 0; --k) {
            targets.push_back({ xd::qt5::create_parallel_queue("qpool", p, prio(rng)), [s] { return s->check(); }, false, "qpool" });
        }
    }
    targets.push_back({ parallel("other"),
                        [global] {
                            global->check();
                            return 0 != strcmp(QThread::currentThread()->metaObject()->className(), "QThreadPoolThread");
                        },
                        false,
                        "pool" });
    exercise(rng, targets, true);
    seen.push_back(global);
    for (size_t a = 0; a < seen.size(); ++a) {
        for (size_t b = a + 1; b < seen.size(); ++b) {
            for (const int id : seen[a]->ids) {
                if (seen[b]->ids.count(id)) {
                    violation("qpool-shared", str("thread ", id, " executed operations of queues on different thread pools"));
                    return;
                }
            }
        }
        vh::stat("pool_threads_seen", static_cast<long>(seen[a]->ids.size()));
    }
    targets.clear();
}

// a saturated thread pool of Qt picks what has the highest priority
static void
pool_priorities(Rng& rng, int)
{
    auto rank_of = [](xd::queue_priority p) {
        switch (p) {
            case xd::queue_priority::USER_INTERACTIVE:
                return 0;
            case xd::queue_priority::USER_INITIATED:
                return 1;
            case xd::queue_priority::BACKGROUND:
                return 3;
            default:
                return 2;
        }
    };
    QThreadPool pool;
    const int cap = rng.range(1, 4);
    pool.setMaxThreadCount(cap);
    pool.setExpiryTimeout(rng.chance(2) ? -1 : rng.range(1, 5));
    const std::vector<xd::queue_priority> all{ xd::queue_priority::USER_INTERACTIVE, xd::queue_priority::USER_INITIATED, xd::queue_priority::UTILITY,
                                               xd::queue_priority::DEFAULT,          xd::queue_priority::BACKGROUND };
    std::vector<xd::queue> qs;
    for (const auto p : all) {
        qs.push_back(xd::qt5::create_parallel_queue("qpool", &pool, p));
    }
    for (int round = 0; round < scaled(3); ++round) {
        auto gate = std::make_shared<Gate>();
        auto begun = std::make_shared<std::atomic<int>>(0);
        auto ended = std::make_shared<std::atomic<int>>(0);
        for (int i = 0; i < cap; ++i) {
            qs[rng.below(qs.size())].async([=] {
                ++*begun;
                gate->pass();
                ++*ended;
            });
        }
        must([=] { return *begun == cap; }, "a Qt thread pool to be saturated", [=] { return str(begun->load(), " of ", cap, " threads"); });
        auto log = std::make_shared<Log>(4000);
        auto executed = std::make_shared<std::atomic<int>>(0);
        const int n = rng.range(5, 150);
        const int submitters = rng.range(1, 3);
        const long us = rng.chance(2) ? static_cast<long>(rng.below(200)) : 0;
        const bool grouped = rng.chance(3);
        std::vector<int> total(4, 0);
        std::vector<size_t> which;
        for (int i = 0; i < n; ++i) {
            which.push_back(rng.below(all.size()));
            ++total[static_cast<size_t>(rank_of(all[which.back()]))];
        }
        auto g = make_group();
        run_threads(submitters, [&](int t) {
            for (int i = t; i < n; i += submitters) {
                const auto k = which[static_cast<size_t>(i)];
                const int mine = rank_of(all[k]);
                auto body = [=] {
                    log->add(1, i, mine);
                    spin_us(us);
                    ++*executed;
                };
                if (grouped) {
                    g.async(body, qs[k]);
                } else {
                    qs[k].async(body);
                }
            }
        });
        gate->open();
        must([=] { return *executed == n && *ended == cap; }, "operations of all priorities to execute", [=] { return str(executed->load(), " of ", n); });
        std::vector<int> seen(4, 0);
        for (size_t i = 0; i < log->size(); ++i) {
            const int mine = static_cast<int>((*log)[i].b);
            int higher = 0;
            for (int k = 0; k < mine; ++k) {
                higher += total[static_cast<size_t>(k)] - seen[static_cast<size_t>(k)];
            }
            if (higher > cap - 1) {
                violation("pool-priority", str("an operation of rank ", mine, " started with ", higher, " of a higher priority pending, the Qt pool has ", cap, " threads: ", log->around(i)));
                break;
            }
            ++seen[static_cast<size_t>(mine)];
        }
        vh::stat("operations", n);
        trace(*log, "priorities");
    }
    qs.clear();
    pool.waitForDone();
}

// the last handle of a pool is released by one of its threads
static void
pool_drop(Rng& rng, int)
{
    QThreadPool pool;
    pool.setMaxThreadCount(rng.range(1, 4));
    for (int round = 0, n = scaled(rng.range(3, 12)); round < n; ++round) {
        auto seen = std::make_shared<PoolThreads>();
        auto track = std::make_shared<Track>(2000, [seen] { return seen->check(); }, false, "qpool");
        {
            auto q = std::make_shared<xd::queue>(xd::qt5::create_parallel_queue("drop", &pool));
            for (int i = 0, k = rng.range(0, 40); i < k; ++i) {
                submit_one(rng, *q, track, true);
            }
            const int id = track->reserve();
            auto holder = std::make_shared<std::shared_ptr<xd::queue>>(q);
            q->async([track, id, holder] {
                track->run(id, 0, "operation");
                holder->reset();
            });
        }
        finish_track(track);
        vh::stat("handles_dropped");
    }
    must_return([&] { pool.waitForDone(); }, "a thread pool to become idle");
}

// operations wait for others of the same pool
static void
pool_wait(Rng& rng, int)
{
    QThreadPool pool;
    const int max = rng.range(1, 3);
    pool.setMaxThreadCount(max);
    auto q = xd::qt5::create_parallel_queue("wait", &pool, prio(rng));
    auto done = std::make_shared<std::atomic<int>>(0);
    const int n = scaled(rng.range(1, 20));
    const auto seed = rng.next();
    // a pool has to outlive the timers targeting it, and a firing may be on
    // its way to the queue while its timer gets cancelled
    auto timers = std::make_shared<std::atomic<int>>(0);
    for (int i = 0; i < n; ++i) {
        q.async([=] {
            Rng x(seed + static_cast<uint64_t>(i));
            switch (x.below(4)) {
                case 0: {
                    auto g = make_group();
                    for (int k = x.range(1, 4); k > 0; --k) {
                        g.async([] { spin_us(20); }, q);
                    }
                    g.wait();
                    break;
                }
                case 1:
                    q.apply(static_cast<size_t>(x.range(1, 6)), [](size_t) { spin_us(10); });
                    break;
                case 2: {
                    auto g = make_group();
                    g.async([q] { q.apply(3, [](size_t) { spin_us(10); }); }, q);
                    g.wait();
                    break;
                }
                default: {
                    xd::timer t(ms(1), q);
                    ++*timers;
                    std::shared_ptr<void> alive(nullptr, [timers](void*) { --*timers; });
                    t.handler([alive] { spin_us(5); });
                    alive.reset();
                    t.resume();
                    spin_us(static_cast<long>(x.below(2000)));
                    t.cancel();
                    break;
                }
            }
            ++*done;
        });
        jitter(rng, 100);
    }
    must([done, n] { return *done == n; }, "operations waiting for others of their pool to return", [&] { return str(done->load(), " of ", n, ", pool of ", max); });
    must([timers] { return 0 == *timers; }, "cancelled timers to be released");
    vh::stat("qt_waits", n);
    // the capacity of the pool is as before: no more operations at once
    auto active = std::make_shared<std::atomic<int>>(0);
    auto peak = std::make_shared<std::atomic<int>>(0);
    auto left = std::make_shared<std::atomic<int>>(max * 6);
    must_return([&] { pool.waitForDone(); }, "a thread pool to become idle");
    for (int i = 0; i < max * 6; ++i) {
        q.async([=] {
            const int a = ++*active;
            int p = *peak;
            while (p < a && !peak->compare_exchange_weak(p, a)) {
            }
            sleep_us(300);
            --*active;
            --*left;
        });
    }
    must([left] { return 0 == *left; }, "operations to execute");
    if (*peak > max) {
        violation("qpool-exceeded", str(peak->load(), " operations executed at once on a pool of ", max));
    }
    // and no less either
    struct Meet
    {
        std::atomic<int> begun{ 0 };
        Gate gate;
    };
    auto meet = std::make_shared<Meet>();
    for (int i = 0; i < max; ++i) {
        q.async([meet] {
            ++meet->begun;
            meet->gate.pass();
        });
    }
    must([meet, max] { return meet->begun == max; }, "all threads of a pool to be used", [&] { return str(meet->begun.load(), " of ", max); });
    meet->gate.open();
    must_return([&] { pool.waitForDone(); }, "a thread pool to become idle");
}

// ---- C24 -----------------------------------------------------------------------
struct Link
{
    std::atomic<long> calls{ 0 };
    std::atomic<int> active{ 0 };
    // set as soon as no invocation may begin any more
    std::atomic<bool> dead{ false };
    std::function<bool()> right;
    int last = -1;
    bool ser = true;
};

using QSig = xd::signal<void(int)>;

// what happened to objects and handlers of a case, intentionally leaked
static std::atomic<Log*> s_events{ nullptr };

static void
event(uint32_t kind, int64_t a = 0, int64_t b = 0)
{
    s_events.load()->add(kind, a, b);
}

struct Traced
{
    Traced() { s_events = new Log(20000); }
    ~Traced() { trace(*s_events); }
};

static std::function<void(int)>
handler_of(const std::shared_ptr<Link>& l, long us)
{
    return [l, us](int n) {
        ++l->active;
        event(1, n);
        if (l->dead) {
            violation("qobject-after", "a handler was invoked after its object was destroyed or its connection was removed");
        }
        if (l->right && !l->right()) {
            violation("qobject-thread", "a handler was invoked on a wrong thread");
        }
        if (us > 0) {
            spin_us(us);
        }
        if (l->dead) {
            violation("qobject-active", "destroying an object or removing its connection returned while its handler was active");
        }
        ++l->calls;
        --l->active;
    };
}

// a thread owning objects
struct Home
{
    QThread thread;
    xd::queue q;
    Home()
      : q([this] {
          thread.start();
          return xd::qt5::create_serial_queue("home", &thread);
      }())
    {}
    // runs f on the thread and waits
    void run(const std::function<void()>& f, const char* what)
    {
        auto done = std::make_shared<std::atomic<bool>>(false);
        q.async([f, done] {
            f();
            *done = true;
        });
        must([done] { return done->load(); }, what);
    }
    ~Home()
    {
        thread.quit();
        thread.wait();
    }
};

// sequences of operations on objects and signals against a reference model
static void
object_model(Rng& rng, int)
{
    Traced traced;
    if (rng.chance(2)) {
        start_loop();
    }
    auto home = std::make_unique<Home>();
    const int objects = rng.range(1, 4);
    const int signal_count = rng.range(1, 3);
    struct Object
    {
        QObject* o = nullptr;
        bool at_home = false;
        // index of the object it is a child of
        int parent = -1;
    };
    struct Conn
    {
        int o;
        int s;
        std::shared_ptr<Link> l;
        long expected = 0;
    };
    std::vector<Object> os(static_cast<size_t>(objects));
    std::vector<std::unique_ptr<QSig>> ss;
    std::vector<Conn> cs;
    for (int i = 0; i < signal_count; ++i) {
        ss.emplace_back(new QSig);
    }
    bool gated = false;
    auto create = [&](Object& o) {
        o.at_home = !gated && rng.chance(2);
        o.parent = -1;
        if (rng.chance(2)) {
            const int n = static_cast<int>(rng.below(os.size()));
            const auto& p = os[static_cast<size_t>(n)];
            if (&p != &o && p.o && p.at_home == o.at_home) {
                o.parent = n;
                vh::stat("child_objects");
            }
        }
        auto* const parent = o.parent < 0 ? nullptr : os[static_cast<size_t>(o.parent)].o;
        if (o.at_home) {
            home->run([&] { o.o = new QObject(parent); }, "an object to be created");
        } else {
            o.o = new QObject(parent);
        }
    };
    for (auto& o : os) {
        create(o);
    }
    std::vector<xd::queue> qs{ serial("a"), parallel("b"), home->q };
    auto end_all = [&](const std::function<bool(const Conn&)>& which) {
        for (auto it = cs.begin(); it != cs.end();) {
            if (which(*it)) {
                it->l->dead = true;
                it = cs.erase(it);
            } else {
                ++it;
            }
        }
    };
    auto quiet = [&] {
        for (auto& c : cs) {
            const auto l = c.l;
            const auto e = c.expected;
            must([l, e] { return l->calls >= e; }, "the handler of an object to be invoked", [&] { return str(l->calls.load(), " of ", e); });
            if (l->calls != e) {
                violation("qobject-count", str("a handler of an object was invoked ", l->calls.load(), " times for ", e, " emits"));
            }
        }
    };
    const int steps = scaled(rng.range(20, 120));
    std::shared_ptr<Gate> gate;
    for (int i = 0; i < steps && !any_violation(); ++i) {
        const int o = static_cast<int>(rng.below(os.size()));
        const int s = static_cast<int>(rng.below(ss.size()));
        auto& obj = os[static_cast<size_t>(o)];
        auto& sig = ss[static_cast<size_t>(s)];
        switch (rng.below(10)) {
            case 0:
            case 1:
            case 2: {
                // connect, from any thread
                auto l = std::make_shared<Link>();
                const auto n = rng.below(qs.size());
                const long us = static_cast<long>(rng.below(30));
                if (2 == n) {
                    auto* const t = &home->thread;
                    l->right = [t] { return QThread::currentThread() == t; };
                }
                const bool registered = rng.chance(3);
                auto f = [&] {
                    if (registered) {
                        xd::qt5::register_connection(obj.o, sig->connect(handler_of(l, us), qs[n]));
                    } else {
                        xd::qt5::connect(*sig, obj.o, handler_of(l, us), qs[n]);
                    }
                };
                if (!gated && rng.chance(3)) {
                    home->run(f, "connecting");
                } else if (rng.chance(3)) {
                    must_return(f, "connecting");
                } else {
                    f();
                }
                cs.push_back({ o, s, l, 0 });
                event(2, o, s);
                vh::stat("object_connections");
                break;
            }
            case 3: {
                xd::qt5::disconnect(*sig, obj.o);
                end_all([&](const Conn& c) { return c.o == o && c.s == s; });
                event(3, o, s);
                vh::stat("object_disconnects");
                break;
            }
            case 4: {
                if (gated && obj.at_home) {
                    break;
                }
                if (obj.at_home) {
                    if (rng.chance(2)) {
                        home->run([&] { delete obj.o; }, "an object to be destroyed");
                    } else {
                        obj.o->deleteLater();
                        // handled by the event loop; nothing is due afterwards
                        auto gone = std::make_shared<std::atomic<bool>>(false);
                        auto* const probe = new QObject;
                        QObject::connect(probe, &QObject::destroyed, [gone] { *gone = true; });
                        probe->moveToThread(&home->thread);
                        probe->deleteLater();
                        must([gone] { return gone->load(); }, "an object to be destroyed");
                    }
                } else {
                    delete obj.o;
                }
                // all children went away as well
                std::vector<bool> gone(os.size(), false);
                gone[static_cast<size_t>(o)] = true;
                for (size_t pass = 0; pass < os.size(); ++pass) {
                    for (size_t n = 0; n < os.size(); ++n) {
                        if (os[n].parent >= 0 && gone[static_cast<size_t>(os[n].parent)]) {
                            gone[n] = true;
                        }
                    }
                }
                end_all([&](const Conn& c) { return gone[static_cast<size_t>(c.o)]; });
                for (size_t n = 0; n < os.size(); ++n) {
                    if (gone[n]) {
                        os[n].o = nullptr;
                        os[n].parent = -1;
                    }
                }
                for (size_t n = 0; n < os.size(); ++n) {
                    if (gone[n]) {
                        create(os[n]);
                    }
                }
                event(4, o);
                vh::stat("objects_destroyed");
                break;
            }
            case 5: {
                if (!rng.chance(3)) {
                    break;
                }
                sig.reset();
                end_all([&](const Conn& c) { return c.s == s; });
                sig.reset(new QSig);
                event(5, s);
                vh::stat("signals_destroyed_first");
                break;
            }
            case 6:
                // invocations queue up
                if (!gated) {
                    gate = std::make_shared<Gate>();
                    for (size_t n = 0; n < qs.size(); ++n) {
                        if (1 != n) {
                            auto begun = std::make_shared<std::atomic<bool>>(false);
                            const auto g = gate;
                            qs[n].async([begun, g] {
                                *begun = true;
                                g->pass();
                            });
                            must([begun] { return begun->load(); }, "a gate to be reached");
                        }
                    }
                    gated = true;
                } else {
                    gate->open();
                    gated = false;
                    quiet();
                }
                break;
            default:
                (*sig)(i);
                for (auto& c : cs) {
                    if (c.s == s) {
                        ++c.expected;
                    }
                }
                vh::stat("object_emits");
                if (!gated && rng.chance(3)) {
                    quiet();
                }
                break;
        }
    }
    if (gated) {
        gate->open();
    }
    quiet();
    for (auto& o : os) {
        if (o.parent >= 0) {
            continue;
        }
        if (o.at_home) {
            home->run([&] { delete o.o; }, "an object to be destroyed");
        } else {
            delete o.o;
        }
    }
    end_all([](const Conn&) { return true; });
    for (auto& s : ss) {
        (*s)(1);
    }
    // whatever is left in the queues must not be invoked
    for (auto& q : qs) {
        auto done = std::make_shared<std::atomic<bool>>(false);
        q.async([done] { *done = true; });
        must([done] { return done->load(); }, "operations to execute");
    }
    ss.clear();
    qs.clear();
    home.reset();
}

// emitting threads while an object is destroyed or disconnected
static void
object_race(Rng& rng, int)
{
    Traced traced;
    Home home;
    for (int round = 0, n = scaled(rng.range(4, 20)); round < n && !any_violation(); ++round) {
        QSig sig;
        QSig other;
        const bool at_home = rng.chance(2);
        QObject* o = nullptr;
        QObject* peer = new QObject;
        if (at_home) {
            home.run([&] { o = new QObject; }, "an object to be created");
        } else {
            o = new QObject;
        }
        std::vector<std::shared_ptr<Link>> links;
        auto peer_link = std::make_shared<Link>();
        auto other_link = std::make_shared<Link>();
        const int k = rng.range(1, 4);
        const auto seed = rng.next();
        for (int i = 0; i < k; ++i) {
            links.push_back(std::make_shared<Link>());
        }
        // several threads connect at once
        std::vector<xd::queue> qs{ serial("a"), parallel("b"), home.q };
        const bool threads = rng.chance(2);
        auto conn = [&](int i) {
            Rng x(seed + static_cast<uint64_t>(i));
            xd::qt5::connect(sig, o, handler_of(links[static_cast<size_t>(i)], static_cast<long>(x.below(60))), qs[x.below(qs.size())]);
        };
        if (threads) {
            run_threads(k, conn);
        } else {
            for (int i = 0; i < k; ++i) {
                conn(i);
            }
        }
        xd::qt5::connect(sig, peer, handler_of(peer_link, 0), qs[rng.below(qs.size())]);
        xd::qt5::connect(other, o, handler_of(other_link, 0), qs[rng.below(qs.size())]);
        std::atomic<bool> stop{ false };
        std::atomic<long> emits{ 0 };
        const int emitters = rng.range(1, 3);
        std::vector<std::thread> ts;
        for (int i = 0; i < emitters; ++i) {
            ts.emplace_back([&, i] {
                Rng x(seed + 100 + static_cast<uint64_t>(i));
                while (!stop && emits < 400) {
                    sig(1);
                    ++emits;
                    jitter(x, 60);
                }
            });
        }
        jitter(rng, 1500);
        const int style = rng.range(0, 2);
        bool other_ends = true;
        if (0 == style) {
            must_return(
              [&] {
                  xd::qt5::disconnect(sig, o);
              },
              "disconnecting an object");
            other_ends = false;
        } else if (at_home) {
            home.run([&] { delete o; }, "an object to be destroyed");
            o = nullptr;
        } else {
            delete o;
            o = nullptr;
        }
        event(6, style);
        for (auto& l : links) {
            l->dead = true;
            if (l->active > 0) {
                // only counts before its check of the flag, which reports
                vh::stat("active_after");
            }
        }
        if (other_ends) {
            other_link->dead = true;
        }
        jitter(rng, 500);
        stop = true;
        for (auto& t : ts) {
            t.join();
        }
        other(1);
        const long e = emits;
        must([&] { return peer_link->calls >= e; }, "the handler of an unrelated object to be invoked", [&] { return str(peer_link->calls.load(), " of ", e); });
        if (!other_ends) {
            must([&] { return other_link->calls >= 1; }, "the handler of an unrelated signal to be invoked");
        }
        if (nullptr != o) {
            if (at_home) {
                home.run([&] { delete o; }, "an object to be destroyed");
            } else {
                delete o;
            }
        }
        delete peer;
        peer_link->dead = true;
        other_link->dead = true;
        for (auto& q : qs) {
            auto done = std::make_shared<std::atomic<bool>>(false);
            q.async([done] { *done = true; });
            must([done] { return done->load(); }, "operations to execute");
        }
        vh::stat("object_races");
        vh::stat("object_emits", e);
    }
}

// objects with a slot, living and dying on the thread of their queue; also from
// within the slot itself
class Thing : public QObject
{
public:
    Thing(const std::shared_ptr<Link>& l, const std::shared_ptr<std::atomic<int>>& live, int die_at)
      : m_link(l)
      , m_live(live)
      , m_die_at(die_at)
      , m_magic(0xA11CE)
    {
        ++*m_live;
    }
    ~Thing() override
    {
        m_magic = 0;
        --*m_live;
    }
    void slot(int)
    {
        if (0xA11CE != m_magic || m_link->dead) {
            violation("qobject-after", "a slot was invoked on a destroyed object");
            return;
        }
        ++m_link->calls;
        if (m_link->calls == m_die_at) {
            m_link->dead = true;
            delete this;
        }
    }

private:
    const std::shared_ptr<Link> m_link;
    const std::shared_ptr<std::atomic<int>> m_live;
    const int m_die_at;
    volatile int m_magic;
};

static void
object_slot(Rng& rng, int)
{
    Traced traced;
    Home home;
    const bool on_loop = rng.chance(3);
    if (on_loop) {
        start_loop();
    }
    const auto q = on_loop ? xd::main_queue() : home.q;
    auto at = [&](const std::function<void()>& f, const char* what) {
        auto done = std::make_shared<std::atomic<bool>>(false);
        q.async([f, done] {
            f();
            *done = true;
        });
        must([done] { return done->load(); }, what);
    };
    auto live = std::make_shared<std::atomic<int>>(0);
    for (int round = 0, n = scaled(rng.range(4, 20)); round < n && !any_violation(); ++round) {
        QSig sig;
        auto l = std::make_shared<Link>();
        const int emits = rng.range(1, 30);
        const int die_at = rng.chance(2) ? rng.range(1, 30) : -1;
        Thing* t = nullptr;
        at(
          [&] {
              t = new Thing(l, live, die_at);
              xd::qt5::connect(sig, t, &Thing::slot, q);
          },
          "an object to be created");
        std::thread emitter([&] {
            for (int i = 0; i < emits; ++i) {
                sig(i);
            }
        });
        if (die_at < 0 || die_at > emits) {
            if (rng.chance(2)) {
                emitter.join();
                must([&] { return l->calls >= emits; }, "a slot to be invoked", [&] { return str(l->calls.load(), " of ", emits); });
                if (l->calls != emits) {
                    violation("qobject-count", str("a slot was invoked ", l->calls.load(), " times for ", emits, " emits"));
                }
            } else {
                // emitting goes on meanwhile
                jitter(rng, 300);
            }
        } else {
            emitter.join();
            must([&] { return l->dead.load(); }, "a slot to be invoked", [&] { return str(l->calls.load(), " of ", die_at); });
        }
        auto gone = std::make_shared<std::atomic<bool>>(l->dead.load());
        if (!*gone) {
            at(
              [&] {
                  delete t;
                  l->dead = true;
              },
              "an object to be destroyed");
        }
        if (emitter.joinable()) {
            emitter.join();
        }
        sig(99);
        at([] {}, "operations to execute");
        at([] {}, "operations to execute");
        if (0 != *live) {
            violation("qobject-leak", str(live->load(), " objects are still alive"));
        }
        event(7, die_at, emits);
        vh::stat("object_slots");
        vh::stat("object_emits", emits);
    }
}
#endif

int
main(int argc, char** argv)
{
    std::vector<Scenario> all = {
        { "main_queue", main_queue },
        { "main_and_pool", main_and_pool },
#if defined(VH_QT)
        { "main_paused", main_paused },
        { "thread_queues", thread_queues },
        { "thread_drop", thread_drop },
        { "pool_queues", pool_queues },
        { "pool_priorities", pool_priorities },
        { "pool_drop", pool_drop },
        { "pool_wait", pool_wait },
        { "object_model", object_model },
        { "object_race", object_race },
        { "object_slot", object_slot },
#endif
    };
#if defined(VH_QT)
    for (int i = 1; i + 1 < argc; ++i) {
        if (0 == strcmp(argv[i], "--backend") && 0 == strcmp(argv[i + 1], "qt5")) {
            QCoreApplication app(argc, argv);
            int rc = 0;
            std::atomic<bool> over{ false };
            auto& l = loop();
            std::thread body([&] {
                rc = run_main(argc, argv, all);
                over = true;
                {
                    std::lock_guard<std::mutex> lock(l.CS);
                    l.ended = true;
                    l.cond.notify_all();
                }
                QMetaObject::invokeMethod(&app, "quit", Qt::QueuedConnection);
            });
            while (!over) {
                {
                    std::unique_lock<std::mutex> lock(l.CS);
                    l.cond.wait(lock, [&] { return l.wanted || l.ended; });
                    l.wanted = false;
                    if (l.ended) {
                        break;
                    }
                }
                run_loop();
            }
            body.join();
            return rc;
        }
    }
#endif
    return run_main(argc, argv, all);
}
