// Workloads and monitors for thread pools: progress, capacity, priorities and
// the contract of custom pools.
#include "util.h"

#include "xdispatch/socket_notifier.h"

#include <deque>
#include <dirent.h>
#include <map>
#include <set>
#include <unistd.h>

using namespace vh;
namespace xd = xdispatch;

namespace {

int
configured()
{
    const char* e = std::getenv("XDISPATCH2_THREAD_COUNT");
    if (e && std::atoi(e) > 0) {
        return std::atoi(e);
    }
    return static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
}

// the number of operations the pool executes at once
int
capacity()
{
    return 2 * configured();
}

int
process_threads()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/task")) {
        while (const dirent* e = readdir(d)) {
            n += e->d_name[0] != '.';
        }
        closedir(d);
    }
    return n;
}

// spins, sleeps, or waits long enough for threads to fall asleep or expire
void
pause(Rng& rng)
{
    switch (rng.below(5)) {
        case 0:
            spin_us(static_cast<long>(rng.below(60)));
            break;
        case 1:
            sleep_us(static_cast<long>(rng.below(400)));
            break;
        case 2:
            sleep_us(static_cast<long>(rng.below(12000)));
            break;
        default:
            break;
    }
}

// n operations that only end once all of them have begun
struct Rendezvous
{
    std::mutex CS;
    std::condition_variable cond;
    int begun = 0;
    int ended = 0;
    int expected = 0;

    void meet()
    {
        std::unique_lock<std::mutex> lock(CS);
        ++begun;
        cond.notify_all();
        cond.wait(lock, [this] { return begun >= expected; });
        ++ended;
    }
    int count()
    {
        std::lock_guard<std::mutex> lock(CS);
        return begun;
    }
    int left()
    {
        std::lock_guard<std::mutex> lock(CS);
        return expected - ended;
    }
};

} // namespace

// ---- C18 -----------------------------------------------------------------------
// fills the pool with operations waiting for each other
static void
meet(Rng& rng, int)
{
    Log log(20000);
    const int cap = capacity();
    for (int round = 0, n = scaled(rng.range(5, 30)); round < n; ++round) {
        auto r = std::make_shared<Rendezvous>();
        const int k = rng.chance(3) ? rng.range(1, cap) : cap;
        r->expected = k;
        const int submitters = rng.range(1, 3);
        const auto seed = rng.next();
        const int style = rng.range(0, 2);
        auto all = std::make_shared<std::atomic<int>>(0);
        auto submit = [=](Rng& x) {
            auto body = [=] { r->meet(); };
            switch (x.below(3)) {
                case 0:
                    parallel("p", prio(x)).async(body);
                    break;
                case 1:
                    serial("s", prio(x)).async(body);
                    break;
                default:
                    xd::global_queue(prio(x)).async(body);
                    break;
            }
        };
        if (0 == style) {
            // from outside
            run_threads(submitters, [&](int t) {
                Rng x(seed + static_cast<uint64_t>(t));
                while (all->fetch_add(1) < k) {
                    submit(x);
                    if (x.chance(4)) {
                        jitter(x, 30);
                    }
                }
            });
        } else if (1 == style) {
            // every operation submits the next
            struct Chain
            {
                static void next(const std::shared_ptr<Rendezvous>& r, int left, uint64_t seed)
                {
                    Rng x(seed);
                    parallel("p", prio(x)).async([=] {
                        if (left > 1) {
                            next(r, left - 1, seed * 6364136223846793005ULL + 1);
                        }
                        r->meet();
                    });
                }
            };
            Chain::next(r, k, seed);
        } else {
            // one operation submits all others
            parallel("p", prio(rng)).async([=] {
                Rng x(seed);
                for (int i = 1; i < k; ++i) {
                    submit(x);
                }
                r->meet();
            });
        }
        log.add(1, k, style);
        must([=] { return 0 == r->left(); }, "operations to be started while threads are available", [=] {
            return str(r->count(), " of ", k, " operations have begun, the pool is for ", cap, " of them, style ", style, ", round ", round);
        });
        log.add(2, round);
        stat("operations", k);
        pause(rng);
    }
    trace(log);
}

// operations blocked inside of the library do not count
static void
blocked(Rng& rng, int)
{
    const int cap = capacity();
    Log log(10000);
    for (int round = 0, rounds = scaled(rng.range(2, 6)); round < rounds; ++round) {
        const int n = rng.range(1, 3 * cap);
        auto done = std::make_shared<std::atomic<int>>(0);
        const int kind = rng.range(0, 4);
        const auto seed = rng.next();
        auto gate = std::make_shared<Gate>();
        auto entered = std::make_shared<std::atomic<int>>(0);
        for (int i = 0; i < n; ++i) {
            auto p = prio(rng);
            parallel("outer", p).async([=] {
                ++*entered;
                switch (kind == 4 ? i % 4 : kind) {
                    case 0: {
                        auto g = make_group();
                        g.async([=] { gate->is_open(); }, parallel("inner", p));
                        g.wait(ms(-1));
                        break;
                    }
                    case 1:
                        parallel("inner", p).apply(3, [=](size_t) { gate->is_open(); });
                        break;
                    case 2: {
                        // nested several times
                        auto q = parallel("inner", p);
                        auto q2 = serial("inner2", p);
                        q.apply(2, [q, q2](size_t) { q.apply(2, [q2](size_t) { q2.apply(2, [](size_t) { spin_us(1); }); }); });
                        break;
                    }
                    default: {
                        auto g = make_group();
                        auto q2 = serial("inner2", p);
                        g.async([=] {
                            auto g2 = make_group();
                            g2.async([=] { gate->is_open(); }, q2);
                            g2.wait(ms(-1));
                        },
                                parallel("inner", p));
                        g.wait(ms(-1));
                        break;
                    }
                }
                ++*done;
            });
        }
        log.add(1, n, kind);
        must([=] { return *done == n; }, "operations waiting for other operations from within the pool", [=] {
            return str(done->load(), " of ", n, " ended, ", entered->load(), " have begun, kind ", kind, ", pool for ", cap);
        });
        log.add(2, round);
        stat("operations", n);
        pause(rng);
    }
    trace(log);
}

// everything blocked inside of the library at once, with all capacity left
static void
blocked_gated(Rng& rng, int)
{
    const int cap = capacity();
    const int n = rng.range(1, 2 * cap);
    auto gate = std::make_shared<Gate>();
    auto waiting = std::make_shared<std::atomic<int>>(0);
    auto done = std::make_shared<std::atomic<int>>(0);
    // completes only once an operation holding no thread of the pool ran
    auto g = std::make_shared<xd::group>(make_group());
    auto held = std::make_shared<xd::queue>(serial("held"));
    std::thread holder;
    auto started = std::make_shared<std::atomic<bool>>(false);
    const bool timed = rng.chance(3);
    // a delayed operation keeps the group incomplete without taking a thread
    auto finish = std::make_shared<std::atomic<bool>>(false);
    auto token = std::make_shared<Gate>();
    g->async([=] {
        *started = true;
        token->pass();
    });
    must([=] { return started->load(); }, "an operation");
    for (int i = 0; i < n; ++i) {
        parallel("outer", prio(rng)).async([=] {
            ++*waiting;
            if (timed) {
                while (!g->wait(ms(3600 * 1000))) {
                }
            } else {
                g->wait(ms(-1));
            }
            ++*done;
        });
    }
    must([=] { return *waiting == n; }, "operations to start while others wait inside of the library", [=] { return str(waiting->load(), " of ", n, " have begun, pool for ", cap); });
    // all capacity but the one operation executing is available
    for (int round = 0; round < 3; ++round) {
        auto r = std::make_shared<Rendezvous>();
        r->expected = cap - 1;
        for (int i = 0; i < cap - 1; ++i) {
            parallel("p", prio(rng)).async([=] { r->meet(); });
        }
        must([=] { return 0 == r->left(); }, "operations to be started while others wait inside of the library", [=] {
            return str(r->count(), " of ", cap - 1, " have begun with ", n, " operations waiting inside of the library");
        });
        pause(rng);
    }
    if (*done > 0) {
        violation("group-early", "wait() returned before the group was complete");
    }
    token->open();
    must([=] { return *done == n; }, "waiting operations to return", [=] { return str(done->load(), " of ", n); });
    stat("operations", n);
    trace_hash(static_cast<uint64_t>(n) * 2 + timed);
}

// running timers and notifiers leave the capacity to operations
static void
sources(Rng& rng, int)
{
    const int cap = capacity();
    std::vector<std::unique_ptr<xd::timer>> timers;
    std::vector<std::unique_ptr<xd::socket_notifier>> notifiers;
    std::vector<std::pair<int, int>> pipes;
    auto fired = std::make_shared<std::atomic<long>>(0);
    const int nt = rng.range(0, 2 * cap);
    const int nn = rng.range(nt ? 0 : 1, cap);
    auto q = parallel("handlers");
    for (int i = 0; i < nt; ++i) {
        timers.emplace_back(new xd::timer(make_timer(ms(rng.chance(2) ? 3600 * 1000 : rng.range(1, 20)), q)));
        timers.back()->handler([=] { ++*fired; });
        timers.back()->resume();
    }
    for (int i = 0; i < nn; ++i) {
        int fd[2];
        if (0 != pipe(fd)) {
            return;
        }
        pipes.emplace_back(fd[0], fd[1]);
        notifiers.emplace_back(new xd::socket_notifier(fd[0], xd::notifier_type::READ, q));
        notifiers.back()->handler([=](xd::socket_t, xd::notifier_type) { ++*fired; });
        notifiers.back()->resume();
    }
    for (int round = 0; round < scaled(6); ++round) {
        auto r = std::make_shared<Rendezvous>();
        // handlers of timers may occupy a thread at any time, they end however
        r->expected = cap;
        for (int i = 0; i < cap; ++i) {
            parallel("p", prio(rng)).async([=] { r->meet(); });
        }
        must([=] { return 0 == r->left(); }, "operations to be started with timers and notifiers running", [=] {
            return str(r->count(), " of ", cap, " have begun, ", nt, " timers, ", nn, " notifiers");
        });
        pause(rng);
    }
    must_return(
      [&] {
          for (auto& t : timers) {
              t->cancel();
          }
          for (auto& n : notifiers) {
              n->cancel();
          }
      },
      "cancel()");
    // notifiers poll their descriptor until they noticed
    timers.clear();
    notifiers.clear();
    for (auto& p : pipes) {
        close(p.second);
    }
    sleep_us(3000);
    for (auto& p : pipes) {
        close(p.first);
    }
    stat("operations", 6 * cap);
    stat("firings", fired->load());
    trace_hash(static_cast<uint64_t>(nt) * 1000 + static_cast<uint64_t>(nn));
}

// submissions at the moment threads expire, fall asleep or wake up
static void
idle(Rng& rng, int)
{
    const int cap = capacity();
    const char* e = std::getenv("VH_IDLE_MS");
    const long idle_us = e ? std::atol(e) * 1000 : 2000;
    Log log(20000);
    for (int round = 0, n = scaled(rng.range(20, 80)); round < n; ++round) {
        auto count = std::make_shared<std::atomic<int>>(0);
        const int k = rng.range(1, 3);
        const auto seed = rng.next();
        run_threads(k, [&](int t) {
            Rng x(seed + static_cast<uint64_t>(t));
            jitter(x, 40);
            parallel("p", prio(x)).async([=] { ++*count; });
        });
        must([=] { return *count == k; }, "an operation submitted to an idle pool", [=] { return str(count->load(), " of ", k, ", round ", round); });
        log.add(1, k, round);
        if (rng.chance(8)) {
            auto r = std::make_shared<Rendezvous>();
            r->expected = std::min(cap, 4);
            for (int i = 0; i < r->expected; ++i) {
                parallel("p", prio(rng)).async([=] { r->meet(); });
            }
            must([=] { return 0 == r->left(); }, "operations to be started while threads are available", [=] {
                return str(r->count(), " of ", r->expected, " operations have begun, the pool is for ", cap, " of them");
            });
        }
        const long around = idle_us + static_cast<long>(rng.below(400)) - 200;
        switch (rng.below(4)) {
            case 0:
                sleep_us(std::max(0L, around));
                break;
            case 1:
                spin_us(std::min(3000L, std::max(0L, around)));
                break;
            default:
                pause(rng);
                break;
        }
    }
    stat("operations", static_cast<long>(log.size()));
    trace(log);
}

// ---- C19 -----------------------------------------------------------------------
// never more operations at once than the pool is for
static void
bound(Rng& rng, int)
{
    const int cap = capacity();
    struct State
    {
        std::atomic<int> active{ 0 };
        std::atomic<int> peak{ 0 };
        std::atomic<long> executed{ 0 };
        std::atomic<long> submitted{ 0 };
        std::mutex CS;
        std::set<int> threads;
    };
    auto s = std::make_shared<State>();
    const int submitters = rng.range(1, 6);
    const auto seed = rng.next();
    const long us = rng.range(0, 300);
    const bool serials = rng.chance(3);
    const int burst = rng.range(1, 40);
    std::atomic<int> top{ 0 };
    run_threads(submitters, [&](int t) {
        Rng x(seed + static_cast<uint64_t>(t));
        std::vector<xd::queue> qs;
        for (int i = 0; i < 4; ++i) {
            qs.push_back(serials && x.chance(2) ? serial("s", prio(x)) : parallel("p", prio(x)));
        }
        for (int i = 0, n = scaled(x.range(20, 300)); i < n; ++i) {
            ++s->submitted;
            const long my = x.chance(3) ? us : 0;
            const bool sleeping = x.chance(4);
            const int nested = x.chance(10) ? 3 : 0;
            auto body = [=] {
                const int now = ++s->active;
                int p = s->peak;
                while (p < now && !s->peak.compare_exchange_weak(p, now)) {
                }
                if (sleeping) {
                    sleep_us(my);
                } else {
                    spin_us(my);
                }
                {
                    std::lock_guard<std::mutex> lock(s->CS);
                    s->threads.insert(tid());
                }
                --s->active;
                ++s->executed;
            };
            auto& q = qs[x.below(qs.size())];
            q.async([=] {
                for (int k = 0; k < nested; ++k) {
                    ++s->submitted;
                    parallel("n").async(body);
                }
                body();
            });
            if (0 == i % burst) {
                pause(x);
                const int now = process_threads();
                int p = top;
                while (p < now && !top.compare_exchange_weak(p, now)) {
                }
            }
        }
    });
    must([=] { return s->executed >= s->submitted; }, "operations to execute", [=] { return str(s->executed.load(), " of ", s->submitted.load()); });
    if (s->peak > cap) {
        violation("pool-bound", str(s->peak.load(), " operations executed at once, the pool is for ", cap));
    }
    if (static_cast<int>(s->threads.size()) > cap) {
        violation("pool-bound", str(s->threads.size(), " threads executed operations, the pool is for ", cap));
    }
    stat("operations", s->executed);
    stat_max("peak_max", s->peak);
    stat_max("threads_max", top.load());
    trace_hash(static_cast<uint64_t>(s->executed) << 16 ^ static_cast<uint64_t>(s->peak.load()));
}

// operations created by many threads while the pool has no threads yet, or
// all of them expired
static void
bound_startup(Rng& rng, int)
{
    const int cap = capacity();
    for (int round = 0; round < scaled(4); ++round) {
        struct State
        {
            std::atomic<int> active{ 0 };
            std::atomic<int> peak{ 0 };
            std::atomic<int> executed{ 0 };
            Gate gate;
        };
        auto s = std::make_shared<State>();
        const int submitters = rng.range(2, 8);
        const int per = rng.range(1, 2 * cap);
        const auto seed = rng.next();
        // every thread of the pool gets stuck, so there is no reuse
        run_threads(submitters, [&](int t) {
            Rng x(seed + static_cast<uint64_t>(t));
            for (int i = 0; i < per; ++i) {
                parallel("p", prio(x)).async([=] {
                    const int now = ++s->active;
                    int p = s->peak;
                    while (p < now && !s->peak.compare_exchange_weak(p, now)) {
                    }
                    s->gate.pass();
                    --s->active;
                    ++s->executed;
                });
            }
        });
        const int expected = std::min(cap, submitters * per);
        must([=] { return s->peak >= expected; }, "the capacity of the pool to be used", [=] { return str(s->peak.load(), " of ", expected, " operations have begun"); });
        sleep_us(rng.range(0, 3000));
        s->gate.open();
        must([=] { return s->executed == submitters * per; }, "operations to execute");
        if (s->peak > cap) {
            violation("pool-bound", str(s->peak.load(), " operations executed at once, the pool is for ", cap));
        }
        stat("operations", s->executed);
        stat_max("peak_max", s->peak);
        trace_hash(static_cast<uint64_t>(submitters) << 20 ^ static_cast<uint64_t>(per) << 8 ^ static_cast<uint64_t>(s->peak.load()));
        pause(rng);
    }
}

// threads created for operations waiting inside of the library are reused
static void
no_pileup(Rng& rng, int)
{
    const int cap = capacity();
    const int width = rng.range(1, cap + 2);
    const int kind = rng.range(0, 5);
    int top = 0;
    const int rounds = scaled(25);
    // groups waited for without success stay around
    std::vector<std::shared_ptr<xd::group>> groups;
    auto slow = serial("slow");
    for (int round = 0; round < rounds; ++round) {
        auto done = std::make_shared<std::atomic<int>>(0);
        auto gate = std::make_shared<Gate>();
        if (kind >= 4) {
            slow.async([gate] { gate->pass(); });
        }
        std::vector<std::unique_ptr<xd::timer>> timers;
        for (int i = 0; i < width; ++i) {
            switch (kind) {
                case 0:
                    parallel("outer").async([=] {
                        auto g = make_group();
                        g.async([] { spin_us(5); });
                        g.wait(ms(-1));
                        ++*done;
                    });
                    break;
                case 1:
                    parallel("outer").async([=] {
                        parallel("inner").apply(2, [](size_t) { spin_us(5); });
                        ++*done;
                    });
                    break;
                case 2: {
                    timers.emplace_back(new xd::timer(make_timer(ms(1), parallel("handler"))));
                    auto once = std::make_shared<std::atomic<bool>>(false);
                    timers.back()->handler([=] {
                        if (!once->exchange(true)) {
                            ++*done;
                        }
                    });
                    timers.back()->resume();
                    break;
                }
                case 3:
                    parallel("outer").after(ms(1), [=] { ++*done; });
                    break;
                default: {
                    auto g = std::make_shared<xd::group>(make_group());
                    groups.push_back(g);
                    g->async([] {}, slow);
                    parallel("outer").async([=] {
                        for (int k = 0; k < 2; ++k) {
                            if (g->wait(ms(4 == kind ? 1 : k))) {
                                violation("group-wait-early", "wait() returned true although an operation is pending");
                            }
                        }
                        ++*done;
                    });
                    break;
                }
            }
        }
        must([=] { return *done == width; }, "operations to execute", [=] { return str(done->load(), " of ", width, ", kind ", kind); });
        must_return(
          [&] {
              for (auto& t : timers) {
                  t->cancel();
              }
          },
          "cancel()");
        timers.clear();
        gate->open();
        top = std::max(top, process_threads());
    }
    // the main thread, the manager, helpers of the monitor and of sanitizers,
    // the threads of the pool and at most one for everything ever blocked at
    // once. An operation which ended may not be accounted as such yet, and a
    // cancelled timer takes a moment to end.
    // Threads of earlier cases are still around.
    static int widest = 0;
    widest = std::max(widest, width);
    const int limit = 10 + cap + 4 * widest;
    if (top > limit) {
        violation("pool-pileup", str(top, " threads exist after ", rounds, " rounds with ", width, " blocked operations each, kind ", kind, ", pool for ", cap));
    }
    // nothing is blocked anymore: at most the threads created for what ever was
    // blocked at once (and was just stopping) execute in addition to the capacity
    struct State
    {
        std::atomic<int> active{ 0 };
        std::atomic<int> peak{ 0 };
        std::atomic<int> executed{ 0 };
    };
    auto s = std::make_shared<State>();
    const int bound = cap + 2 * widest + 2;
    const int flood = 4 * bound + 20;
    const long us = rng.range(300, 2000);
    for (int i = 0; i < flood; ++i) {
        parallel("flood").async([=] {
            const int now = ++s->active;
            int p = s->peak;
            while (p < now && !s->peak.compare_exchange_weak(p, now)) {
            }
            sleep_us(us);
            --s->active;
            ++s->executed;
        });
    }
    must([=] { return s->executed == flood; }, "operations to execute", [=] { return str(s->executed.load(), " of ", flood); });
    if (s->peak > bound) {
        violation("pool-bound-grown", str(s->peak.load(), " operations executed at once after ", rounds, " rounds with ", width, " blocked operations each, kind ", kind, ", the pool is for ", cap, " of them"));
    }
    stat_max("peak_after_blocking_max", s->peak - cap - 2 * widest);
    stat("operations", rounds * width);
    stat_max("threads_max", top);
    trace_hash(static_cast<uint64_t>(width) * 10 + static_cast<uint64_t>(kind));
}

// idle threads go away (with a shortened period) and come back
static void
expire(Rng& rng, int)
{
    const int cap = capacity();
    const int rounds = scaled(3);
    for (int round = 0; round < rounds; ++round) {
        auto r = std::make_shared<Rendezvous>();
        r->expected = rng.range(2, cap);
        for (int i = 0; i < r->expected; ++i) {
            parallel("p", prio(rng)).async([=] { r->meet(); });
        }
        must([=] { return 0 == r->left(); }, "operations to be started while threads are available", [=] {
            return str(r->count(), " of ", r->expected, " operations have begun, the pool is for ", cap, " of them, round ", round);
        });
        const int before = process_threads();
        // main, manager, the watchdog, a helper and the sanitizer's
        must([=] { return process_threads() <= 6; }, "idle threads to end", [=] { return str(process_threads(), " threads left of ", before); });
        stat("expired", before - process_threads());
    }
    trace_hash(rng.next());
}

// ---- C20 -----------------------------------------------------------------------
static int
rank_of(xd::queue_priority p)
{
    switch (p) {
        case xd::queue_priority::USER_INTERACTIVE:
            return 0;
        case xd::queue_priority::USER_INITIATED:
            return 1;
        case xd::queue_priority::BACKGROUND:
            return 3;
        default:
            return 2;
    }
}

// a saturated pool gets everything submitted before it becomes available
static void
priorities(Rng& rng, int)
{
    const int cap = capacity();
    for (int round = 0; round < scaled(4); ++round) {
        auto gate = std::make_shared<Gate>();
        auto begun = std::make_shared<std::atomic<int>>(0);
        auto ended = std::make_shared<std::atomic<int>>(0);
        for (int i = 0; i < cap; ++i) {
            parallel("blocker", xd::queue_priority::USER_INTERACTIVE).async([=] {
                ++*begun;
                gate->pass();
                ++*ended;
            });
        }
        must([=] { return *begun == cap; }, "the pool to be saturated", [=] { return str(begun->load(), " of ", cap, " threads"); });
        auto log = std::make_shared<Log>(8000);
        auto executed = std::make_shared<std::atomic<int>>(0);
        const int n = rng.range(10, 200);
        std::vector<int> total(4, 0);
        std::vector<int> rank(static_cast<size_t>(n));
        const int submitters = rng.range(1, 3);
        // queues created through every interface
        const int style = rng.range(0, 3);
        std::vector<uint64_t> seeds;
        for (int i = 0; i < n; ++i) {
            seeds.push_back(rng.next());
        }
        const long us = rng.chance(2) ? static_cast<long>(rng.below(200)) : 0;
        const bool sleeping = rng.chance(2);
        for (int i = 0; i < n; ++i) {
            Rng x(seeds[static_cast<size_t>(i)]);
            rank[static_cast<size_t>(i)] = rank_of(prio(x));
            ++total[static_cast<size_t>(rank[static_cast<size_t>(i)])];
        }
        run_threads(submitters, [&](int t) {
            for (int i = t; i < n; i += submitters) {
                Rng x(seeds[static_cast<size_t>(i)]);
                const auto p = prio(x);
                const int mine = rank_of(p);
                auto body = [=] {
                    log->add(1, i, mine);
                    if (us) {
                        if (sleeping) {
                            sleep_us(us);
                        } else {
                            spin_us(us);
                        }
                    }
                    ++*executed;
                };
                switch (style) {
                    case 0:
                        parallel("p", p).async(body);
                        break;
                    case 1:
                        serial("s", p).async(body);
                        break;
                    case 2:
                        xd::global_queue(p).async(body);
                        break;
                    default: {
                        auto g = make_group();
                        g.async(body, parallel("p", p));
                        break;
                    }
                }
            }
        });
        gate->open();
        must([=] { return *executed == n && *ended == cap; }, "operations of all priorities to execute", [=] { return str(executed->load(), " of ", n); });
        // those still to start when this one did can only have been picked by
        // the other threads already
        std::vector<int> seen(4, 0);
        for (size_t i = 0; i < log->size(); ++i) {
            const int mine = static_cast<int>((*log)[i].b);
            int higher = 0;
            for (int k = 0; k < mine; ++k) {
                higher += total[static_cast<size_t>(k)] - seen[static_cast<size_t>(k)];
            }
            if (higher > cap - 1) {
                violation("pool-priority",
                          str("an operation of rank ", mine, " started with ", higher, " of a higher priority pending, the pool has ", cap, " threads, style ", style, ": ", log->around(i)));
                return;
            }
            ++seen[static_cast<size_t>(mine)];
        }
        stat("operations", n);
        trace(*log, "priorities");
    }
}

// higher priority operations keep arriving, the saturated pool still picks
// them first; lower ones are executed once they cease
static void
priorities_arriving(Rng& rng, int)
{
    const int cap = capacity();
    auto log = std::make_shared<Log>(40000);
    auto gate = std::make_shared<Gate>();
    auto begun = std::make_shared<std::atomic<int>>(0);
    auto executed = std::make_shared<std::atomic<int>>(0);
    auto submitted = std::make_shared<std::atomic<int>>(0);
    for (int i = 0; i < cap; ++i) {
        parallel("blocker", xd::queue_priority::USER_INTERACTIVE).async([=] {
            ++*begun;
            gate->pass();
        });
    }
    must([=] { return *begun == cap; }, "the pool to be saturated");
    struct Maker
    {
        // logs the end of the submission and the start
        static void submit(const std::shared_ptr<Log>& log,
                           const std::shared_ptr<std::atomic<int>>& submitted,
                           const std::shared_ptr<std::atomic<int>>& executed,
                           xd::queue_priority p,
                           int spawn,
                           uint64_t seed)
        {
            const int id = submitted->fetch_add(1);
            const int rank = rank_of(p);
            parallel("p", p).async([=] {
                log->add(1, id, rank);
                Rng x(seed);
                for (int i = 0; i < spawn; ++i) {
                    // higher than the own one
                    auto hp = x.chance(2) ? xd::queue_priority::USER_INTERACTIVE : xd::queue_priority::USER_INITIATED;
                    submit(log, submitted, executed, hp, 0, x.next());
                }
                spin_us(static_cast<long>(x.below(30)));
                ++*executed;
            });
            log->add(2, id, rank);
        }
    };
    for (int i = 0, n = scaled(rng.range(30, 200)); i < n; ++i) {
        Maker::submit(log, submitted, executed, prio(rng), rng.chance(3) ? rng.range(1, 6) : 0, rng.next());
    }
    gate->open();
    must([=] { return *executed == *submitted; }, "operations of all priorities to execute", [=] { return str(executed->load(), " of ", submitted->load()); });
    // pending: completely submitted and not started, per rank
    std::map<int64_t, int> state; // 1 submitted, 2 started
    std::vector<int> pending(4, 0);
    // started before the end of their submission got recorded
    for (size_t i = 0; i < log->size(); ++i) {
        const auto& r = (*log)[i];
        const auto k = static_cast<size_t>(r.b);
        if (2 == r.kind) {
            if (0 == state[r.a]) {
                state[r.a] = 1;
                ++pending[k];
            }
        } else {
            int higher = 0;
            for (size_t h = 0; h < k; ++h) {
                higher += pending[h];
            }
            if (1 == state[r.a]) {
                --pending[k];
            }
            state[r.a] = 2;
            // everything pending was either picked by another thread or was
            // submitted after this thread picked: an operation may be
            // submitting right now, on each of the other threads
            if (higher > (cap - 1) * 7) {
                violation("pool-priority", str("an operation of rank ", r.b, " started with ", higher, " of a higher priority pending, the pool has ", cap, " threads: ", log->around(i)));
                return;
            }
        }
    }
    stat("operations", submitted->load());
    trace(*log);
}

// ---- C25 -----------------------------------------------------------------------
namespace {

// what happened to a pool, outlives it
struct PoolLog
{
    std::mutex CS;
    std::condition_variable cond;
    std::deque<std::pair<xd::operation_ptr, int>> work;
    std::map<const void*, int> outstanding;
    std::map<int, int> handed; // by priority
    std::map<int, int> blocked; // by thread
    std::set<int> threads;
    std::vector<std::thread> workers;
    int idle = 0;
    int limit = 1;
    bool stop = false;
    int max_outstanding = 0;
    std::atomic<long> tasks{ 0 };
    std::atomic<long> blocks{ 0 };
    std::atomic<long> unblocks{ 0 };
    std::atomic<int> now_blocked{ 0 };
    std::atomic<bool> destroyed{ false };
    std::atomic<int> destroyed_by{ 0 };
    std::atomic<long> max_per_task{ 0 };
};

thread_local PoolLog* t_pool = nullptr;
thread_local long t_ops = 0;

// a thread pool as an application would implement it
class MonitoredPool : public xd::naive::ithreadpool
{
public:
    MonitoredPool(const std::shared_ptr<PoolLog>& log, int threads)
      : m_log(log)
    {
        m_log->limit = threads;
        // keeps no reference to the pool, so that it may be destroyed
        std::lock_guard<std::mutex> lock(m_log->CS);
        for (int i = 0; i < threads; ++i) {
            start();
        }
    }
    ~MonitoredPool() override
    {
        m_log->destroyed_by = tid();
        {
            std::lock_guard<std::mutex> lock(m_log->CS);
            if (m_log->threads.count(tid())) {
                violation("pool-released-inside", "the pool was released by one of its own threads");
                bail();
            }
            // tasks of parallel queues may be left, they are executed below
            m_log->stop = true;
            m_log->cond.notify_all();
        }
        for (auto& t : m_log->workers) {
            t.join();
        }
        m_log->destroyed = true;
    }

    void execute(const xd::operation_ptr& work, xd::queue_priority priority) override
    {
        if (!work) {
            violation("pool-null", "the pool was handed an empty task");
            return;
        }
        std::lock_guard<std::mutex> lock(m_log->CS);
        m_log->work.emplace_back(work, static_cast<int>(priority));
        ++m_log->handed[static_cast<int>(priority)];
        m_log->max_outstanding = std::max(m_log->max_outstanding, ++m_log->outstanding[work.get()]);
        ++m_log->tasks;
        m_log->cond.notify_one();
    }

protected:
    void notify_thread_blocked() override
    {
        std::lock_guard<std::mutex> lock(m_log->CS);
        ++m_log->blocks;
        ++m_log->now_blocked;
        if (!m_log->threads.count(tid())) {
            violation("pool-foreign-block", "a thread which does not belong to the pool was reported as blocked");
        }
        ++m_log->blocked[tid()];
        ++m_log->limit;
        if (0 == m_log->idle) {
            start();
        }
    }
    void notify_thread_unblocked() override
    {
        std::lock_guard<std::mutex> lock(m_log->CS);
        ++m_log->unblocks;
        --m_log->now_blocked;
        --m_log->limit;
        if (--m_log->blocked[tid()] < 0) {
            violation("pool-unbalanced", "a thread was reported as unblocked without being reported as blocked before");
        }
    }

private:
    void start()
    {
        const auto log = m_log;
        auto* const pool = this;
        m_log->workers.emplace_back([log, pool] {
            t_pool = log.get();
            std::unique_lock<std::mutex> lock(log->CS);
            log->threads.insert(tid());
            for (;;) {
                if (log->work.empty()) {
                    if (log->stop) {
                        return;
                    }
                    ++log->idle;
                    log->cond.wait(lock);
                    --log->idle;
                    continue;
                }
                auto op = log->work.front().first;
                log->work.pop_front();
                --log->outstanding[op.get()];
                lock.unlock();
                t_ops = 0;
                run_with_threadpool(*op, pool);
                long m = log->max_per_task;
                while (m < t_ops && !log->max_per_task.compare_exchange_weak(m, t_ops)) {
                }
                op.reset();
                lock.lock();
                if (0 != log->blocked[tid()]) {
                    violation("pool-unbalanced", str("a task ended with its thread being reported as blocked ", log->blocked[tid()], " times"));
                    log->blocked[tid()] = 0;
                }
            }
        });
    }

    const std::shared_ptr<PoolLog> m_log;
};

void
on_pool(const std::shared_ptr<PoolLog>& log, const char* what)
{
    ++t_ops;
    if (t_pool != log.get()) {
        violation("pool-elsewhere", str(what, " of a queue on a custom pool executed on another thread"));
    }
}

int
handed_with(const std::shared_ptr<PoolLog>& log, xd::queue_priority p)
{
    std::lock_guard<std::mutex> lock(log->CS);
    return log->handed[static_cast<int>(p)];
}

} // namespace

static void
custom_queues(Rng& rng, int)
{
    auto log = std::make_shared<PoolLog>();
    auto pool = std::make_shared<MonitoredPool>(log, rng.range(1, 4));
    struct Q
    {
        std::unique_ptr<xd::queue> q;
        bool serial = false;
        xd::queue_priority p;
        std::atomic<int> active{ 0 };
        std::atomic<long> executed{ 0 };
        std::atomic<long> submitted{ 0 };
        std::vector<int> last;
    };
    static const xd::queue_priority ps[] = { xd::queue_priority::USER_INTERACTIVE, xd::queue_priority::USER_INITIATED, xd::queue_priority::UTILITY, xd::queue_priority::BACKGROUND, xd::queue_priority::DEFAULT };
    // every queue has a priority of its own, so that tasks can be told apart
    const int n = rng.range(1, 5);
    const int first = rng.range(0, 4);
    auto qs = std::make_shared<std::vector<std::unique_ptr<Q>>>();
    auto live = std::make_shared<std::atomic<long>>(0);
    for (int i = 0; i < n; ++i) {
        qs->emplace_back(new Q);
        auto& q = *qs->back();
        q.p = ps[(first + i) % 5];
        q.serial = rng.chance(2);
        q.q.reset(new xd::queue(q.serial ? xd::naive::create_serial_queue("custom", pool, q.p) : xd::naive::create_parallel_queue("custom", pool, q.p)));
        q.last.assign(8, -1);
    }
    const int submitters = rng.range(1, 4);
    const auto seed = rng.next();
    const bool delayed = rng.chance(3);
    const bool grouped = rng.chance(3);
    auto g = make_group();
    run_threads(submitters, [&](int t) {
        Rng x(seed + static_cast<uint64_t>(t));
        for (int i = 0, m = scaled(x.range(10, 200)); i < m; ++i) {
            const size_t k = x.below(qs->size());
            auto* const q = (*qs)[k].get();
            Token token(live.get());
            const long us = x.chance(6) ? static_cast<long>(x.below(60)) : 0;
            auto body = [=] {
                on_pool(log, "an operation");
                if (!token.alive()) {
                    violation("pool-op-released", "an operation was executed after being released");
                }
                if (q->serial) {
                    if (0 != q->active++) {
                        violation("pool-overlap", "two operations of a serial queue on a custom pool overlapped");
                    }
                    if (q->last[static_cast<size_t>(t)] >= i) {
                        violation("pool-order", "two operations of a serial queue on a custom pool executed out of order");
                    }
                    q->last[static_cast<size_t>(t)] = i;
                    spin_us(us);
                    --q->active;
                }
                ++q->executed;
            };
            if (x.chance(12)) {
                // so do the iterations
                const int k = x.range(1, 6);
                q->submitted += k;
                q->q->apply(static_cast<size_t>(k), [=](size_t) {
                    on_pool(log, "an iteration");
                    if (!token.alive()) {
                        violation("pool-op-released", "an iteration was executed after being released");
                    }
                    if (q->serial && 0 != q->active++) {
                        violation("pool-overlap", "two operations of a serial queue on a custom pool overlapped");
                    }
                    spin_us(us);
                    if (q->serial) {
                        --q->active;
                    }
                    ++q->executed;
                });
                stat("applied", k);
                continue;
            }
            ++q->submitted;
            if (grouped) {
                g.async(body, *q->q);
            } else {
                q->q->async(body);
            }
            jitter(x, 30);
        }
    });
    must(
      [=] {
          for (auto& q : *qs) {
              if (q->executed < q->submitted) {
                  return false;
              }
          }
          return true;
      },
      "operations on a custom pool to execute");
    must([=] { return 0 == *live; }, "operations on a custom pool to be released");
    long total = 0;
    for (auto& q : *qs) {
        const long tasks = handed_with(log, q->p);
        if (!q->serial && tasks != q->submitted) {
            violation("pool-priority-passed", str(tasks, " tasks were handed to the pool with the priority of a parallel queue for ", q->submitted.load(), " operations"));
        }
        if (q->serial && (tasks > q->submitted || (0 == tasks && q->submitted > 0))) {
            violation("pool-priority-passed", str(tasks, " tasks were handed to the pool with the priority of a serial queue for ", q->submitted.load(), " operations"));
        }
        total += tasks;
        stat("operations", q->executed);
    }
    if (total != log->tasks) {
        violation("pool-priority-passed", str(log->tasks.load() - total, " tasks were handed to the pool with a priority of no queue"));
    }
    if (delayed) {
        // delayed operations, timers and iterations execute there as well
        auto q = (*qs)[0].get();
        auto count = std::make_shared<std::atomic<int>>(0);
        q->q->after(ms(rng.below(5)), [=] {
            on_pool(log, "a delayed operation");
            ++*count;
        });
        xd::timer timer(ms(1), *q->q);
        timer.handler([=] {
            on_pool(log, "a timer");
            ++*count;
        });
        timer.resume();
        must_return(
          [&] {
              q->q->apply(7, [=](size_t) {
                  on_pool(log, "an iteration");
                  ++*count;
              });
          },
          "apply()");
        auto g = make_group();
        g.async([=] {
            on_pool(log, "an operation of a group");
            ++*count;
        },
                *q->q);
        g.notify([=] {
            on_pool(log, "the notification of a group");
            ++*count;
        },
                 *q->q);
        must([=] { return *count >= 12; }, "delayed operations on a custom pool", [=] { return str(count->load()); });
        must_return([&] { timer.cancel(); }, "cancel()");
    }
    {
        std::lock_guard<std::mutex> lock(log->CS);
        if (log->max_outstanding > 1) {
            // the task of a serial queue is a single object, those of parallel
            // queues are the operations themselves
            violation("pool-outstanding", str("the same task was outstanding ", log->max_outstanding, " times"));
        }
        if (log->blocks != log->unblocks) {
            violation("pool-unbalanced", str(log->blocks.load(), " times blocked, ", log->unblocks.load(), " times unblocked"));
        }
    }
    trace_hash(static_cast<uint64_t>(log->tasks) << 8 ^ static_cast<uint64_t>(n));
    // released once the last queue is gone
    pool.reset();
    if (log->destroyed) {
        violation("pool-released-early", "the pool was released while queues are using it");
    }
    qs->clear();
    must([=] { return log->destroyed.load(); }, "a custom pool to be released once its queues are gone");
}

// bounded work per task, one outstanding task per serial queue
static void
custom_fair(Rng& rng, int)
{
    auto log = std::make_shared<PoolLog>();
    auto pool = std::make_shared<MonitoredPool>(log, rng.range(1, 3));
    auto q = std::make_shared<xd::queue>(xd::naive::create_serial_queue("custom", pool, xd::queue_priority::UTILITY));
    auto other = std::make_shared<xd::queue>(xd::naive::create_serial_queue("other", pool, xd::queue_priority::BACKGROUND));
    auto gate = std::make_shared<Gate>();
    auto executed = std::make_shared<std::atomic<int>>(0);
    auto others = std::make_shared<std::atomic<int>>(0);
    q->async([=] {
        on_pool(log, "an operation");
        gate->pass();
    });
    const int n = scaled(rng.range(300, 1500));
    // self-sustaining as well
    const bool nested = rng.chance(2);
    struct Maker
    {
        static void op(const std::weak_ptr<xd::queue>& q, const std::shared_ptr<PoolLog>& log, const std::shared_ptr<std::atomic<int>>& executed, int left)
        {
            on_pool(log, "an operation");
            ++*executed;
            if (left > 0) {
                if (auto s = q.lock()) {
                    s->async([=] { op(q, log, executed, left - 1); });
                }
            }
        }
    };
    std::weak_ptr<xd::queue> weak = q;
    if (nested) {
        q->async([=] { Maker::op(weak, log, executed, n - 1); });
    } else {
        for (int i = 0; i < n; ++i) {
            q->async([=] { Maker::op(weak, log, executed, 0); });
        }
    }
    gate->open();
    const int m = rng.range(1, 5);
    for (int i = 0; i < m; ++i) {
        other->async([=] {
            on_pool(log, "an operation");
            ++*others;
        });
    }
    must([=] { return *executed == n && *others == m; }, "operations on a custom pool to execute", [=] { return str(executed->load(), " of ", n, ", ", others->load(), " of ", m); });
    q.reset();
    other.reset();
    pool.reset();
    must([=] { return log->destroyed.load(); }, "a custom pool to be released once its queues are gone");
    if (log->max_per_task > 100) {
        violation("pool-unfair", str("a single task executed ", log->max_per_task.load(), " operations"));
    }
    if (log->max_outstanding > 1) {
        violation("pool-outstanding", str("a serial queue had ", log->max_outstanding, " tasks outstanding"));
    }
    stat("operations", n + m);
    stat_max("operations_per_task_max", log->max_per_task);
    trace_hash(static_cast<uint64_t>(n) << 8 ^ static_cast<uint64_t>(m) << 1 ^ nested);
}

// waiting inside of the library is announced
static void
custom_blocking(Rng& rng, int)
{
    auto log = std::make_shared<PoolLog>();
    const int threads = rng.range(1, 3);
    auto pool = std::make_shared<MonitoredPool>(log, threads);
    auto q = std::make_shared<xd::queue>(xd::naive::create_parallel_queue("custom", pool));
    const int n = rng.range(1, 12);
    auto done = std::make_shared<std::atomic<int>>(0);
    auto gate = std::make_shared<Gate>();
    auto held = std::make_shared<std::atomic<int>>(0);
    const bool gated = rng.chance(2);
    for (int i = 0; i < n; ++i) {
        const int kind = rng.range(0, 3);
        const bool naive = rng.chance(2);
        q->async([=] {
            on_pool(log, "an operation");
            switch (kind) {
                case 0: {
                    // on the same pool
                    auto g = naive ? xd::group() : make_group();
                    g.async([=] { on_pool(log, "an operation of a group"); }, *q);
                    g.wait(ms(-1));
                    break;
                }
                case 1:
                    q->apply(4, [=](size_t) { on_pool(log, "an iteration"); });
                    break;
                case 2: {
                    auto g = make_group();
                    g.async([=] { spin_us(50); });
                    while (!g.wait(ms(1))) {
                    }
                    break;
                }
                default: {
                    xd::group g;
                    g.async([=] {
                        q->apply(2, [=](size_t) { on_pool(log, "an iteration"); });
                    },
                            *q);
                    g.notify([=] { on_pool(log, "a notification"); }, *q);
                    g.wait(ms(-1));
                    break;
                }
            }
            ++*done;
        });
    }
    if (gated) {
        // waiting for something outside of the pool
        auto g = std::make_shared<xd::group>(make_group());
        g->async([=] { gate->pass(); });
        const int k = rng.range(1, 4);
        for (int i = 0; i < k; ++i) {
            q->async([=] {
                g->wait(ms(-1));
                ++*held;
            });
        }
        must([=] { return *done == n; }, "operations waiting for each other on a custom pool", [=] { return str(done->load(), " of ", n, " with ", threads, " threads"); });
        must([=] { return log->now_blocked >= k; }, "waiting to be announced to the pool", [=] { return str(log->now_blocked.load(), " of ", k); });
        if (*held) {
            violation("group-early", "wait() returned before the group was complete");
        }
        gate->open();
        must([=] { return *held == k; }, "wait() to return");
    }
    must([=] { return *done == n; }, "operations waiting for each other on a custom pool", [=] { return str(done->load(), " of ", n, " with ", threads, " threads"); });
    q.reset();
    pool.reset();
    must([=] { return log->destroyed.load(); }, "a custom pool to be released once its queues are gone");
    if (log->blocks != log->unblocks) {
        violation("pool-unbalanced", str(log->blocks.load(), " times blocked, ", log->unblocks.load(), " times unblocked"));
    }
    stat("blocked", log->blocks);
    stat("operations", n);
    trace_hash(static_cast<uint64_t>(log->blocks) << 8 ^ static_cast<uint64_t>(n));
}

// queues and pool are dropped with operations pending
static void
custom_release(Rng& rng, int)
{
    for (int round = 0; round < scaled(20); ++round) {
        auto log = std::make_shared<PoolLog>();
        auto executed = std::make_shared<std::atomic<int>>(0);
        auto live = std::make_shared<std::atomic<long>>(0);
        auto gate = std::make_shared<Gate>();
        int n = 0;
        const bool gated = rng.chance(2);
        const bool from_within = rng.chance(3);
        must_return([&] {
            auto pool = std::make_shared<MonitoredPool>(log, rng.range(1, 3));
            std::vector<std::shared_ptr<xd::queue>> qs;
            for (int i = 0, m = rng.range(1, 3); i < m; ++i) {
                qs.push_back(std::make_shared<xd::queue>(rng.chance(2) ? xd::naive::create_serial_queue("custom", pool, prio(rng)) : xd::naive::create_parallel_queue("custom", pool, prio(rng))));
            }
            if (gated) {
                ++n;
                qs[0]->async([=] {
                    gate->pass();
                    ++*executed;
                });
            }
            for (int i = 0, m = rng.range(0, 30); i < m; ++i) {
                Token token(live.get());
                auto q = qs[rng.below(qs.size())];
                // the last handle may be dropped by a thread of the pool
                auto keep = from_within && rng.chance(2) ? qs[rng.below(qs.size())] : nullptr;
                ++n;
                q->async([=] {
                    on_pool(log, "an operation");
                    if (!token.alive() || log->destroyed) {
                        violation("pool-op-released", "an operation was executed after being released");
                    }
                    (void)keep;
                    ++*executed;
                });
            }
            // the pool goes first, it would wait for the gate here otherwise
            pool.reset();
            jitter(rng, 100);
            if (gated) {
                sleep_us(rng.range(0, 300));
            }
        },
                    "dropping the handles of queues on a custom pool");
        if (gated) {
            sleep_us(rng.range(0, 2000));
            if (log->destroyed) {
                violation("pool-released-early", "the pool was released with an operation executing");
            }
            gate->open();
        }
        must([=] { return *executed == n; }, "operations of dropped queues on a custom pool", [=] { return str(executed->load(), " of ", n); });
        must([=] { return log->destroyed.load(); }, "a custom pool to be released once its queues are gone and drained");
        if (0 != *live || *executed != n) {
            violation("pool-op-released", str(live->load(), " operations left after the pool was released, ", executed->load(), " of ", n, " executed"));
        }
        stat("operations", n);
        trace_hash(static_cast<uint64_t>(n) << 3 ^ static_cast<uint64_t>(gated) << 2 ^ static_cast<uint64_t>(from_within) << 1 ^ static_cast<uint64_t>(log->tasks) << 12);
    }
}

int
main(int argc, char** argv)
{
    return run_main(argc,
                    argv,
                    { { "meet", meet },
                      { "blocked", blocked },
                      { "blocked_gated", blocked_gated },
                      { "sources", sources },
                      { "idle", idle },
                      { "bound", bound },
                      { "bound_startup", bound_startup },
                      { "no_pileup", no_pileup },
                      { "expire", expire },
                      { "priorities", priorities },
                      { "priorities_arriving", priorities_arriving },
                      { "custom_queues", custom_queues },
                      { "custom_fair", custom_fair },
                      { "custom_blocking", custom_blocking },
                      { "custom_release", custom_release } });
}
