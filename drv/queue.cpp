// Workloads and monitors for plain queues: order, mutual exclusion, conservation,
// lifetime of operations, apply() and after().
#include "vh.h"
#include "fifo.h"
#include "util.h"

#include <algorithm>
#include <map>

using namespace vh;
namespace xd = xdispatch;

// ---- C01 -------------------------------------------------------------------
struct SerialFixture
{
    std::shared_ptr<SerialCase> c;
    std::shared_ptr<xd::queue> q;
    std::shared_ptr<xd::group> g;
};

static void
submit(const SerialFixture& f, uint64_t r, int depth)
{
    const auto c = f.c;
    const int id = c->next_id.fetch_add(1, std::memory_order_relaxed);
    const long us = (r >> 8) % 7 == 0 ? static_cast<long>((r >> 12) % 60) : 0;
    c->submitted.fetch_add(1, std::memory_order_relaxed);
    auto body = [f, c, id, us, r, depth] {
        // nested submissions are made both before and after the own work
        if (depth > 0 && (r >> 20) % 4 == 0) {
            submit(f, r * 6364136223846793005ULL + 1442695040888963407ULL, depth - 1);
        }
        c->run(id, us);
        if (depth > 0 && (r >> 24) % 4 == 0) {
            submit(f, r * 2862933555777941757ULL + 3037000493ULL, depth - 1);
        }
        c->done();
    };
    c->log.add(SUB_BEGIN, id);
    switch ((r >> 32) % 4) {
        case 0:
            f.q->async(body);
            break;
        case 1:
            f.q->async(std::make_shared<FnOp>(body));
            break;
        case 2: {
            const xd::queue copy(*f.q);
            copy.async(body);
            break;
        }
        default:
            f.g->async(body, *f.q);
            break;
    }
    c->log.add(SUB_END, id);
}

static void
serial_order(Rng& rng, int)
{
    SerialFixture f;
    f.c = std::make_shared<SerialCase>(60000);
    f.q = std::make_shared<xd::queue>(serial("vh.serial", prio(rng)));
    f.g = std::make_shared<xd::group>(make_group());
    Noise noise(rng);
    const int producers = rng.range(1, 5);
    const int style = static_cast<int>(rng.below(5));
    const int depth = rng.range(0, 3);
    std::vector<std::thread> threads;
    std::atomic<int> go{ 0 };
    for (int p = 0; p < producers; ++p) {
        const uint64_t seed = rng.next();
        const int n = scaled(rng.range(3, 90));
        threads.emplace_back([&f, &go, seed, n, style, depth] {
            Rng r(seed);
            ++go;
            for (int i = 0; i < n; ++i) {
                switch (style) {
                    case 1:
                        spin_us(static_cast<long>(r.below(40)));
                        break;
                    case 2: // hit the moment at which the queue runs empty
                        poll_for([&] { return f.c->executed.load() >= f.c->submitted.load(); }, 2);
                        break;
                    case 3: // bursts around the drain limit
                        if (0 == i % 11) {
                            sleep_us(static_cast<long>(r.below(600)));
                        }
                        break;
                    default:
                        break;
                }
                submit(f, r.next() ^ (r.next() << 20), depth);
            }
        });
    }
    for (auto& t : threads) {
        t.join();
    }
    const auto c = f.c;
    must([c] { return c->executed.load(std::memory_order_acquire) >= c->submitted.load(); }, "all operations of a serial queue to execute", [c] {
        return str(c->executed.load(), " of ", c->submitted.load(), " executed; ", c->log.tail());
    });
    const long total = c->submitted.load();
    if (c->overlaps.load()) {
        violation("serial:overlap", str("two operations of a serial queue were active at once; ", c->log.tail(80)));
    }
    if (c->plain != total) {
        violation("serial:lost-update", str("unsynchronised counter is ", c->plain, " after ", total, " operations"));
    }
    check_serial(c->log, total, "serial");
    stat("operations", total);
    trace(c->log);
}

// everything which can put work on a serial queue at the same time: operations,
// apply, after, timers, group notifications - none of it may overlap
static void
serial_mixed(Rng& rng, int)
{
    auto c = std::make_shared<SerialCase>(60000);
    const auto q = serial("vh.mixed", prio(rng));
    auto g = make_group();
    Noise noise(rng);
    std::vector<std::thread> threads;
    auto body = [c](int id) {
        c->run(id, id % 5 ? 0 : 20);
        c->done();
    };
    auto fresh = [c] {
        c->submitted.fetch_add(1, std::memory_order_relaxed);
        return c->next_id.fetch_add(1, std::memory_order_relaxed);
    };
    const int n = scaled(rng.range(5, 40));
    threads.emplace_back([&] {
        for (int i = 0; i < n; ++i) {
            const int id = fresh();
            c->log.add(SUB_BEGIN, id);
            q.async([=] { body(id); });
            c->log.add(SUB_END, id);
        }
    });
    const int times = rng.range(1, 25);
    threads.emplace_back([&] {
        for (int k = 0; k < 3; ++k) {
            auto last = std::make_shared<std::atomic<long>>(-1);
            const int base = c->next_id.fetch_add(times, std::memory_order_relaxed);
            c->submitted.fetch_add(times, std::memory_order_relaxed);
            for (int i = 0; i < times; ++i) {
                c->log.add(SUB_BEGIN, base + i);
            }
            q.apply(static_cast<size_t>(times), [=](size_t i) {
                if (last->exchange(static_cast<long>(i), std::memory_order_relaxed) >= static_cast<long>(i)) {
                    violation("serial:apply-order", str("apply on a serial queue executed index ", i, " out of order"));
                }
                body(base + static_cast<int>(i));
            });
        }
    });
    threads.emplace_back([&] {
        for (int i = 0; i < 8; ++i) {
            const int id = fresh();
            q.after(ms(i % 4), [=] { body(id); });
        }
        for (int i = 0; i < 4; ++i) {
            const int id = fresh();
            g.notify([=] { body(id); }, q);
            const int id2 = fresh();
            g.async([=] { body(id2); }, q);
        }
    });
    xd::timer t = make_timer(ms(1), q);
    t.handler([=] {
        const int id = fresh();
        body(id);
    });
    t.resume();
    for (auto& th : threads) {
        th.join();
    }
    must([c] { return c->executed.load(std::memory_order_acquire) >= c->submitted.load(); }, "all operations of a serial queue to execute", [c] {
        return str(c->executed.load(), " of ", c->submitted.load(), " executed; ", c->log.tail());
    });
    t.cancel();
    must([c] { return c->executed.load(std::memory_order_acquire) >= c->submitted.load(); }, "all operations of a serial queue to execute");
    const long total = c->submitted.load();
    if (c->overlaps.load()) {
        violation("serial:overlap", str("two operations of a serial queue were active at once; ", c->log.tail(80)));
    }
    if (c->plain != total) {
        violation("serial:lost-update", str("unsynchronised counter is ", c->plain, " after ", total, " operations"));
    }
    check_serial(c->log, total, "serial");
    stat("operations", total);
    trace(c->log);
}

// ---- C02 -------------------------------------------------------------------
struct OnceCase
{
    explicit OnceCase(size_t n)
      : counts(n)
      , log(n * 3 + 1000)
    {}
    std::vector<std::atomic<int>> counts;
    std::atomic<long> executed{ 0 };
    std::atomic<long> submitted{ 0 };
    std::atomic<size_t> next{ 0 };
    Log log;
};

static void
check_once(const std::shared_ptr<OnceCase>& c, const char* what)
{
    must([c] { return c->executed.load(std::memory_order_acquire) >= c->submitted.load(); },
         what,
         [c] {
             std::string missing;
             for (size_t i = 0; i < c->next.load() && missing.size() < 200; ++i) {
                 if (0 == c->counts[i].load()) {
                     missing += str(i, " ");
                 }
             }
             return str(c->executed.load(), " of ", c->submitted.load(), " operations executed, missing: ", missing);
         });
    sleep_us(1500);
    for (size_t i = 0; i < c->next.load(); ++i) {
        const int n = c->counts[i].load();
        if (1 != n) {
            violation("exactly-once", str("operation ", i, " executed ", n, " times"));
            break;
        }
    }
    stat("operations", c->submitted.load());
    trace(c->log);
}

static void
once_submit(const std::shared_ptr<OnceCase>& c, const xd::queue& q, uint64_t r, int depth)
{
    const size_t id = c->next.fetch_add(1);
    if (id >= c->counts.size()) {
        c->next.fetch_sub(1);
        return;
    }
    ++c->submitted;
    auto op = [c, id, r, depth] {
        c->log.add(EXEC_BEGIN, static_cast<int64_t>(id));
        c->counts[id].fetch_add(1, std::memory_order_relaxed);
        if (depth > 0 && r % 3 == 0) {
            // from within an operation, on a queue that lives only here
            const auto q2 = r % 2 ? serial("vh.nested") : parallel("vh.nested");
            once_submit(c, q2, r >> 3, depth - 1);
        }
        c->executed.fetch_add(1, std::memory_order_release);
    };
    c->log.add(SUB_BEGIN, static_cast<int64_t>(id));
    switch ((r >> 40) % 5) {
        case 0: {
            auto g = make_group();
            g.async(op, q);
            break;
        }
        case 1:
            q.async(std::make_shared<FnOp>(op));
            break;
        case 2:
            if (0 == r % 8) {
                q.after(ms(static_cast<long>((r >> 10) % 3)), op);
                break;
            }
            q.async(op);
            break;
        default:
            q.async(op);
            break;
    }
}

static void
exactly_once(Rng& rng, int)
{
    auto c = std::make_shared<OnceCase>(static_cast<size_t>(scaled(4000)));
    std::vector<xd::queue> queues;
    const int nq = rng.range(1, 6);
    for (int i = 0; i < nq; ++i) {
        queues.push_back(rng.chance(2) ? serial("vh.s", prio(rng)) : parallel("vh.p", prio(rng)));
    }
    if (rng.chance(3)) {
        queues.push_back(xd::global_queue(prio(rng)));
    }
    Noise noise(rng);
    std::vector<std::thread> threads;
    const int producers = rng.range(1, 6);
    const int style = static_cast<int>(rng.below(4));
    for (int p = 0; p < producers; ++p) {
        const uint64_t seed = rng.next();
        const int n = scaled(rng.range(5, 150));
        threads.emplace_back([&queues, c, seed, n, style] {
            Rng r(seed);
            for (int i = 0; i < n; ++i) {
                if (1 == style) {
                    spin_us(static_cast<long>(r.below(100)));
                } else if (2 == style && r.chance(6)) {
                    sleep_us(static_cast<long>(r.below(1500)));
                }
                if (r.chance(4)) {
                    // handle is dropped as soon as the operation was queued
                    const auto q = r.chance(2) ? serial("vh.tmp", prio(r)) : parallel("vh.tmp", prio(r));
                    once_submit(c, q, r.next() ^ (r.next() << 20), 2);
                } else {
                    once_submit(c, queues[r.below(queues.size())], r.next() ^ (r.next() << 20), 2);
                }
            }
        });
    }
    if (rng.chance(2)) {
        sleep_us(static_cast<long>(rng.below(500)));
    }
    for (auto& t : threads) {
        t.join();
    }
    queues.clear();
    check_once(c, "all queued operations to execute");
}

// one operation at a time with pauses around the point at which workers fall asleep
static void
trickle(Rng& rng, int)
{
    auto c = std::make_shared<OnceCase>(static_cast<size_t>(scaled(600)) + 8);
    const auto q = rng.chance(2) ? serial("vh.s", prio(rng)) : parallel("vh.p", prio(rng));
    const int n = scaled(rng.range(60, 250));
    for (int i = 0; i < n; ++i) {
        once_submit(c, q, 1, 0);
        const long target = i;
        if (rng.chance(3)) {
            must([c, target] { return c->executed.load() > target; }, "a single queued operation to execute", [c] { return c->log.tail(); });
        } else if (rng.chance(2)) {
            // spin so that the next submission races with the worker going idle
            const auto end = now_ns() + 3000000;
            while (c->executed.load() <= target && now_ns() < end) {
            }
        }
        spin_us(static_cast<long>(rng.below(60)));
        if (rng.chance(40)) {
            sleep_us(static_cast<long>(rng.below(4000)));
        }
    }
    check_once(c, "all queued operations to execute");
}

// queues are created, used and dropped from many threads including from their own operations
static void
churn(Rng& rng, int)
{
    auto c = std::make_shared<OnceCase>(static_cast<size_t>(scaled(6000)));
    std::vector<std::thread> threads;
    for (int p = 0; p < 4; ++p) {
        const uint64_t seed = rng.next();
        threads.emplace_back([c, seed] {
            Rng r(seed);
            const int rounds = scaled(40);
            for (int i = 0; i < rounds; ++i) {
                auto q = std::make_shared<xd::queue>(r.chance(3) ? parallel("vh.churn", prio(r)) : serial("vh.churn", prio(r)));
                const int n = static_cast<int>(r.below(14));
                for (int k = 0; k < n; ++k) {
                    once_submit(c, *q, r.next() ^ (r.next() << 20), 1);
                }
                if (r.chance(2)) {
                    // the last reference may get dropped by the operation itself
                    const size_t id = c->next.fetch_add(1);
                    if (id < c->counts.size()) {
                        ++c->submitted;
                        auto holder = std::make_shared<std::shared_ptr<xd::queue>>(q);
                        q->async([c, id, holder] {
                            holder->reset();
                            c->counts[id].fetch_add(1);
                            c->executed.fetch_add(1, std::memory_order_release);
                        });
                    } else {
                        c->next.fetch_sub(1);
                    }
                }
                if (r.chance(3)) {
                    spin_us(static_cast<long>(r.below(80)));
                }
            }
        });
    }
    for (auto& t : threads) {
        t.join();
    }
    check_once(c, "all queued operations to execute");
}

// ---- C03 -------------------------------------------------------------------
struct LifeCase
{
    std::atomic<long> live{ 0 };
    std::atomic<long> executed{ 0 };
    std::atomic<long> submitted{ 0 };
    std::atomic<long> destroyed_early{ 0 };
};

// operation tracking its own life
class TrackedOp : public xd::operation
{
public:
    TrackedOp(const std::shared_ptr<LifeCase>& c, const std::function<void()>& on_destroy)
      : m_c(c)
      , m_token(&c->live)
      , m_on_destroy(on_destroy)
    {}
    ~TrackedOp() override
    {
        if (m_running) {
            violation("lifetime:destroyed-while-running", "an operation was destroyed while it executed");
        }
        if (m_on_destroy) {
            m_on_destroy();
        }
    }
    void operator()() override
    {
        m_running = 1;
        if (!m_token.alive()) {
            violation("lifetime:dead-token", "captured state was gone during execution");
        }
        spin_us(static_cast<long>(reinterpret_cast<uintptr_t>(this) >> 6) % 20);
        if (!m_token.alive()) {
            violation("lifetime:dead-token", "captured state was gone during execution");
        }
        m_running = 0;
        m_c->executed.fetch_add(1, std::memory_order_release);
    }

private:
    std::shared_ptr<LifeCase> m_c;
    Token m_token;
    std::function<void()> m_on_destroy;
    volatile int m_running = 0;
};

static void
lifetime(Rng& rng, int)
{
    auto c = std::make_shared<LifeCase>();
    auto log = std::make_shared<Log>(40000);
    {
        bool is_serial = false;
        auto q = std::make_shared<xd::queue>(any_queue(rng, is_serial));
        auto g = make_group();
        const int n = scaled(rng.range(10, 150));
        std::vector<xd::operation_ptr> kept;
        for (int i = 0; i < n; ++i) {
            const int what = static_cast<int>(rng.below(9));
            const int64_t id = i;
            auto tok = std::make_shared<Token>(&c->live);
            auto lambda = [c, tok, log, id] {
                if (!tok->alive()) {
                    violation("lifetime:dead-token", "captured state was gone during execution");
                }
                log->add(EXEC_BEGIN, id);
                c->executed.fetch_add(1, std::memory_order_release);
            };
            c->submitted.fetch_add(1);
            log->add(SUB_BEGIN, id, what);
            switch (what) {
                case 0:
                    q->async(lambda);
                    break;
                case 1:
                    g.async(lambda, *q);
                    break;
                case 2: {
                    auto op = std::make_shared<TrackedOp>(c, [log, id] { log->add(EXEC_END, id); });
                    if (rng.chance(3)) {
                        kept.push_back(op);
                    }
                    q->async(op);
                    break;
                }
                case 3: {
                    // the destructor of the captured state queues work again
                    std::weak_ptr<xd::queue> wq = q;
                    c->submitted.fetch_add(1);
                    q->async(std::make_shared<TrackedOp>(c, [wq, c] {
                        if (auto q2 = wq.lock()) {
                            auto tok2 = std::make_shared<Token>(&c->live);
                            q2->async([c, tok2] { c->executed.fetch_add(1, std::memory_order_release); });
                        } else {
                            c->executed.fetch_add(1, std::memory_order_release);
                        }
                    }));
                    break;
                }
                case 4: {
                    // the captured state holds the last reference to another queue
                    // with pending work
                    auto q2 = std::make_shared<xd::queue>(rng.chance(2) ? serial("vh.captured") : parallel("vh.captured"));
                    c->submitted.fetch_add(1);
                    q2->async(lambda);
                    q->async([c, q2, tok] { c->executed.fetch_add(1, std::memory_order_release); });
                    break;
                }
                case 5: {
                    // the operation holds the last reference to its own queue
                    auto q2 = std::make_shared<xd::queue>(serial("vh.self"));
                    q2->async([c, q2, tok] { c->executed.fetch_add(1, std::memory_order_release); });
                    break;
                }
                case 6:
                    c->submitted.fetch_sub(1);
                    {
                        const size_t times = rng.below(6);
                        c->submitted.fetch_add(static_cast<long>(times));
                        q->apply(times, [c, tok](size_t) { c->executed.fetch_add(1, std::memory_order_release); });
                    }
                    break;
                case 7:
                    q->after(ms(static_cast<long>(rng.below(3))), lambda);
                    break;
                default:
                    g.notify(lambda, *q);
                    break;
            }
            tok.reset();
            if (rng.chance(5)) {
                spin_us(static_cast<long>(rng.below(60)));
            }
        }
        if (rng.chance(2)) {
            q.reset(); // handle dropped with work pending
        }
        must([c] { return c->executed.load(std::memory_order_acquire) >= c->submitted.load(); }, "all operations to execute", [c] {
            return str(c->executed.load(), " of ", c->submitted.load());
        });
        if (!kept.empty()) {
            // everything but what we hold ourselves gets released although
            // the queue is still alive and idle
            for (auto& k : kept) {
                must([&k] { return 1 == k.use_count(); }, "the library to drop its reference to an executed operation", [&k] {
                    return str("use_count=", k.use_count());
                });
            }
            kept.clear();
        }
        must([c] { return 0 == c->live.load(); }, "captured state of executed operations to be released", [c] {
            return str(c->live.load(), " captured objects still alive after all ", c->executed.load(), " operations executed");
        });
    }
    stat("operations", c->submitted.load());
    trace(*log);
}

// memory must not grow with the number of operations/queues that came and went
static void
no_growth(Rng& rng, int)
{
    auto c = std::make_shared<LifeCase>();
    Log log(64);
    const int kind = static_cast<int>(rng.below(6));
    auto round = [&](int n) {
        auto q = serial("vh.growth");
        auto p = parallel("vh.growth");
        auto g = make_group();
        for (int i = 0; i < n; ++i) {
            auto tok = std::make_shared<Token>(&c->live);
            c->submitted.fetch_add(1);
            auto op = [c, tok] { c->executed.fetch_add(1, std::memory_order_release); };
            switch (kind) {
                case 0:
                    q.async(op);
                    break;
                case 1:
                    p.async(op);
                    break;
                case 2: {
                    auto tmp = serial("vh.growth.tmp");
                    tmp.async(op);
                    break;
                }
                case 3:
                    g.async(op, p);
                    g.wait();
                    break;
                case 4: {
                    auto tmp = parallel("vh.growth.tmp");
                    tmp.apply(1, [op](size_t) { op(); });
                    break;
                }
                default:
                    q.after(ms(0), op);
                    break;
            }
            if (0 == i % 64) {
                must([c] { return c->executed.load(std::memory_order_acquire) + 128 >= c->submitted.load(); }, "operations to execute");
            }
        }
        must([c] { return c->executed.load(std::memory_order_acquire) >= c->submitted.load(); }, "operations to execute");
        must([c] { return 0 == c->live.load(); }, "captured state to be released");
        sleep_us(3000);
    };
    const int n = scaled(400);
    round(n);
    round(n);
    auto settled = [] {
        long low = live_blocks();
        for (int i = 0; i < 20; ++i) {
            sleep_us(1000);
            low = std::min(low, live_blocks());
        }
        return low;
    };
    long base = settled();
    long last = 0;
    // growth has to persist over several rounds to count
    bool grows = true;
    std::string series = str(base);
    for (int k = 0; k < 5 && grows; ++k) {
        round(n);
        last = settled();
        series += str(" ", last);
        grows = last - base > n / 2;
        base = last;
    }
    if (grows && 0 != live_bytes()) {
        violation("lifetime:growth", str("live heap blocks after each round of ", n, " operations (kind ", kind, "): ", series));
    }
    log.add(CALL, kind, 0);
    stat("operations", c->submitted.load());
    trace_hash(static_cast<uint64_t>(kind) * 1000003 + rng.next());
}

// ---- C04 -------------------------------------------------------------------
static void
one_apply(const xd::queue& q, bool is_serial, uint64_t seed, int depth, const std::shared_ptr<Log>& log, bool exclusive = true)
{
    Rng r(seed);
    const size_t sizes[] = { 0, 1, 2, 3, 7, 10, 11, 16, 40, 100, 300 };
    size_t times = sizes[r.below(depth > 0 ? 6 : 11)];
    if (0 == depth && r.chance(3)) {
        times = r.below(r.chance(3) ? 5000 : 700);
    }
    const uint64_t pauses = times > 300 ? 40 : 4;
    auto counts = std::make_shared<std::vector<std::atomic<int>>>(times + 1);
    auto data = std::make_shared<std::vector<long>>(times + 1, 0);
    auto active = std::make_shared<std::atomic<int>>(0);
    auto returned = std::make_shared<std::atomic<bool>>(false);
    log->add(CALL, static_cast<int64_t>(times), depth);
    const auto fn = [=](size_t i) {
        log->add(EXEC_BEGIN, static_cast<int64_t>(i), depth);
        if (returned->load(std::memory_order_relaxed)) {
            violation("apply:after-return", str("index ", i, " of ", times, " executed after apply returned"));
        }
        if (i >= times) {
            violation("apply:range", str("index ", i, " passed for ", times, " iterations"));
            return;
        }
        if (is_serial && exclusive && 0 != active->fetch_add(1, std::memory_order_relaxed)) {
            violation("apply:serial-overlap", "two iterations were active at once on a serial queue");
        }
        (*counts)[i].fetch_add(1, std::memory_order_relaxed);
        Rng rr(seed ^ (i * 7919));
        if (rr.chance(pauses)) {
            spin_us(static_cast<long>(rr.below(100)));
        } else if (rr.chance(pauses * 4)) {
            sleep_us(static_cast<long>(rr.below(1500)));
        }
        if (depth > 0 && rr.chance(3)) {
            // nested, on queues other than a serial one we are occupying
            if (rr.chance(2)) {
                one_apply(parallel("vh.nested", prio(rr)), false, rr.next(), depth - 1, log);
            } else if (!is_serial) {
                one_apply(q, false, rr.next(), depth - 1, log);
            } else {
                one_apply(serial("vh.nested", prio(rr)), true, rr.next(), depth - 1, log);
            }
        }
        if (returned->load(std::memory_order_relaxed)) {
            violation("apply:after-return", str("index ", i, " of ", times, " was still executing when apply returned"));
        }
        (*data)[i] = static_cast<long>(i) + 1; // unsynchronised, published by apply returning
        if (is_serial && exclusive) {
            active->fetch_sub(1, std::memory_order_relaxed);
        }
        log->add(EXEC_END, static_cast<int64_t>(i), depth);
    };
    if (r.chance(2)) {
        q.apply(times, fn);
    } else {
        q.apply(times, xd::make_iteration_operation(fn));
    }
    returned->store(true, std::memory_order_relaxed);
    log->add(RET, static_cast<int64_t>(times), depth);
    for (size_t i = 0; i < times; ++i) {
        const int n = (*counts)[i].load(std::memory_order_relaxed);
        if (1 != n) {
            violation(n ? "apply:twice" : "apply:missing", str("index ", i, " of ", times, " had executed ", n, " times when apply returned; ", log->tail()));
            break;
        }
        if ((*data)[i] != static_cast<long>(i) + 1) {
            violation("apply:visibility", str("effects of index ", i, " of ", times, " are not visible after apply returned"));
            break;
        }
    }
    stat("applies");
    stat("iterations", static_cast<long>(times));
}

static void
apply(Rng& rng, int)
{
    auto log = std::make_shared<Log>(60000);
    Noise noise(rng);
    bool is_serial = false;
    const auto q = any_queue(rng, is_serial);
    const int callers = rng.range(1, 4);
    const int depth = rng.range(0, 2);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < callers; ++i) {
        seeds.push_back(rng.next());
    }
    const bool from_pool = rng.chance(2);
    auto pending = std::make_shared<std::atomic<int>>(callers);
    std::vector<std::thread> threads;
    for (int i = 0; i < callers; ++i) {
        const auto seed = seeds[static_cast<size_t>(i)];
        auto job = [=] {
            Rng r(seed);
            const int rounds = scaled(r.range(1, 6));
            for (int k = 0; k < rounds; ++k) {
                one_apply(q, is_serial, r.next(), depth, log);
            }
            pending->fetch_sub(1, std::memory_order_release);
        };
        if (from_pool && !is_serial) {
            q.async(job);
        } else if (from_pool) {
            parallel("vh.caller").async(job);
        } else {
            threads.emplace_back(job);
        }
    }
    must([pending] { return 0 == pending->load(std::memory_order_acquire); }, "apply to return", [log] { return log->tail(); });
    for (auto& t : threads) {
        t.join();
    }
    trace(*log);
}

// ---- C05 -------------------------------------------------------------------
static void
after(Rng& rng, int)
{
    auto log = std::make_shared<Log>(20000);
    struct Item
    {
        uint64_t called = 0;
        long delay = 0;
        std::atomic<int> count{ 0 };
        std::atomic<uint64_t> at{ 0 };
    };
    const int n = scaled(rng.range(4, 60));
    auto items = std::make_shared<std::vector<Item>>(static_cast<size_t>(n));
    auto live = std::make_shared<std::atomic<long>>(0);
    auto executed = std::make_shared<std::atomic<long>>(0);
    auto active = std::make_shared<std::atomic<int>>(0);
    bool is_serial = false;
    auto q = std::make_shared<xd::queue>(any_queue(rng, is_serial));
    const int style = static_cast<int>(rng.below(3));
    const long delays[] = { 0, 0, 1, 2, 5, 12, 30 };
    {
        Noise noise(rng);
        for (int i = 0; i < n; ++i) {
            auto& it = (*items)[static_cast<size_t>(i)];
            it.delay = 2 == style ? 25 : delays[rng.below(7)];
            if (rng.chance(12)) {
                it.delay = -static_cast<long>(rng.below(50));
            }
            auto tok = std::make_shared<Token>(live.get());
            const int id = i;
            it.called = now_ns();
            log->add(SUB_BEGIN, id, it.delay);
            auto fn = [=] {
                const auto at = now_ns();
                auto& self = (*items)[static_cast<size_t>(id)];
                log->add(EXEC_BEGIN, id, self.delay);
                if (is_serial && 0 != active->fetch_add(1, std::memory_order_relaxed)) {
                    violation("after:serial-overlap", "a delayed operation overlapped with another operation of its serial queue");
                }
                if (!tok->alive()) {
                    violation("after:dead-token", "captured state was gone during execution");
                }
                self.at = at;
                if (0 != self.count.fetch_add(1)) {
                    violation("after:twice", str("delayed operation ", id, " executed again; ", log->tail()));
                }
                if (self.delay > 0 && at < self.called + static_cast<uint64_t>(self.delay) * 1000000ULL) {
                    violation("after:early", str("executed ", (at - self.called) / 1000, "us after the call, requested was ", self.delay, "ms"));
                }
                if (is_serial) {
                    spin_us(20);
                    active->fetch_sub(1, std::memory_order_relaxed);
                }
                executed->fetch_add(1, std::memory_order_release);
            };
            if (rng.chance(3)) {
                q->after(ms(it.delay), std::make_shared<FnOp>(fn));
            } else {
                q->after(ms(it.delay), fn);
            }
            if (rng.chance(6)) {
                // ordinary operations in between
                q->async([=] {
                    if (is_serial && 0 != active->fetch_add(1, std::memory_order_relaxed)) {
                        violation("after:serial-overlap", "a delayed operation overlapped with another operation of its serial queue");
                    }
                    spin_us(10);
                    if (is_serial) {
                        active->fetch_sub(1, std::memory_order_relaxed);
                    }
                });
            }
        }
        if (rng.chance(2)) {
            q.reset(); // the system keeps the queue until the operation was executed
        }
        must([=] { return executed->load(std::memory_order_acquire) >= n; }, "delayed operations to execute", [=] {
            return str(executed->load(), " of ", n, "; ", log->tail());
        });
    }
    must([=] { return 0 == live->load(); }, "captured state of delayed operations to be released", [=] {
        return str(live->load(), " of ", n, " captured objects still alive");
    });
    sleep_us(40000); // a second execution would come one delay later
    uint64_t best = UINT64_MAX;
    for (auto& it : *items) {
        if (1 != it.count.load()) {
            violation("after:count", str("a delayed operation executed ", it.count.load(), " times"));
        }
        const uint64_t due = it.called + static_cast<uint64_t>(std::max(0L, it.delay)) * 1000000ULL;
        best = std::min<uint64_t>(best, it.at.load() - std::min<uint64_t>(due, it.at.load()));
    }
    stat_max("best_lateness_us_max", static_cast<long>(best / 1000));
    stat("operations", n);
    trace(*log);
}

// delays are honoured, not merely exceeded: of many samples the quickest one is on time
static void
after_latency(Rng& rng, int)
{
    Log log(400);
    auto q = rng.chance(2) ? serial("vh.lat") : parallel("vh.lat");
    double best = 1e9;
    const long delay = rng.range(5, 60);
    for (int i = 0; i < 14 && best > 100; ++i) {
        auto at = std::make_shared<std::atomic<uint64_t>>(0);
        const auto t0 = now_ns();
        log.add(SUB_BEGIN, i, delay);
        q.after(ms(delay), [at] { at->store(now_ns()); });
        must([at] { return 0 != at->load(); }, "a delayed operation to execute");
        log.add(EXEC_BEGIN, i, delay);
        best = std::min(best, static_cast<double>(at->load() - t0) / 1e6 - static_cast<double>(delay));
    }
    if (best > 1000) {
        violation("after:late", str("the quickest of 14 operations delayed by ", delay, "ms was ", best, "ms late"));
    }
    // two delays far apart execute in the order of their deadlines
    auto order = std::make_shared<Log>(8);
    const auto t0 = now_ns();
    q.after(ms(1500), [order] { order->add(2); });
    q.after(ms(5), [order] { order->add(1); });
    if (now_ns() - t0 < 500000000ULL) {
        must([order] { return order->size() >= 1; }, "a delayed operation to execute");
        if (1 != (*order)[0].kind && now_ns() - t0 < 1490000000ULL) {
            violation("after:order", "an operation delayed by 1500ms executed before one delayed by 5ms");
        }
    }
    must([order] { return order->size() >= 2; }, "a delayed operation to execute");
    stat("operations", 16);
    trace_hash(log.hash() ^ static_cast<uint64_t>(delay) ^ (static_cast<uint64_t>((*order)[0].tid) << 20));
}

int
main(int argc, char** argv)
{
    return run_main(argc,
                    argv,
                    { { "serial_order", serial_order },
                      { "serial_mixed", serial_mixed },
                      { "exactly_once", exactly_once },
                      { "trickle", trickle },
                      { "churn", churn },
                      { "lifetime", lifetime },
                      { "no_growth", no_growth },
                      { "apply", apply },
                      { "after", after },
                      { "after_latency", after_latency } });
}
