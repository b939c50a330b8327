// Workloads and monitors for waitable queues.
#include "fifo.h"
#include "util.h"

#include "xdispatch/waitable_queue.h"

#include <deque>

using namespace vh;
namespace xd = xdispatch;

namespace {

// a pool which executes nothing until told to
class DormantPool : public xd::naive::ithreadpool
{
public:
    void execute(const xd::operation_ptr& work, xd::queue_priority) override
    {
        std::lock_guard<std::mutex> lock(m_CS);
        m_work.push_back(work);
    }
    void run_all()
    {
        for (;;) {
            xd::operation_ptr op;
            {
                std::lock_guard<std::mutex> lock(m_CS);
                if (m_work.empty()) {
                    return;
                }
                op = m_work.front();
                m_work.pop_front();
            }
            run_with_threadpool(*op, this);
        }
    }

protected:
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}

private:
    std::mutex m_CS;
    std::deque<xd::operation_ptr> m_work;
};

// the queue a waitable queue delegates to
struct Inner
{
    std::shared_ptr<xd::queue> q;
    std::shared_ptr<DormantPool> pool; // when it never executes anything
    std::shared_ptr<Gate> gate;        // when it is blocked
    const char* kind = "";

    bool starving() const { return pool || gate; }
    void release()
    {
        if (gate) {
            gate->open();
        }
        if (pool) {
            pool->run_all();
        }
    }
};

Inner
make_inner(Rng& rng, bool starve)
{
    Inner in;
    if (starve) {
        switch (rng.below(3)) {
            case 0:
                in.kind = "dormant serial";
                in.pool = std::make_shared<DormantPool>();
                in.q = std::make_shared<xd::queue>(xd::naive::create_serial_queue("inner", in.pool));
                break;
            case 1:
                in.kind = "dormant parallel";
                in.pool = std::make_shared<DormantPool>();
                in.q = std::make_shared<xd::queue>(xd::naive::create_parallel_queue("inner", in.pool));
                break;
            default: {
                in.kind = "blocked serial";
                in.gate = std::make_shared<Gate>();
                in.q = std::make_shared<xd::queue>(serial("inner", prio(rng)));
                auto g = in.gate;
                in.q->async([g] { g->pass(); });
                break;
            }
        }
        return in;
    }
    switch (rng.below(3)) {
        case 0:
            in.kind = "serial";
            in.q = std::make_shared<xd::queue>(serial("inner", prio(rng)));
            break;
        case 1:
            in.kind = "parallel";
            in.q = std::make_shared<xd::queue>(parallel("inner", prio(rng)));
            break;
        default:
            in.kind = "own";
            break;
    }
    return in;
}

std::shared_ptr<xd::waitable_queue>
make_wq(const Inner& in, Rng& rng)
{
    if (in.q) {
        return std::make_shared<xd::waitable_queue>("vh.waitable", *in.q);
    }
    return std::make_shared<xd::waitable_queue>("vh.waitable", prio(rng));
}

struct Case
{
    explicit Case(size_t cap)
      : fifo(cap)
    {
        for (int i = 0; i < 8; ++i) {
            sub[i] = 0;
            exe[i] = 0;
        }
    }
    SerialCase fifo;
    std::atomic<long> live{ 0 };
    // submitted and executed operations by submitter
    std::atomic<long> sub[8];
    std::atomic<long> exe[8];
    // highest number of a submission that returned, unsynchronised results
    long results[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };
};

struct Fixture
{
    std::shared_ptr<Case> c;
    std::shared_ptr<xd::waitable_queue> q;
    std::shared_ptr<xd::group> g;
};

void
put(const Fixture& f, int who, uint64_t r, int depth)
{
    const auto c = f.c;
    const int id = c->fifo.next_id.fetch_add(1, std::memory_order_relaxed);
    const long us = (r >> 8) % 5 == 0 ? static_cast<long>((r >> 12) % 80) : 0;
    c->fifo.submitted.fetch_add(1, std::memory_order_relaxed);
    Token token(&c->live);
    auto body = [f, c, id, us, r, depth, token, who] {
        if (!token.alive()) {
            violation("wqueue:released", "an operation was executed after being released");
        }
        if (depth > 0 && (r >> 20) % 4 == 0) {
            put(f, 7, r * 6364136223846793005ULL + 1442695040888963407ULL, depth - 1);
        }
        c->fifo.run(id, us);
        ++c->results[who];
        c->exe[who].fetch_add(1, std::memory_order_relaxed);
        c->fifo.done();
    };
    c->fifo.log.add(SUB_BEGIN, id);
    switch ((r >> 32) % 4) {
        case 0:
            f.q->async(std::make_shared<FnOp>(body));
            break;
        case 1: {
            const xd::queue plain(*f.q);
            plain.async(body);
            break;
        }
        case 2:
            if (f.g) {
                f.g->async(body, *f.q);
                break;
            }
            f.q->async(body);
            break;
        default:
            f.q->async(body);
            break;
    }
    c->fifo.log.add(SUB_END, id);
    c->sub[who].fetch_add(1, std::memory_order_release);
}

// waits for everything and checks what may be expected by then
void
wait_all(const Fixture& f, const char* what)
{
    long before[8];
    for (int i = 0; i < 7; ++i) {
        before[i] = f.c->sub[i].load(std::memory_order_acquire);
    }
    f.c->fifo.log.add(CALL);
    f.q->wait_for_all();
    f.c->fifo.log.add(RET);
    for (int i = 0; i < 7; ++i) {
        const long now = f.c->exe[i].load(std::memory_order_relaxed);
        if (now < before[i]) {
            violation("wqueue:early", str("wait_for_all() returned with ", now, " of ", before[i], " operations executed (", what, "): ", f.c->fifo.log.tail()));
        }
    }
    stat("waits");
}

void
finish(const Fixture& f, const Inner& in)
{
    const auto c = f.c;
    must([c] { return c->fifo.executed.load(std::memory_order_acquire) >= c->fifo.submitted.load(); }, "all operations of a waitable queue to execute", [c, in] {
        return str(c->fifo.executed.load(), " of ", c->fifo.submitted.load(), " on ", in.kind, ": ", c->fifo.log.tail());
    });
    const long total = c->fifo.submitted.load();
    if (c->fifo.overlaps.load()) {
        violation("wqueue:overlap", str("two operations of a waitable queue were active at once: ", c->fifo.log.tail(80)));
    }
    if (c->fifo.plain != total) {
        violation("wqueue:lost-update", str("unsynchronised counter is ", c->fifo.plain, " after ", total, " operations"));
    }
    check_serial(c->fifo.log, total, "wqueue");
    stat("operations", total);
    trace(c->fifo.log, in.kind);
}

} // namespace

// submitters and waiters against a working queue
static void
order(Rng& rng, int)
{
    Noise noise(rng);
    const auto in = make_inner(rng, false);
    Fixture f;
    f.c = std::make_shared<Case>(40000);
    f.q = make_wq(in, rng);
    if (rng.chance(2)) {
        f.g = std::make_shared<xd::group>(make_group());
    }
    const int producers = rng.range(1, 3);
    const int waiters = rng.range(0, 3);
    const int depth = rng.range(0, 2);
    const auto seed = rng.next();
    std::atomic<int> producing{ producers };
    must_return(
      [&] {
          run_threads(producers + waiters, [&](int t) {
              Rng r(seed + static_cast<uint64_t>(t));
              if (t < producers) {
                  for (int i = 0, n = scaled(r.range(5, 60)); i < n; ++i) {
                      put(f, t, r.next(), depth);
                      if (r.chance(5)) {
                          if (r.chance(2)) {
                              f.q->wait_for_one();
                          } else {
                              wait_all(f, in.kind);
                          }
                      }
                      jitter(r, 80);
                  }
                  --producing;
                  return;
              }
              while (producing > 0) {
                  if (r.chance(2)) {
                      f.q->wait_for_one();
                  } else {
                      wait_all(f, in.kind);
                  }
                  jitter(r, 200);
              }
          });
          wait_all(f, in.kind);
      },
      "waiting for a waitable queue",
      [&] { return str(in.kind, ": ", f.c->fifo.log.tail()); });
    // whatever was submitted from within operations
    finish(f, in);
}

// the underlying queue executes nothing, the waiting threads have to
static void
starving(Rng& rng, int)
{
    const auto keep = std::make_shared<Inner>(make_inner(rng, true));
    Inner& in = *keep;
    Fixture f;
    f.c = std::make_shared<Case>(20000);
    f.q = make_wq(in, rng);
    const int depth = rng.range(0, 2);
    const int rounds = rng.range(1, 4);
    for (int round = 0; round < rounds; ++round) {
        const int threads = rng.range(1, 4);
        const auto seed = rng.next();
        const bool ones = rng.chance(3);
        must_return(
          [&] {
              run_threads(threads, [&](int t) {
                  Rng r(seed + static_cast<uint64_t>(t));
                  const int n = scaled(r.range(0, 20));
                  for (int i = 0; i < n; ++i) {
                      put(f, t, r.next(), ones ? 0 : depth);
                      if (r.chance(8)) {
                          f.q->wait_for_one();
                      }
                  }
                  if (!ones) {
                      wait_all(f, in.kind);
                  }
              });
              // one at a time, until nothing is left to wait for
              if (ones) {
                  for (;;) {
                      const long before = f.c->fifo.executed;
                      const long all = f.c->fifo.submitted;
                      f.q->wait_for_one();
                      const long after = f.c->fifo.executed;
                      if (0 == after && all > 0) {
                          violation("wqueue:one-early", str("wait_for_one() returned with ", all, " operations queued but none executed"));
                      }
                      if (after >= all || after == before) {
                          // may report operations executed while waiting earlier
                          break;
                      }
                  }
              }
              wait_all(f, in.kind);
          },
          "waiting for a starving waitable queue",
          [&] { return str(in.kind, ": ", f.c->fifo.log.tail()); });
        if (f.c->fifo.executed != f.c->fifo.submitted) {
            violation("wqueue:early", str("wait_for_all() returned with ", f.c->fifo.executed.load(), " of ", f.c->fifo.submitted.load(), " operations executed, queue was ", in.kind));
        }
        must_return(
          [&] {
              // nothing left
              f.q->wait_for_all();
          },
          "waiting for an empty waitable queue");
    }
    if (0 != f.c->live) {
        violation("wqueue:not-released", str(f.c->live.load(), " operations executed by waiting were not released"));
    }
    const bool drop = rng.chance(2);
    const auto g = f.q;
    if (drop) {
        f.q.reset();
    } else if (rng.chance(2)) {
        put(f, 0, rng.next(), 0);
    }
    in.release();
    finish(f, in);
    f.q.reset();
    must([&] { return 0 == f.c->live; }, "operations to be released");
}

// a single completion per submission: as many waits for one return as there
// are operations, each after another one was executed
static void
one_by_one(Rng& rng, int)
{
    const bool starve = rng.chance(2);
    auto in = make_inner(rng, starve);
    Fixture f;
    f.c = std::make_shared<Case>(4000);
    f.q = make_wq(in, rng);
    const auto c = f.c;
    must_return(
      [&] {
          // nothing queued
          f.q->wait_for_one();
          f.q->wait_for_all();
          long waited = 0;
          for (int i = 0, n = scaled(rng.range(1, 40)); i < n; ++i) {
              const int burst = rng.range(1, 4);
              for (int k = 0; k < burst; ++k) {
                  put(f, 0, rng.next(), 0);
              }
              for (int k = 0; k < burst; ++k) {
                  f.q->wait_for_one();
                  ++waited;
                  const long executed = c->exe[0].load(std::memory_order_relaxed);
                  if (executed < waited) {
                      violation("wqueue:one-early", str("wait_for_one() returned for the ", waited, "th time but only ", executed, " operations were executed, queue was ", in.kind));
                  }
                  // published by whoever executed it
                  if (!starve) {
                      continue;
                  }
                  if (c->results[0] < waited) {
                      violation("wqueue:visibility", "the effects of an operation waited for are not visible");
                  }
              }
              jitter(rng, 100);
          }
      },
      "wait_for_one()",
      [&] { return str(in.kind, ": ", c->fifo.log.tail()); });
    in.release();
    finish(f, in);
}

// an executing operation is waited for, not executed again nor overtaken
static void
active_op(Rng& rng, int)
{
    const bool by_waiter = rng.chance(2);
    auto in = make_inner(rng, by_waiter);
    auto q = make_wq(in, rng);
    struct State
    {
        std::atomic<int> began{ 0 };
        std::atomic<bool> ended{ false };
        std::atomic<int> next{ 0 };
        Gate gate;
    };
    auto s = std::make_shared<State>();
    q->async([s] {
        ++s->began;
        s->gate.pass();
        sleep_us(300);
        s->ended = true;
    });
    const int more = rng.range(0, 3);
    for (int i = 0; i < more; ++i) {
        q->async([s] {
            if (!s->ended) {
                violation("wqueue:overlap", "an operation began before its predecessor ended");
            }
            ++s->next;
        });
    }
    std::thread helper;
    if (by_waiter) {
        helper = std::thread([q] { q->wait_for_one(); });
    }
    must([s] { return s->began > 0; }, "the first operation of a waitable queue");
    const int waiters = rng.range(1, 3);
    std::atomic<int> returned{ 0 };
    std::vector<std::thread> ts;
    for (int i = 0; i < waiters; ++i) {
        const bool all = rng.chance(2) || by_waiter;
        ts.emplace_back([&, all] {
            if (all) {
                q->wait_for_all();
                if (s->next < more) {
                    violation("wqueue:early", str("wait_for_all() returned with ", s->next.load(), " of ", more, " pending operations executed"));
                }
            } else {
                q->wait_for_one();
            }
            if (!s->ended) {
                violation("wqueue:early", "waiting returned while the only operation begun so far was executing");
            }
            ++returned;
        });
    }
    sleep_us(rng.range(0, 3000));
    if (returned > 0) {
        violation("wqueue:early", "waiting returned while the only operation begun so far was executing");
    }
    s->gate.open();
    must([&] { return returned == waiters; }, "waiting for an executing operation of a waitable queue", [&] { return in.kind; });
    for (auto& t : ts) {
        t.join();
    }
    if (helper.joinable()) {
        helper.join();
    }
    must_return([&] { q->wait_for_all(); }, "wait_for_all()");
    if (1 != s->began || more != s->next) {
        violation("wqueue:count", str("executed ", s->began.load(), " and ", s->next.load(), " times instead of 1 and ", more));
    }
    in.release();
    stat("waits", waiters);
    trace_hash(static_cast<uint64_t>(waiters * 1000 + more * 10 + by_waiter) ^ static_cast<uint64_t>(in.kind[0]) << 32 ^ static_cast<uint64_t>(in.kind[2]) << 40);
}

// waiting from within operations of the pool the queue depends on
static void
in_pool(Rng& rng, int)
{
    const int n = rng.range(1, 12);
    const auto done = std::make_shared<std::atomic<int>>(0);
    std::vector<Fixture> fs;
    std::vector<Inner> ins;
    for (int i = 0; i < n; ++i) {
        Fixture f;
        f.c = std::make_shared<Case>(3000);
        const auto in = make_inner(rng, false);
        f.q = make_wq(in, rng);
        ins.push_back(in);
        fs.push_back(f);
    }
    auto all = std::make_shared<std::vector<Fixture>>(fs);
    auto q = parallel("vh.callers", prio(rng));
    for (int i = 0; i < n; ++i) {
        const auto seed = rng.next();
        q.async([=] {
            Rng r(seed);
            const auto& f = (*all)[static_cast<size_t>(i)];
            for (int k = 0, m = r.range(1, 12); k < m; ++k) {
                put(f, 0, r.next(), 1);
                if (r.chance(2)) {
                    wait_all(f, "from within the pool");
                } else {
                    f.q->wait_for_one();
                }
            }
            wait_all(f, "from within the pool");
            ++*done;
        });
    }
    must([=] { return *done == n; }, "waiting for waitable queues from within the pool", [=] { return str(done->load(), " of ", n); });
    for (int i = 0; i < n; ++i) {
        finish(fs[static_cast<size_t>(i)], ins[static_cast<size_t>(i)]);
    }
}

// apply and after follow the rules of queues
static void
apply_after(Rng& rng, int)
{
    Noise noise(rng);
    const bool starve = rng.chance(3);
    auto in = make_inner(rng, starve);
    auto q = make_wq(in, rng);
    struct State
    {
        std::atomic<int> active{ 0 };
        std::atomic<long> executed{ 0 };
        std::atomic<long> live{ 0 };
        long plain = 0;
        void enter(const char* what)
        {
            if (0 != active.fetch_add(1, std::memory_order_relaxed)) {
                violation("wqueue:overlap", str(what, " overlapped with another operation"));
            }
            ++plain;
        }
        void leave()
        {
            active.fetch_sub(1, std::memory_order_relaxed);
            ++executed;
        }
    };
    auto s = std::make_shared<State>();
    long expected = 0;
    struct Item
    {
        uint64_t called = 0;
        long delay = 0;
        std::atomic<int> count{ 0 };
    };
    const int n = rng.range(0, 10);
    auto items = std::make_shared<std::vector<Item>>(static_cast<size_t>(n));
    Log log(4000);
    for (int i = 0; i < n; ++i) {
        auto& it = (*items)[static_cast<size_t>(i)];
        it.delay = static_cast<long>(rng.below(15));
        it.called = now_ns();
        Token token(&s->live);
        auto f = [=] {
            const auto at = now_ns();
            auto& me = (*items)[static_cast<size_t>(i)];
            s->enter("a delayed operation");
            if (!token.alive()) {
                violation("wqueue:released", "a delayed operation was executed after being released");
            }
            if (1 < ++me.count) {
                violation("wqueue:twice", "a delayed operation was executed more than once");
            }
            if (at < me.called + static_cast<uint64_t>(me.delay) * 1000000ULL) {
                violation("wqueue:delay", str("a delayed operation was executed ", (at - me.called) / 1000, "us after the call, requested was ", me.delay, "ms"));
            }
            s->leave();
        };
        q->after(ms(it.delay), f);
        log.add(SUB_BEGIN, i, it.delay);
        ++expected;
    }
    // what was submitted before and never waited for is of no matter to apply()
    const int before = rng.chance(2) ? rng.range(1, 60) : 0;
    for (int i = 0; i < before; ++i) {
        q->async([s] {
            s->enter("an operation");
            s->leave();
        });
    }
    expected += before;
    if (before && !starve && rng.chance(2)) {
        must([=] { return s->executed >= before; }, "operations of a waitable queue", [=] { return in.kind; });
    }
    const int callers = rng.range(0, 3);
    const auto seed = rng.next();
    std::atomic<long> applied{ 0 };
    if (callers) {
        must_return(
          [&] {
              run_threads(callers, [&](int t) {
                  Rng r(seed + static_cast<uint64_t>(t));
                  for (int k = 0; k < 3; ++k) {
                      const size_t times = r.below(20);
                      std::vector<int> hits(times, 0);
                      q->apply(times, [&](size_t i) {
                          s->enter("an iteration");
                          if (i >= times) {
                              violation("wqueue:apply", "index out of range");
                          } else {
                              ++hits[i];
                          }
                          s->leave();
                      });
                      applied += static_cast<long>(times);
                      for (size_t i = 0; i < times; ++i) {
                          if (1 != hits[i]) {
                              violation("wqueue:apply", str("apply() on a waitable queue returned with index ", i, " of ", times, " executed ", hits[i], " times"));
                              break;
                          }
                      }
                      log.add(CALL, t, static_cast<int64_t>(times));
                  }
              });
          },
          "apply() of a waitable queue",
          [&] { return in.kind; });
    }
    expected += applied;
    if (!starve) {
        if (rng.chance(2)) {
            q.reset();
        }
        must([=] { return s->executed >= expected; }, "delayed operations of a waitable queue", [=] { return str(s->executed.load(), " of ", expected, " on ", in.kind); });
    } else {
        // only waiting threads execute anything
        must(
          [=] {
              q->wait_for_all();
              return s->executed >= expected;
          },
          "delayed operations of a starving waitable queue",
          [=] { return str(s->executed.load(), " of ", expected, " on ", in.kind); });
        in.release();
    }
    must([=] { return 0 == s->live; }, "delayed operations to be released");
    sleep_us(2000);
    if (s->executed != expected || s->plain != expected) {
        violation("wqueue:count", str(s->executed.load(), " executions, ", s->plain, " counted, of ", expected));
    }
    stat("operations", expected);
    trace(log, in.kind);
}

// the queue goes away with operations queued, or with its last operation
static void
lifetime(Rng& rng, int)
{
    Noise noise(rng);
    struct State
    {
        std::atomic<long> live{ 0 };
        std::atomic<long> executed{ 0 };
        std::atomic<int> active{ 0 };
    };
    auto s = std::make_shared<State>();
    long expected = 0;
    auto in = make_inner(rng, rng.chance(3));
    for (int round = 0; round < scaled(6); ++round) {
        auto q = make_wq(in, rng);
        const int n = rng.range(1, 12);
        for (int i = 0; i < n; ++i) {
            Token token(&s->live);
            const bool owner = rng.chance(3);
            // the operation may own the queue and use it while being destroyed
            struct Owner
            {
                std::shared_ptr<xd::waitable_queue> q;
                std::shared_ptr<State> s;
                bool last_words = false;
                ~Owner()
                {
                    if (last_words) {
                        auto state = s;
                        q->async([state] { ++state->executed; });
                    }
                }
            };
            auto o = std::make_shared<Owner>();
            o->q = owner ? q : nullptr;
            o->s = s;
            o->last_words = owner && rng.chance(2);
            expected += 1 + o->last_words;
            q->async([=] {
                if (!token.alive() || (owner && !o->q)) {
                    violation("wqueue:released", "an operation was executed after being released");
                }
                ++s->executed;
            });
        }
        switch (rng.below(3)) {
            case 0:
                must_return([&] { q->wait_for_one(); }, "wait_for_one()");
                break;
            case 1:
                must_return([&] { q->wait_for_all(); }, "wait_for_all()");
                break;
            default:
                break;
        }
    }
    in.release();
    must([=] { return s->executed >= expected; }, "all operations of waitable queues that were dropped", [=] { return str(s->executed.load(), " of ", expected, " on ", in.kind); });
    must([=] { return 0 == s->live; }, "all operations of waitable queues to be released", [=] { return str(s->live.load(), " left on ", in.kind); });
    if (s->executed != expected) {
        violation("wqueue:count", str(s->executed.load(), " executions of ", expected));
    }
    stat("operations", expected);
    trace_hash(static_cast<uint64_t>(expected) << 8 ^ static_cast<uint64_t>(in.kind[0]));
}

int
main(int argc, char** argv)
{
    return run_main(argc,
                    argv,
                    { { "order", order },
                      { "starving", starving },
                      { "one_by_one", one_by_one },
                      { "active_op", active_op },
                      { "in_pool", in_pool },
                      { "apply_after", apply_after },
                      { "lifetime", lifetime } });
}
