// Workloads and monitors for groups: wait() and notify().
#include "util.h"

#include <cmath>

using namespace vh;
namespace xd = xdispatch;

enum Kind
{
    SUB = 1,
    BEGIN,
    END,
    WAIT,
    WAIT_TRUE,
    WAIT_FALSE,
    NOTIFY,
    FIRED,
};

struct OpRec
{
    std::atomic<int> runs{ 0 };
    std::atomic<bool> done{ false };
    // written by the operation without synchronisation, read by whoever waited
    long payload = 0;
};

static long
value(int s, int i)
{
    return s * 100003L + i * 7L + 1;
}

struct GroupCase
{
    GroupCase(int submitters, int per, size_t cap)
      : log(cap)
      , submitters(submitters)
      , per(per)
      , ops(static_cast<size_t>(submitters * per))
      , submitted(static_cast<size_t>(submitters))
    {}
    Log log;
    const int submitters;
    const int per;
    std::vector<OpRec> ops;
    std::vector<std::atomic<int>> submitted;
    std::atomic<long> executed{ 0 };

    OpRec& at(int s, int i) { return ops[static_cast<size_t>(s * per + i)]; }
    long total() const { return static_cast<long>(submitters) * per; }

    void execute(int s, int i, long us)
    {
        auto& o = at(s, i);
        log.add(BEGIN, s, i);
        if (us > 0) {
            spin_us(us);
        } else if (us < 0) {
            sleep_us(-us);
        }
        if (0 != o.runs.fetch_add(1, std::memory_order_relaxed)) {
            violation("group-op-twice", str("operation ", s, "/", i, " of a group executed twice"));
        }
        o.payload = value(s, i);
        log.add(END, s, i);
        o.done.store(true, std::memory_order_relaxed);
        executed.fetch_add(1, std::memory_order_relaxed);
    }

    std::vector<int> snapshot()
    {
        std::vector<int> snap;
        for (auto& s : submitted) {
            snap.push_back(s.load(std::memory_order_acquire));
        }
        return snap;
    }

    // everything in the snapshot has to be complete and visible
    bool complete(const std::vector<int>& snap, const char* what)
    {
        for (int s = 0; s < submitters; ++s) {
            for (int i = 0; i < snap[static_cast<size_t>(s)]; ++i) {
                auto& o = at(s, i);
                if (!o.done.load(std::memory_order_relaxed)) {
                    violation(str(what, "-early"), str("operation ", s, "/", i, " submitted before was not complete yet: ", log.tail(30)));
                    return false;
                }
                if (o.payload != value(s, i)) {
                    violation(str(what, "-visibility"), str("effect of operation ", s, "/", i, " is not visible"));
                    return false;
                }
            }
        }
        return true;
    }
};

static bool
timed_wait(xd::group& g, long t, const char* what, double* took = nullptr)
{
    const auto start = now_ns();
    const bool ret = g.wait(ms(t));
    const double elapsed = static_cast<double>(now_ns() - start) / 1e6;
    if (took) {
        *took = elapsed;
    }
    if (!ret && t < 0) {
        violation(str(what, "-false-without-limit"), "wait(-1) of a group returned false");
    }
    if (!ret && t > 0 && elapsed < static_cast<double>(t) - 1.0) {
        violation(str(what, "-false-early"), str("wait(", t, " ms) of a group returned false after ", elapsed, " ms"));
    }
    return ret;
}

static long
cost(Rng& rng)
{
    switch (rng.below(5)) {
        case 0:
            return static_cast<long>(rng.below(60));
        case 1:
            return -static_cast<long>(rng.below(400));
        default:
            return 0;
    }
}

// waiters racing submitters
static void
wait_random(Rng& rng, int)
{
    const int submitters = rng.range(1, 4);
    const int per = scaled(rng.range(5, 90));
    auto c = std::make_shared<GroupCase>(submitters, per, static_cast<size_t>(submitters * per * 4 + 20000));
    Noise noise(rng);
    xd::group g = make_group();
    std::vector<xd::queue> queues;
    for (int i = 0, n = rng.range(1, 4); i < n; ++i) {
        bool s;
        queues.push_back(any_queue(rng, s));
    }
    const int waiters = rng.range(1, 4);
    std::atomic<int> open{ submitters };
    const auto seed = rng.next();
    std::atomic<long> trues{ 0 };
    std::atomic<long> falses{ 0 };
    must_return(
      [&] {
          run_threads(submitters + waiters, [&](int t) {
              Rng r(seed + static_cast<uint64_t>(t) * 77);
              if (t < submitters) {
                  xd::group mine = g;
                  for (int i = 0; i < per; ++i) {
                      const long us = cost(r);
                      auto& q = queues[r.below(queues.size())];
                      if (r.chance(3)) {
                          mine.async(std::make_shared<FnOp>([c, t, i, us] { c->execute(t, i, us); }), q);
                      } else {
                          mine.async([c, t, i, us] { c->execute(t, i, us); }, q);
                      }
                      c->log.add(SUB, t, i);
                      c->submitted[static_cast<size_t>(t)].store(i + 1, std::memory_order_release);
                      if (r.chance(3)) {
                          jitter(r, 300);
                      }
                      if (r.chance(12)) {
                          // a submitter waiting itself
                          auto snap = c->snapshot();
                          if (timed_wait(mine, r.chance(2) ? -1 : r.range(0, 10), "group-wait")) {
                              c->complete(snap, "group-wait");
                              ++trues;
                          }
                      }
                  }
                  --open;
              } else {
                  bool last = false;
                  while (!last && !any_violation()) {
                      last = 0 == open.load();
                      auto snap = c->snapshot();
                      long t_ms;
                      switch (r.below(5)) {
                          case 0:
                              t_ms = -1;
                              break;
                          case 1:
                              t_ms = 0;
                              break;
                          case 2:
                              t_ms = 600000;
                              break;
                          default:
                              t_ms = r.range(1, 12);
                              break;
                      }
                      if (last) {
                          t_ms = -1;
                      }
                      c->log.add(WAIT, t, t_ms);
                      const bool ret = timed_wait(g, t_ms, "group-wait");
                      c->log.add(ret ? WAIT_TRUE : WAIT_FALSE, t, t_ms);
                      ++(ret ? trues : falses);
                      if (ret) {
                          c->complete(snap, "group-wait");
                      }
                      jitter(r, 200);
                  }
              }
          });
      },
      "group.wait() with concurrent submissions",
      [&] { return str(c->executed.load(), " of ", c->total(), " executed; ", c->log.tail(30)); });
    must([&] { return c->executed.load() == c->total(); }, "operations of a group to execute");
    // quiet: everything is done, so this is reported without any timeout soon
    must([&] { return g.wait(ms(0)); }, "wait(0) on a group without anything pending to return true");
    c->complete(c->snapshot(), "group-wait");
    stat("group_ops", c->total());
    stat("waits_true", trues);
    stat("waits_false", falses);
    trace(c->log, "group");
}

// known points in time at which the group is and is not complete
static void
wait_gated(Rng& rng, int)
{
    Log log(4096);
    auto live = std::make_shared<std::atomic<long>>(0);
    xd::group g = make_group();
    if (!g.wait(ms(0)) || !g.wait(ms(-1))) {
        violation("group-empty-wait", "wait() on an empty group returned false");
    }
    const int stages = rng.range(1, 6);
    struct Stage
    {
        Gate gate;
        std::atomic<int> left{ 0 };
        long payload[8] = {};
        int count = 0;
    };
    std::vector<std::shared_ptr<Stage>> st;
    Rng r2(rng.next());
    auto check_pending = [&](const char* when) {
        bool pending = false;
        for (auto& s : st) {
            pending = pending || !s->gate.is_open();
        }
        const int n = rng.range(0, 3);
        for (int i = 0; i < n; ++i) {
            const long t = rng.chance(2) ? 0 : rng.range(1, 20);
            double took = 0;
            const bool ret = timed_wait(g, t, "group-wait", &took);
            log.add(ret ? WAIT_TRUE : WAIT_FALSE, t);
            if (pending && ret) {
                violation("group-wait-early", str("wait(", t, ") returned true ", when, " although an operation submitted before is still executing: ", log.tail()));
                return;
            }
        }
    };
    std::vector<xd::queue> keep;
    for (int k = 0; k < stages; ++k) {
        auto s = std::make_shared<Stage>();
        // threads of the pool are blocked by the application here, so only one
        // operation per stage and no more than the smallest pool has threads
        s->count = rng.chance(3) ? rng.range(1, 3) : 1;
        s->left = s->count;
        st.push_back(s);
        const bool blocks = k < 1;
        if (!blocks) {
            s->gate.open();
        }
        bool ser;
        auto q = any_queue(rng, ser);
        keep.push_back(q);
        for (int i = 0; i < s->count; ++i) {
            g.async(
              [s, i] {
                  if (0 == i) {
                      s->gate.pass();
                  }
                  s->payload[i] = i + 5;
                  --s->left;
              },
              q);
            log.add(SUB, k, i);
        }
        check_pending("after submitting");
        if (rng.chance(2)) {
            // an operation that completes by itself in between
            g.async([] {}, parallel("p"));
            sleep_us(static_cast<long>(rng.below(2000)));
            check_pending("after a short operation");
        }
    }
    std::atomic<int> returned{ 0 };
    const int waiters = rng.range(0, 4);
    std::vector<std::thread> ts;
    for (int i = 0; i < waiters; ++i) {
        const long t = rng.chance(2) ? -1 : 500000;
        ts.emplace_back([&, t] {
            const bool ret = timed_wait(g, t, "group-wait");
            for (auto& s : st) {
                if (0 != s->left.load()) {
                    violation("group-wait-early", str("wait(", t, ") returned ", ret, " while an operation is still executing"));
                }
                for (int k = 0; k < s->count; ++k) {
                    if (s->payload[k] != k + 5) {
                        violation("group-wait-visibility", "effects of an operation are not visible after wait()");
                    }
                }
            }
            if (!ret) {
                violation("group-wait-false", str("wait(", t, ") returned false although everything completed"));
            }
            ++returned;
        });
    }
    sleep_us(static_cast<long>(rng.below(5000)));
    if (rng.chance(2)) {
        check_pending("while others are waiting");
    }
    if (returned != 0) {
        violation("group-wait-early", "wait() returned before the gate was opened");
    }
    for (auto& s : st) {
        s->gate.open();
    }
    must([&] { return returned.load() == waiters; }, "concurrent calls to group.wait() to return once all operations completed");
    for (auto& t : ts) {
        t.join();
    }
    must_return(
      [&] {
          if (!timed_wait(g, 400000, "group-wait")) {
              violation("group-wait-false", "wait() returned false although everything completed");
          }
      },
      "group.wait() after earlier ones timed out");
    for (auto& s : st) {
        if (0 != s->left.load()) {
            violation("group-wait-early", "wait() returned while an operation is still executing");
        }
    }
    must([&] { return g.wait(ms(0)); }, "wait(0) on a group without anything pending to return true");
    stat("gated_groups");
    trace(log, "gated");
}

// waiting from within operations, more of them than the pool has threads
static void
wait_in_pool(Rng& rng, int)
{
    const int outer = scaled(rng.range(2, 24));
    const int depth = rng.range(1, 3);
    auto log = std::make_shared<Log>(static_cast<size_t>(outer * 400 + 1000));
    auto finished = std::make_shared<std::atomic<int>>(0);
    auto seed = rng.next();
    std::function<void(int, int, uint64_t)> nest = [&, log](int id, int d, uint64_t s) {
        Rng r(s);
        xd::group g = make_group();
        const int n = r.range(1, 3);
        auto count = std::make_shared<std::atomic<int>>(0);
        auto sum = std::make_shared<std::vector<long>>(static_cast<size_t>(n), 0);
        bool ser;
        auto q = any_queue(r, ser);
        for (int i = 0; i < n; ++i) {
            const auto s2 = r.next();
            g.async(
              [&nest, log, count, sum, i, d, id, s2] {
                  if (d > 1 && 0 == i) {
                      nest(id, d - 1, s2);
                  }
                  (*sum)[static_cast<size_t>(i)] = i + 1;
                  ++*count;
                  log->add(END, id, d);
              },
              q);
        }
        const auto t = r.chance(2) ? -1 : 500000;
        log->add(WAIT, id, d);
        if (!timed_wait(g, t, "group-wait")) {
            violation("group-wait-false", "wait() within an operation returned false although everything completed");
        }
        log->add(WAIT_TRUE, id, d);
        if (*count != n) {
            violation("group-wait-early", "wait() within an operation returned early");
        }
        for (int i = 0; i < n; ++i) {
            if ((*sum)[static_cast<size_t>(i)] != i + 1) {
                violation("group-wait-visibility", "effects of an operation are not visible after wait()");
            }
        }
    };
    std::vector<xd::queue> queues;
    for (int i = 0, n = rng.range(1, 4); i < n; ++i) {
        bool ser;
        queues.push_back(any_queue(rng, ser));
    }
    for (int i = 0; i < outer; ++i) {
        const auto s2 = seed + static_cast<uint64_t>(i) * 131;
        queues[rng.below(queues.size())].async([&nest, finished, i, depth, s2] {
            nest(i, depth, s2);
            ++*finished;
        });
    }
    must([&] { return *finished == outer; }, "group.wait() within operations to return", [&] { return str(finished->load(), " of ", outer, " returned; ", log->tail()); });
    stat("waits_in_operations", outer);
    trace(*log, "wait in pool");
}

// polling and timed-out waits must not accumulate anything
static void
wait_poll(Rng& rng, int)
{
    xd::group g = make_group();
    auto gate = std::make_shared<Gate>();
    auto q = serial("poll");
    std::atomic<int> done{ 0 };
    const bool mixed = rng.chance(2);
    g.async([gate] { gate->pass(); }, q);
    for (int i = 0; i < 200; ++i) {
        if (g.wait(ms(0))) {
            violation("group-wait-early", "wait(0) returned true while an operation is blocked");
        }
    }
    sleep_us(20000);
    const auto blocks = live_blocks();
    const auto bytes = live_bytes();
    const int n = scaled(mixed ? 3000 : 6000);
    int submitted = 0;
    for (int i = 0; i < n; ++i) {
        if (g.wait(ms(0))) {
            violation("group-wait-early", "wait(0) returned true while an operation is blocked");
            break;
        }
        if (mixed) {
            g.async([&done] { ++done; }, q);
            ++submitted;
        }
    }
    if (!mixed && blocks && (live_blocks() > blocks + 300 || live_bytes() > bytes + 300000)) {
        violation("group-wait-growth",
                  str(n, " calls of wait(0) left ", live_blocks() - blocks, " blocks and ", live_bytes() - bytes, " bytes allocated"));
    }
    const auto before = now_ns();
    if (g.wait(ms(30))) {
        violation("group-wait-early", "wait(30) returned true while an operation is blocked");
    }
    const auto took = static_cast<long>((now_ns() - before) / 1000000);
    gate->open();
    must_return([&] { g.wait(ms(-1)); }, "group.wait() after polling");
    if (done != submitted) {
        violation("group-wait-early", str("wait() returned after ", done.load(), " of ", submitted, " operations"));
    }
    // a timeout is a single timeout however often it was waited before
    if (took > 5000) {
        violation("group-wait-late", str("wait(30 ms) took ", took, " ms after polling"));
    }
    // rounds of submit and wait
    const int rounds = scaled(150);
    long ref_blocks = 0;
    long ref_bytes = 0;
    for (int k = 0; k < rounds; ++k) {
        for (int i = 0; i < 3; ++i) {
            g.async([&done] { ++done; }, q);
            ++submitted;
        }
        must_return([&] { g.wait(ms(k % 2 ? -1 : 500000)); }, "group.wait() in a round");
        if (done != submitted) {
            violation("group-wait-early", str("wait() returned after ", done.load(), " of ", submitted, " operations"));
            break;
        }
        if (k == rounds / 3) {
            ref_blocks = live_blocks();
            ref_bytes = live_bytes();
        }
    }
    // operations may still be about to be released
    if (ref_blocks) {
        await([&] { return live_blocks() < ref_blocks + 80 && live_bytes() < ref_bytes + 60000; }, "memory", 1000, 3000);
        if (live_blocks() > ref_blocks + 80 || live_bytes() > ref_bytes + 60000) {
            violation("group-wait-growth", str("rounds of submit and wait left ", live_blocks() - ref_blocks, " blocks, ", live_bytes() - ref_bytes, " bytes"));
        }
    }
    stat("polls", n);
    trace_hash(static_cast<uint64_t>(n) * 31 + mixed);
}

// one thread submits and waits over and over while the operations are short:
// the completion and the next submission race for the internal state
static void
wait_pingpong(Rng& rng, int)
{
    const int n = scaled(600);
    xd::group g = make_group();
    bool ser;
    auto q = any_queue(rng, ser);
    auto q2 = parallel("b");
    Log log(static_cast<size_t>(n) * 8 + 100);
    auto done = std::make_shared<std::atomic<int>>(0);
    const int batch = rng.range(1, 4);
    auto r = std::make_shared<Rng>(rng.next());
    must_return(
      [&, done] {
          int total = 0;
          for (int k = 0; k < n && !any_violation(); ++k) {
              for (int i = 0; i < batch; ++i) {
                  const long us = static_cast<long>(r->below(3)) * 5;
                  g.async(
                    [done, us, &log, k] {
                        if (us) {
                            spin_us(us);
                        }
                        log.add(END, k);
                        ++*done;
                    },
                    r->chance(2) ? q : q2);
                  ++total;
                  if (r->chance(4)) {
                      spin_us(static_cast<long>(r->below(15)));
                  }
              }
              const long t = r->chance(3) ? 0 : r->chance(2) ? 1 : -1;
              const bool ret = timed_wait(g, t, "group-wait");
              log.add(ret ? WAIT_TRUE : WAIT_FALSE, k, t);
              if (ret && *done != total) {
                  violation("group-wait-early", str("wait(", t, ") returned true after ", done->load(), " of ", total, " operations: ", log.tail()));
              }
          }
      },
      "group.wait() in a loop");
    must_return([&] { g.wait(ms(-1)); }, "final group.wait()");
    stat("pingpong_waits", n);
    trace(log, "pingpong");
}

// ---- notify ---------------------------------------------------------------------
static void
notify_random(Rng& rng, int)
{
    const int submitters = rng.range(1, 3);
    const int per = scaled(rng.range(4, 40));
    auto c = std::make_shared<GroupCase>(submitters, per, static_cast<size_t>(submitters * per * 8 + 2000));
    Noise noise(rng);
    const auto seed = rng.next();
    auto fired = std::make_shared<std::atomic<int>>(0);
    auto registered = std::make_shared<std::atomic<int>>(0);
    auto active = std::make_shared<std::atomic<int>>(0);
    std::vector<xd::queue> queues;
    for (int i = 0, n = rng.range(1, 3); i < n; ++i) {
        bool s;
        queues.push_back(any_queue(rng, s));
    }
    bool tser = true;
    auto target = serial("target");
    auto other_target = any_queue(rng, tser);
    auto counts = std::make_shared<std::vector<std::atomic<int>>>(4096);
    auto live = std::make_shared<std::atomic<long>>(0);
    {
        xd::group g = make_group();
        run_threads(submitters, [&](int t) {
            Rng r(seed + static_cast<uint64_t>(t) * 77);
            for (int i = 0; i < per; ++i) {
                const long us = cost(r);
                g.async([c, t, i, us] { c->execute(t, i, us); }, queues[r.below(queues.size())]);
                c->log.add(SUB, t, i);
                c->submitted[static_cast<size_t>(t)].store(i + 1, std::memory_order_release);
                if (r.chance(4)) {
                    const int id = (*registered)++;
                    if (id >= 4096) {
                        continue;
                    }
                    auto snap = std::make_shared<std::vector<int>>(c->snapshot());
                    Token token(live.get());
                    const bool to_serial = r.chance(2);
                    auto f = [=] {
                        c->log.add(FIRED, id);
                        if (to_serial && 0 != (*active)++) {
                            violation("notify-overlap", "a notification executed concurrently with another operation of its serial queue");
                        }
                        if (!token.alive()) {
                            violation("notify-released", "state captured by a notification was released before it executed");
                        }
                        if (0 != (*counts)[static_cast<size_t>(id)]++) {
                            violation("notify-twice", str("notification ", id, " executed twice"));
                        }
                        c->complete(*snap, "notify");
                        if (to_serial) {
                            --*active;
                        }
                        ++*fired;
                    };
                    const auto& q = to_serial ? target : other_target;
                    c->log.add(NOTIFY, id);
                    if (r.chance(2)) {
                        g.notify(f, q);
                    } else {
                        g.notify(std::make_shared<FnOp>(f), q);
                    }
                }
                if (r.chance(5)) {
                    // traffic on the target queue
                    target.async([active] {
                        if (0 != (*active)++) {
                            violation("notify-overlap", "an operation of a serial queue overlapped with a notification");
                        }
                        --*active;
                    });
                }
            }
        });
        // and drop the group right away
    }
    must([&] { return *fired == std::min(4096, registered->load()); },
         "notifications of a group to fire",
         [&] { return str(fired->load(), " of ", registered->load(), " fired, ", c->executed.load(), " of ", c->total(), " operations executed; ", c->log.tail()); });
    must([&] { return 0 == *live; }, "operations passed to notify() to be released");
    for (int i = 0; i < registered->load() && i < 4096; ++i) {
        if ((*counts)[static_cast<size_t>(i)] != 1) {
            violation("notify-count", str("notification ", i, " executed ", (*counts)[static_cast<size_t>(i)].load(), " times"));
        }
    }
    stat("notifications", registered->load());
    trace(c->log, "notify");
}

static void
notify_gated(Rng& rng, int)
{
    Log log(1024);
    auto gate = std::make_shared<Gate>();
    auto qgate = std::make_shared<Gate>();
    auto opdone = std::make_shared<std::atomic<int>>(0);
    auto fired = std::make_shared<std::atomic<int>>(0);
    auto late = std::make_shared<std::atomic<int>>(0);
    bool ser;
    auto q = any_queue(rng, ser);
    auto target = serial("target");
    const bool block_target = rng.chance(2);
    const int n = rng.range(1, 12);
    const int extra = rng.range(0, 5);
    auto g = std::make_shared<xd::group>(make_group());
    // the smallest pool has two threads to be blocked by the application
    const bool from_op = !block_target && rng.chance(3);

    // an empty group fires right away
    std::atomic<int> immediate{ 0 };
    g->notify([&immediate] { ++immediate; }, target);
    must([&] { return 1 == immediate; }, "notify() of an empty group to fire immediately");

    g->async(
      [gate, opdone] {
          gate->pass();
          ++*opdone;
      },
      q);
    auto quick = parallel("quick");
    for (int i = 0; i < extra; ++i) {
        g->async([opdone] { ++*opdone; }, quick);
        if (rng.chance(2)) {
            sleep_us(static_cast<long>(rng.below(1000)));
        }
    }
    if (block_target) {
        target.async([qgate] { qgate->pass(); });
    }
    auto reg = [=, &log] {
        for (int i = 0; i < n; ++i) {
            g->notify(
              [=] {
                  if (*opdone != 1 + extra) {
                      violation("notify-early", str("a notification executed after ", opdone->load(), " of ", 1 + extra, " operations"));
                  }
                  ++*fired;
              },
              target);
        }
    };
    // does not block, the operation is blocked until the gate gets opened
    if (from_op) {
        std::atomic<bool> r{ false };
        serial("reg").async([&] {
            reg();
            r = true;
        });
        must([&] { return r.load(); }, "notify() called within an operation to return without waiting");
    } else {
        must_return(reg, "notify() to return without waiting for the operations");
    }
    if (rng.chance(2)) {
        // the group stays usable: what is added later does not hold up the notification
        auto g2 = *g;
        g2.async([late] { ++*late; }, quick);
        g2.notify([late] { ++*late; }, quick);
    }
    if (!block_target && rng.chance(2)) {
        // neither does a pending notification hold up its queue or other ones
        auto others = std::make_shared<std::atomic<int>>(0);
        const int more = rng.range(1, 30);
        const bool in_group = rng.chance(2);
        auto g2 = *g;
        for (int i = 0; i < more; ++i) {
            auto f = [others] { ++*others; };
            const auto& to = rng.chance(3) ? quick : target;
            in_group ? g2.async(f, to) : to.async(f);
        }
        must([=] { return *others == more; }, "other operations of the queue of a pending notification", [=] { return str(others->load(), " of ", more); });
        stat("operations_passing_notifications", more);
    }
    const bool drop = rng.chance(2);
    sleep_us(static_cast<long>(rng.below(30000)));
    if (0 != *fired) {
        violation("notify-early", str(fired->load(), " notifications executed while an operation of the group is blocked"));
    }
    if (!drop) {
        if (g->wait(ms(rng.range(0, 10)))) {
            violation("group-wait-early", "wait() returned true while an operation is blocked");
        }
    }
    gate->open();
    if (block_target) {
        must([&] { return *opdone == 1 + extra; }, "operations");
        sleep_us(static_cast<long>(rng.below(20000)));
        if (0 != *fired) {
            violation("notify-queue", "a notification executed although its serial queue is blocked");
        }
        qgate->open();
    }
    must([&] { return *fired == n; }, "notifications to fire", [&] { return str(fired->load(), " of ", n); });
    // nothing fires again
    sleep_us(static_cast<long>(rng.below(10000)));
    if (!drop) {
        must_return([&] { g->wait(ms(-1)); }, "wait() after notify()");
        std::atomic<int> again{ 0 };
        g->async([&again] { ++again; }, quick);
        g->notify(
          [&again] {
              if (again != 1) {
                  violation("notify-early", "the notification of a reused group executed early or twice");
              }
              ++again;
          },
          target);
        must([&] { return again == 2; }, "notification of a reused group");
    }
    std::atomic<bool> flush{ false };
    target.async([&flush] { flush = true; });
    must([&] { return flush.load(); }, "target queue");
    if (*fired != n) {
        violation("notify-twice", str(fired->load(), " executions of ", n, " notifications"));
    }
    log.add(FIRED, n, extra);
    stat("gated_notifications", n);
    trace_hash(static_cast<uint64_t>(n) * 1000 + static_cast<uint64_t>(extra) * 100 + block_target * 4 + drop * 2 + from_op + rng.next() % 3 * 100000);
}

// exact histories: one thread submits, waits, notifies and decides when which
// operation ends
static void
history(Rng& rng, int)
{
    Log log(8192);
    struct Op
    {
        Gate gate;
        std::atomic<bool> done{ false };
        long payload = 0;
    };
    struct Note
    {
        size_t ops = 0;
        std::atomic<int> fired{ 0 };
    };
    auto g = std::make_shared<xd::group>(make_group());
    auto ops = std::make_shared<std::vector<std::shared_ptr<Op>>>();
    std::vector<std::shared_ptr<Note>> notes;
    // executes one after the other so at most one thread is blocked by the
    // operations
    auto gated = serial("gated");
    bool ser;
    auto other = any_queue(rng, ser);
    size_t opened = 0;
    Noise noise(rng);
    const int steps = scaled(rng.range(30, 120));
    auto pending = [&] { return opened < ops->size(); };
    auto open_one = [&] {
        if (!pending()) {
            return;
        }
        auto o = (*ops)[opened++];
        o->gate.open();
        log.add(END, static_cast<int64_t>(opened));
        if (rng.chance(2)) {
            must([=] { return o->done.load(); }, "an operation of a group");
        }
    };
    auto check_notes = [&] {
        for (auto& n : notes) {
            if (n->ops > opened && 0 != n->fired) {
                violation("notify-early", str("a notification for ", n->ops, " operations executed with ", opened, " of them permitted to end: ", log.tail()));
            }
        }
    };
    for (int i = 0; i < steps && !any_violation(); ++i) {
        switch (rng.below(8)) {
            case 0:
            case 1:
                if (ops->size() - opened < 6) {
                    auto o = std::make_shared<Op>();
                    ops->push_back(o);
                    const long v = static_cast<long>(ops->size()) + 17;
                    g->async(
                      [o, v] {
                          o->gate.pass();
                          o->payload = v;
                          o->done.store(true, std::memory_order_relaxed);
                      },
                      gated);
                    log.add(SUB, static_cast<int64_t>(ops->size()));
                }
                break;
            case 2:
                for (int k = rng.range(1, 4); k > 0; --k) {
                    g->async([] {}, other);
                }
                break;
            case 3:
                if (notes.size() < 40) {
                    auto n = std::make_shared<Note>();
                    n->ops = ops->size();
                    notes.push_back(n);
                    auto all = std::make_shared<std::vector<std::shared_ptr<Op>>>(*ops);
                    g->notify(
                      [n, all] {
                          for (auto& o : *all) {
                              if (!o->done.load(std::memory_order_relaxed)) {
                                  violation("notify-early", str("a notification executed before one of ", n->ops, " operations of its group was complete"));
                                  break;
                              }
                          }
                          ++n->fired;
                      },
                      other);
                    log.add(NOTIFY, static_cast<int64_t>(notes.size()), static_cast<int64_t>(n->ops));
                }
                break;
            case 4:
            case 5: {
                const bool was = pending();
                const long t = was ? (rng.chance(2) ? 0 : rng.range(1, 6)) : (rng.chance(2) ? -1 : 600000);
                const bool ret = timed_wait(*g, t, "group-wait");
                log.add(ret ? WAIT_TRUE : WAIT_FALSE, t);
                if (was && ret) {
                    violation("group-wait-early", str("wait(", t, ") returned true although ", ops->size() - opened, " operations submitted before are still executing: ", log.tail()));
                }
                if (!was && !ret) {
                    violation("group-wait-false", str("wait(", t, ") returned false although everything may end: ", log.tail()));
                }
                if (!was) {
                    for (size_t k = 0; k < ops->size(); ++k) {
                        if ((*ops)[k]->payload != static_cast<long>(k) + 18) {
                            violation("group-wait-visibility", "effects of an operation are not visible after wait()");
                            break;
                        }
                    }
                }
                break;
            }
            case 6:
                open_one();
                break;
            default:
                if (rng.chance(2)) {
                    sleep_us(static_cast<long>(rng.below(3000)));
                } else if (rng.chance(3)) {
                    auto copy = std::make_shared<xd::group>(*g);
                    g.swap(copy);
                }
                break;
        }
        check_notes();
    }
    while (pending()) {
        open_one();
        check_notes();
    }
    if (rng.chance(2)) {
        must_return([&] { g->wait(ms(-1)); }, "wait() with everything permitted to end");
        for (auto& o : *ops) {
            if (!o->done.load(std::memory_order_relaxed)) {
                violation("group-wait-early", "wait(-1) returned before an operation was complete");
                break;
            }
        }
    }
    g.reset();
    for (auto& n : notes) {
        must([=] { return 1 <= n->fired; }, "notifications to fire");
    }
    sleep_us(1000);
    for (auto& n : notes) {
        if (1 != n->fired) {
            violation("notify-twice", str(n->fired.load(), " executions of a notification"));
        }
    }
    stat("history_ops", static_cast<long>(ops->size()));
    stat("history_notifications", static_cast<long>(notes.size()));
    trace(log, "history");
}

int
main(int argc, char** argv)
{
    return run_main(argc,
                    argv,
                    { { "wait_random", wait_random },
                      { "wait_gated", wait_gated },
                      { "wait_in_pool", wait_in_pool },
                      { "wait_poll", wait_poll },
                      { "wait_pingpong", wait_pingpong },
                      { "history", history },
                      { "notify_random", notify_random },
                      { "notify_gated", notify_gated } });
}
