// Workloads and monitors for timers: rate, suspend/resume, reconfiguration and cancel.
#include "util.h"

using namespace vh;
namespace xd = xdispatch;

enum Kind
{
    RESUME = 1,
    RESUMED,
    SUSPEND,
    SUSPENDED,
    FIRE,
    FIRE_END,
    CANCEL,
    CANCELLED,
    SET,
};

static const uint64_t kMs = 1000000ULL;
// granularity of the clocks involved
static const uint64_t kSlack = 300000ULL;

// everything observed about a single timer
struct Watch
{
    explicit Watch(size_t cap = 8192)
      : log(cap)
    {}
    Log log;
    std::atomic<int> active{ 0 };
    std::atomic<int> fired{ 0 };
    std::atomic<bool> forbidden{ false };
    std::atomic<long> live{ 0 };
    // unsynchronised, ordered by the non overlapping firings only
    long plain = 0;
    std::atomic<int> limit{ 1 << 30 };

    void fire(long us, int id = 0)
    {
        if (fired.load() >= limit.load()) {
            violation("timer-extra-firing", str("firing ", fired.load() + 1, " of a timer of which at most ", limit.load(), " were possible: ", log.tail()));
        }
        log.add(FIRE, fired.load(), id);
        if (forbidden) {
            violation("timer-after-cancel", str("the handler was started after cancel() returned: ", log.tail()));
        }
        if (0 != active++) {
            violation("timer-overlap", str("two firings of the same timer overlapped: ", log.tail()));
        }
        const auto before = plain;
        if (us > 0) {
            spin_us(us);
        } else if (us < 0) {
            sleep_us(-us);
        }
        plain = before + 1;
        if (forbidden) {
            violation("timer-active-after-cancel", str("the handler was executing after cancel() returned: ", log.tail()));
        }
        --active;
        log.add(FIRE_END, fired.load(), id);
        ++fired;
    }
};
using WatchPtr = std::shared_ptr<Watch>;

static long
work(Rng& rng)
{
    switch (rng.below(4)) {
        case 0:
            return static_cast<long>(rng.below(300));
        case 1:
            return -static_cast<long>(rng.below(2500));
        default:
            return 0;
    }
}

// lower bounds on the time of every firing between resume and suspend
//   extra: number of firings which may still be due from before
static void
check_rate(const Watch& w, uint64_t delay, uint64_t interval, int extra)
{
    uint64_t resume = 0;
    int k = 0;
    uint64_t last = 0;
    bool first_resume = true;
    int allowed = 0;
    for (size_t i = 0; i < w.log.size(); ++i) {
        const auto& r = w.log[i];
        if (RESUME == r.kind) {
            resume = r.ts;
            k = 0;
            allowed = first_resume ? 0 : extra;
            first_resume = false;
            last = 0;
        } else if (FIRE == r.kind && resume) {
            const int n = std::max(0, k - allowed);
            const bool due_before = k < allowed;
            const auto earliest = resume + delay * kMs + static_cast<uint64_t>(n) * interval * kMs;
            if (!due_before && r.ts + kSlack < earliest) {
                violation("timer-early",
                          str("firing ", k, " after resume happened ", (earliest - r.ts) / 1000, " us too early (delay ", delay, " ms, interval ", interval, " ms): ", w.log.around(i, 14)));
                return;
            }
            if (last && k > allowed && r.ts - last + kSlack < interval * kMs) {
                violation("timer-rate",
                          str("firings ", k - 1, " and ", k, " only ", (r.ts - last) / 1000, " us apart (interval ", interval, " ms): ", w.log.around(i, 14)));
                return;
            }
            last = r.ts;
            ++k;
        }
    }
}

// several timers with random parameters, resumed once
static void
fire(Rng& rng, int)
{
    Noise noise(rng);
    const int timers = rng.range(1, 5);
    struct One
    {
        WatchPtr w = std::make_shared<Watch>();
        std::unique_ptr<xd::timer> t;
        uint64_t delay = 0;
        uint64_t interval = 0;
        bool ser = false;
        std::shared_ptr<std::atomic<int>> busy;
    };
    std::vector<One> all(static_cast<size_t>(timers));
    bool shared_ser = false;
    auto shared = any_queue(rng, shared_ser);
    auto shared_busy = std::make_shared<std::atomic<int>>(0);
    for (auto& o : all) {
        o.delay = rng.chance(2) ? 0 : rng.below(25);
        o.interval = 1 + rng.below(12);
        xd::queue q = shared;
        o.ser = shared_ser;
        o.busy = shared_busy;
        if (rng.chance(2)) {
            q = any_queue(rng, o.ser);
            o.busy = std::make_shared<std::atomic<int>>(0);
        }
        o.t.reset(new xd::timer(make_timer(ms(static_cast<long>(o.interval)), q)));
        const auto us = work(rng);
        auto w = o.w;
        auto busy = o.busy;
        const bool ser = o.ser;
        auto f = [w, us, busy, ser] {
            if (ser && 0 != (*busy)++) {
                violation("timer-queue", "a firing overlapped with another operation of its serial queue");
            }
            w->fire(us);
            if (ser) {
                --*busy;
            }
        };
        if (rng.chance(2)) {
            o.t->handler(f);
        } else {
            o.t->handler(std::make_shared<FnOp>(f));
        }
        if (o.ser) {
            for (int i = 0; i < 5; ++i) {
                q.async([busy] {
                    if (0 != (*busy)++) {
                        violation("timer-queue", "an operation of a serial queue overlapped with a firing");
                    }
                    spin_us(50);
                    --*busy;
                });
            }
        }
    }
    for (auto& o : all) {
        o.w->log.add(RESUME);
        o.t->resume(ms(static_cast<long>(o.delay)));
        o.w->log.add(RESUMED);
    }
    const int want = scaled(rng.range(3, 12));
    for (auto& o : all) {
        must([&] { return o.w->fired >= want; }, "a running timer to keep firing", [&] { return str(o.w->fired.load(), " firings so far, interval ", o.interval, " ms: ", o.w->log.tail()); });
    }
    for (auto& o : all) {
        o.t->cancel();
        check_rate(*o.w, o.delay, o.interval, 0);
        stat("firings", o.w->fired);
        trace(o.w->log, "timer");
    }
}

// suspended timers stay silent, resumed ones continue at the single configured rate
static void
suspend_resume(Rng& rng, int)
{
    auto w = std::make_shared<Watch>();
    bool ser = false;
    auto q = any_queue(rng, ser);
    const uint64_t interval = 3 + rng.below(8);
    auto t = make_timer(ms(static_cast<long>(interval)), q);
    const auto us = rng.chance(2) ? 0 : work(rng);
    t.handler([w, us] { w->fire(us); });
    const int rounds = scaled(rng.range(2, 5));
    const uint64_t delay = rng.chance(2) ? 0 : rng.below(8);
    for (int k = 0; k < rounds && !any_violation(); ++k) {
        // flipping quickly must not leave anything behind
        const int flips = rng.chance(2) ? 0 : rng.range(1, 8);
        for (int i = 0; i < flips; ++i) {
            w->log.add(RESUME);
            t.resume(ms(static_cast<long>(delay)));
            w->log.add(RESUMED);
            jitter(rng, 1500);
            w->log.add(SUSPEND);
            t.suspend();
            w->log.add(SUSPENDED);
            jitter(rng, 300);
        }
        const bool nested = rng.chance(3);
        if (nested) {
            // balanced calls
            w->log.add(RESUME);
            t.resume(ms(static_cast<long>(delay)));
            t.resume(ms(0));
            t.suspend();
            t.suspend();
            w->log.add(SUSPENDED);
        }
        w->log.add(RESUME);
        t.resume(ms(static_cast<long>(delay)));
        w->log.add(RESUMED);
        if (nested) {
            t.resume(ms(0));
            t.suspend();
        }
        const int from = w->fired;
        const int want = rng.range(3, 9);
        must([&] { return w->fired >= from + want; }, "a resumed timer to keep firing", [&] { return w->log.tail(); });
        w->log.add(SUSPEND);
        t.suspend();
        w->log.add(SUSPENDED);
        // at most one that is due already
        const int begun = w->fired + w->active;
        w->limit = begun + 1;
        sleep_us(static_cast<long>(interval) * 1000 * rng.range(1, 3));
        w->limit = 1 << 30;
    }
    // the number of starts after the last suspend
    int late = 0;
    for (size_t i = w->log.size(); i-- > 0;) {
        if (SUSPENDED == w->log[i].kind) {
            break;
        }
        if (FIRE == w->log[i].kind) {
            ++late;
        }
    }
    if (late > 1) {
        violation("timer-suspended", str(late, " firings after suspend() returned: ", w->log.tail()));
    }
    t.cancel();
    // one due from before the suspend, another from a flip
    check_rate(*w, delay, interval, 2);
    stat("firings", w->fired);
    trace(w->log, "suspend/resume");
}

// suspending and resuming from several threads at once, every thread balanced
static void
concurrent_control(Rng& rng, int)
{
    auto w = std::make_shared<Watch>();
    bool ser = false;
    auto q = any_queue(rng, ser);
    const uint64_t interval = 2 + rng.below(6);
    auto t = make_timer(ms(static_cast<long>(interval)), q);
    t.handler([w] { w->fire(0); });
    const auto seed = rng.next();
    must_return(
      [&] {
          run_threads(rng.range(2, 4), [&](int n) {
              Rng r(seed + static_cast<uint64_t>(n) * 31);
              auto mine = t;
              for (int i = 0; i < scaled(30); ++i) {
                  mine.resume(ms(r.range(0, 3)));
                  jitter(r, 800);
                  mine.suspend();
                  jitter(r, 300);
              }
          });
      },
      "suspend() and resume() of a timer from several threads");
    w->log.add(SUSPENDED);
    const int begun = w->fired + w->active;
    w->limit = begun + 1;
    sleep_us(static_cast<long>(interval) * 3000);
    w->limit = 1 << 30;
    // still in order
    w->log.add(RESUME);
    t.resume(ms(0));
    const int from = w->fired;
    must([&] { return w->fired >= from + 6; }, "a resumed timer to keep firing", [&] { return w->log.tail(); });
    t.suspend();
    t.cancel();
    uint64_t last = 0;
    int k = 0;
    bool on = false;
    for (size_t i = 0; i < w->log.size(); ++i) {
        const auto& r = w->log[i];
        if (RESUME == r.kind) {
            on = true;
        } else if (on && FIRE == r.kind) {
            if (k > 1 && r.ts - last + kSlack < interval * kMs) {
                violation("timer-rate", str("firings only ", (r.ts - last) / 1000, " us apart (interval ", interval, " ms): ", w->log.around(i)));
                break;
            }
            last = r.ts;
            ++k;
        }
    }
    stat("firings", w->fired);
    trace(w->log, "concurrent");
}

static void
single_shot(Rng& rng, int)
{
    auto w = std::make_shared<Watch>();
    bool ser = false;
    auto q = any_queue(rng, ser);
    auto t = make_timer(ms(0), q);
    t.handler([w] { w->fire(0); });
    int expect = 0;
    for (int k = 0, n = scaled(rng.range(2, 6)); k < n && !any_violation(); ++k) {
        if (rng.chance(3)) {
            // not due for long, so nothing of it remains after suspend()
            t.resume(ms(600000));
            sleep_us(static_cast<long>(rng.below(500)));
            t.suspend();
        }
        const auto delay = rng.below(12);
        const auto start = now_ns();
        w->log.add(RESUME);
        ++expect;
        w->limit = expect;
        t.resume(ms(static_cast<long>(delay)));
        must([&] { return w->fired >= expect; }, "a timer without interval to fire", [&] { return str("firing ", expect, ": ", w->log.tail()); });
        const auto took = now_ns() - start;
        if (took + kSlack < delay * kMs) {
            violation("timer-early", str("a single shot timer fired after ", took / 1000, " us instead of ", delay, " ms"));
        }
        sleep_us(static_cast<long>(rng.below(15000)));
        if (w->fired != expect) {
            violation("timer-single-shot", str(w->fired.load(), " firings instead of ", expect, ": ", w->log.tail()));
        }
        t.suspend();
    }
    // becomes periodic
    t.interval(ms(4));
    w->limit = 1 << 30;
    const int from = w->fired;
    w->log.add(RESUME);
    t.resume(ms(0));
    must([&] { return w->fired >= from + 4; }, "a timer turned periodic to keep firing", [&] { return w->log.tail(); });
    t.cancel();
    stat("firings", w->fired);
    trace(w->log, "single shot");
}

// the target queue is not available for some time
static void
busy_queue(Rng& rng, int)
{
    auto w = std::make_shared<Watch>();
    auto gate = std::make_shared<Gate>();
    auto entered = std::make_shared<std::atomic<bool>>(false);
    auto q = serial("busy");
    const uint64_t interval = 2 + rng.below(6);
    auto t = make_timer(ms(static_cast<long>(interval)), q);
    t.handler([w] { w->fire(0); });
    auto block = [&] {
        gate->close();
        *entered = false;
        q.async([gate, entered] {
            *entered = true;
            gate->pass();
        });
        must([&] { return entered->load(); }, "operation of a serial queue");
    };
    for (int k = 0; k < 3 && !any_violation(); ++k) {
        block();
        const int from = w->fired;
        w->limit = from;
        w->log.add(RESUME);
        t.resume(ms(0));
        sleep_us(static_cast<long>(interval) * 1000 * rng.range(1, 4));
        const bool suspended = rng.chance(2);
        if (suspended) {
            w->log.add(SUSPEND);
            t.suspend();
            w->log.add(SUSPENDED);
            w->limit = from + 1;
        } else {
            w->limit = 1 << 30;
        }
        gate->open();
        if (suspended) {
            sleep_us(static_cast<long>(interval) * 3000);
        } else {
            must([&] { return w->fired >= from + 3; }, "a timer to fire once its queue is available again", [&] { return w->log.tail(); });
            w->log.add(SUSPEND);
            t.suspend();
            w->log.add(SUSPENDED);
        }
        // let what is due pass by
        std::atomic<bool> flushed{ false };
        sleep_us(static_cast<long>(interval) * 1000);
        q.async([&flushed] { flushed = true; });
        must([&] { return flushed.load(); }, "operation of a serial queue");
    }
    t.cancel();
    check_rate(*w, 0, interval, 1);
    stat("firings", w->fired);
    trace(w->log, "busy queue");
}

// handler, interval and state are changed while running, also by the handler
static void
reconfigure(Rng& rng, int)
{
    bool ser = false;
    auto q = any_queue(rng, ser);
    auto w = std::make_shared<Watch>();
    uint64_t interval = 1 + rng.below(4);
    auto t = std::make_shared<xd::timer>(make_timer(ms(static_cast<long>(interval)), q));
    std::atomic<long> live{ 0 };
    struct Set
    {
        std::atomic<bool> replaced{ false };
        std::atomic<int> after{ 0 };
        std::atomic<int> fired{ 0 };
    };
    std::shared_ptr<Set> prev;
    t->resume(ms(600000)); // not firing, has to be suspended again
    t->suspend();
    bool running = false;
    for (int k = 0, n = scaled(rng.range(2, 6)); k < n && !any_violation(); ++k) {
        auto s = std::make_shared<Set>();
        Token token(&live);
        auto f = [s, w, token, k] {
            if (!token.alive()) {
                violation("timer-handler-released", "the handler executed after it was released");
            }
            if (s->replaced && ++s->after > 1) {
                violation("timer-old-handler", str("a handler replaced before was started ", s->after.load(), " times"));
            }
            w->fire(0, k);
            ++s->fired;
        };
        w->log.add(SET, k);
        if (rng.chance(2)) {
            t->handler(f);
        } else {
            t->handler(std::make_shared<FnOp>(f));
        }
        if (prev) {
            prev->replaced = true;
        }
        prev = s;
        if (!running) {
            t->resume(ms(0));
            running = true;
        }
        must([&] { return s->fired > 2; }, "the changed handler of a timer to be used", [&] { return w->log.tail(); });
        if (rng.chance(2)) {
            interval = 1 + rng.below(9);
            t->interval(ms(static_cast<long>(interval)));
            w->log.add(SET, -1, static_cast<int64_t>(interval));
            const int from = w->fired;
            must([&] { return w->fired > from + 4; }, "a timer to keep firing after its interval was changed", [&] { return w->log.tail(); });
            uint64_t last = 0;
            int c = 0;
            bool on = false;
            for (size_t i = 0; i < w->log.size(); ++i) {
                const auto& r = w->log[i];
                if (SET == r.kind && -1 == r.a) {
                    on = true;
                    c = 0;
                } else if (on && FIRE == r.kind) {
                    if (i + 40 > w->log.size() && c > 2 && r.ts - last + kSlack < interval * kMs && [&] {
                            for (size_t j = i; j < w->log.size(); ++j) {
                                if (SET == w->log[j].kind && -1 == w->log[j].a) {
                                    return false;
                                }
                            }
                            return true;
                        }()) {
                        violation("timer-changed-interval", str("firings ", (r.ts - last) / 1000, " us apart after the interval was set to ", interval, " ms: ", w->log.around(i)));
                        break;
                    }
                    last = r.ts;
                    ++c;
                }
            }
        }
        if (rng.chance(2)) {
            // suspend from within the handler: that one is the last
            auto done = std::make_shared<std::atomic<int>>(0);
            const bool again = rng.chance(2);
            t->handler([done, t, w, again] {
                if ((*done)++ > (again ? 1 : 0)) {
                    violation("timer-self-suspend", "a timer continued to fire after its handler suspended it");
                }
                t->suspend();
                if (again && 1 == *done) {
                    t->resume(ms(1));
                }
            });
            prev->replaced = true;
            must([&] { return *done >= (again ? 2 : 1); }, "a handler suspending its timer", [&] { return w->log.tail(); });
            sleep_us(static_cast<long>(interval) * 2500);
            running = false;
            t->handler([] {});
        }
    }
    t->cancel();
    w->forbidden = true;
    t.reset();
    q = parallel("other");
    must([&] { return 0 == live; }, "handlers of a timer to be released");
    stat("firings", w->fired);
    trace(w->log, "reconfigure");
}

// timers do not occupy the threads of the pool
static void
many(Rng& rng, int)
{
    const int n = scaled(rng.range(10, 40));
    std::vector<WatchPtr> ws;
    std::vector<xd::timer> ts;
    std::vector<uint64_t> delays;
    for (int i = 0; i < n; ++i) {
        bool ser = false;
        auto q = any_queue(rng, ser);
        auto w = std::make_shared<Watch>(512);
        const auto interval = rng.chance(2) ? 600000 : 5 + static_cast<long>(rng.below(30));
        ts.push_back(make_timer(ms(interval), q));
        ts.back().handler([w] { w->fire(0); });
        ws.push_back(w);
        const auto delay = rng.below(20);
        w->log.add(RESUME);
        ts.back().resume(ms(static_cast<long>(delay)));
        delays.push_back(delay);
    }
    // pending ones that never fire
    std::vector<xd::timer> far;
    for (int i = 0; i < n / 2; ++i) {
        far.push_back(make_timer(ms(1), parallel("far")));
        far.back().handler([] { violation("timer-early", "a timer fired long before its delay"); });
        far.back().resume(ms(3600000));
    }
    for (auto& w : ws) {
        must([&] { return w->fired > 0; }, "all of many timers to fire");
    }
    std::atomic<int> ops{ 0 };
    for (int i = 0; i < 20; ++i) {
        parallel("ops").async([&ops] { ++ops; });
    }
    must([&] { return 20 == ops; }, "operations to execute next to many timers");
    for (auto& t : far) {
        t.cancel();
    }
    for (size_t i = 0; i < ts.size(); ++i) {
        ts[i].cancel();
        ws[i]->forbidden = true;
        stat("firings", ws[i]->fired);
    }
    trace(ws[0]->log, "many timers");
}

// how late at best
static void
latency(Rng& rng, int)
{
    const long interval = rng.range(20, 40);
    const long delay = rng.range(10, 40);
    double best_period = 1e9;
    double best_first = 1e9;
    for (int k = 0; k < 12; ++k) {
        auto w = std::make_shared<Watch>();
        bool ser = false;
        auto t = make_timer(ms(interval), any_queue(rng, ser));
        t.handler([w] { w->fire(0); });
        const auto start = now_ns();
        t.resume(ms(delay));
        must([&] { return w->fired >= 5; }, "a running timer to keep firing");
        t.cancel();
        uint64_t first = 0;
        uint64_t fifth = 0;
        int n = 0;
        for (size_t i = 0; i < w->log.size(); ++i) {
            if (FIRE == w->log[i].kind) {
                if (0 == n) {
                    first = w->log[i].ts;
                }
                if (4 == n) {
                    fifth = w->log[i].ts;
                }
                ++n;
            }
        }
        best_first = std::min(best_first, static_cast<double>(first - start) / 1e6);
        best_period = std::min(best_period, static_cast<double>(fifth - first) / 4e6);
        stat("firings", w->fired);
        trace_hash(w->log.hash() ^ static_cast<uint64_t>(k));
        if (best_first < static_cast<double>(delay) + 15 && best_period < static_cast<double>(interval) * 1.4 + 4) {
            return;
        }
    }
    violation("timer-late", str("in the best of 12 attempts a timer with delay ", delay, " ms and interval ", interval, " ms fired after ", best_first, " ms and every ", best_period, " ms"));
}

// ---- cancel -----------------------------------------------------------------------
static void
cancel_race(Rng& rng, int)
{
    for (int round = 0; round < scaled(12) && !any_violation(); ++round) {
        auto w = std::make_shared<Watch>(4096);
        bool ser = false;
        auto q = any_queue(rng, ser);
        auto t = std::make_shared<xd::timer>(make_timer(ms(rng.range(0, 2)), q));
        const auto us = work(rng);
        {
            Token token(&w->live);
            t->handler([w, us, token] { w->fire(us); });
        }
        const int cancellers = rng.range(1, 4);
        const int resumers = rng.range(0, 2);
        const auto seed = rng.next();
        if (rng.chance(2)) {
            t->resume(ms(rng.range(0, 2)));
        }
        const long head_start = static_cast<long>(rng.below(4000));
        must_return(
          [&] {
              run_threads(cancellers + resumers, [&](int n) {
                  Rng r(seed + static_cast<uint64_t>(n));
                  xd::timer mine = *t;
                  if (n < cancellers) {
                      sleep_us(head_start);
                      if (r.chance(2)) {
                          jitter(r, 500);
                      }
                      w->log.add(CANCEL, n);
                      mine.cancel();
                      if (0 != w->active) {
                          violation("timer-active-after-cancel", str("cancel() returned while the handler is executing: ", w->log.tail()));
                      }
                      w->forbidden = true;
                      w->log.add(CANCELLED, n);
                  } else {
                      for (int i = 0; i < 30; ++i) {
                          mine.resume(ms(0));
                          jitter(r, 300);
                          mine.suspend();
                      }
                      mine.resume(ms(0));
                  }
              });
          },
          "cancel() of a timer to return",
          [&] { return w->log.tail(); });
        // may not be revived
        t->resume(ms(0));
        if (rng.chance(3)) {
            t->suspend();
            t->suspend();
            t->resume(ms(0));
        }
        sleep_us(static_cast<long>(rng.below(4000)));
        if (rng.chance(4)) {
            t->cancel();
        }
        const auto executed = w->fired.load();
        stat("firings", executed);
        trace(w->log, "cancel");
        t.reset();
        must([&] { return 0 == w->live; }, "the handler of a cancelled timer to be released", [&] { return w->log.tail(); });
    }
}

// handlers pending on a blocked queue
static void
cancel_pending(Rng& rng, int)
{
    auto w = std::make_shared<Watch>(1024);
    auto gate = std::make_shared<Gate>();
    std::atomic<bool> entered{ false };
    auto q = serial("blocked");
    auto t = std::make_shared<xd::timer>(make_timer(ms(rng.range(0, 3)), q));
    {
        Token token(&w->live);
        t->handler([w, token] { w->fire(0); });
    }
    q.async([gate, &entered] {
        entered = true;
        gate->pass();
    });
    must([&] { return entered.load(); }, "operation of a serial queue");
    t->resume(ms(0));
    sleep_us(static_cast<long>(rng.below(8000)));
    w->log.add(CANCEL);
    // nothing executes, so this does not need to wait for the queue
    const int how = rng.range(0, 2);
    if (0 == how) {
        must_return([&] { t->cancel(); }, "cancel() of a timer with a pending handler");
    } else if (1 == how) {
        std::atomic<bool> r{ false };
        parallel("canceller").async([&] {
            t->cancel();
            r = true;
        });
        must([&] { return r.load(); }, "cancel() of a timer from an operation");
    } else {
        must_return([&] { run_threads(3, [&](int) { xd::timer(*t).cancel(); }); }, "concurrent cancel() of a timer with a pending handler");
    }
    w->forbidden = true;
    w->log.add(CANCELLED);
    const bool revive = rng.chance(2);
    if (revive) {
        t->resume(ms(0));
    }
    const bool drop_first = rng.chance(2);
    if (drop_first) {
        t.reset();
    }
    gate->open();
    sleep_us(static_cast<long>(rng.below(8000)));
    std::atomic<bool> flushed{ false };
    q.async([&flushed] { flushed = true; });
    must([&] { return flushed.load(); }, "queue of a cancelled timer");
    if (0 != w->fired) {
        violation("timer-after-cancel", "a pending handler was executed after cancel()");
    }
    t.reset();
    must([&] { return 0 == w->live; }, "the handler of a cancelled timer to be released");
    stat("cancels_pending");
    trace(w->log, "cancel pending");
}

// cancelled by its own handler, possibly while others cancel as well
static void
cancel_self(Rng& rng, int)
{
    for (int round = 0; round < scaled(10) && !any_violation(); ++round) {
        auto w = std::make_shared<Watch>(1024);
        bool ser = false;
        auto q = any_queue(rng, ser);
        auto t = std::make_shared<xd::timer>(make_timer(ms(rng.range(0, 2)), q));
        const int at = rng.range(0, 3);
        const long tail = static_cast<long>(rng.below(2000));
        auto ended = std::make_shared<std::atomic<bool>>(false);
        auto started = std::make_shared<std::atomic<bool>>(false);
        t->interval(ms(1));
        const bool drop = rng.chance(2);
        auto weak = std::weak_ptr<xd::timer>(t);
        {
            Token token(&w->live);
            // a copy of the timer owned by its own handler is a cycle until cancelled
            t->handler([=] {
                if (*ended) {
                    violation("timer-after-cancel", "the handler was started again after it had cancelled its own timer");
                }
                w->fire(0);
                if (w->fired > at) {
                    auto s = weak.lock();
                    *started = true;
                    if (s) {
                        s->cancel();
                        s.reset();
                    }
                    sleep_us(tail);
                    if (!token.alive()) {
                        violation("timer-handler-released", "the handler was released while executing");
                    }
                    *ended = true;
                }
            });
        }
        t->resume(ms(0));
        const int others = rng.range(0, 3);
        must([&] { return started->load(); }, "handler of a timer");
        if (others) {
            must_return(
              [&] {
                  run_threads(others, [&](int) {
                      xd::timer(*t).cancel();
                      if (!*ended) {
                          violation("timer-active-after-cancel", "cancel() returned while the handler, which had cancelled the timer as well, is still executing");
                      }
                  });
              },
              "cancel() next to a handler which cancelled its timer");
        }
        if (drop) {
            t.reset();
        }
        must([&] { return ended->load(); }, "handler which cancelled its timer");
        sleep_us(static_cast<long>(rng.below(3000)));
        if (w->fired != at + 1) {
            violation("timer-after-cancel", str(w->fired.load(), " firings, cancelled by the handler in firing ", at + 1));
        }
        t.reset();
        must([&] { return 0 == w->live; }, "the handler of a cancelled timer to be released");
        stat("firings", w->fired);
        trace(w->log, "cancel self");
    }
}

// the handler cancels another timer which does the same in return
static void
cancel_chain(Rng& rng, int)
{
    for (int round = 0; round < scaled(8) && !any_violation(); ++round) {
        const int n = rng.range(2, 5);
        auto ts = std::make_shared<std::vector<xd::timer>>();
        auto ws = std::make_shared<std::vector<WatchPtr>>();
        std::vector<xd::queue> queues;
        // a chain and not a cycle as waiting for each other can not work
        for (int i = 0; i < n; ++i) {
            bool ser = false;
            queues.push_back(any_queue(rng, ser));
            ts->push_back(make_timer(ms(1), queues.back()));
            ws->push_back(std::make_shared<Watch>(2048));
        }
        for (int i = 0; i < n; ++i) {
            auto w = (*ws)[static_cast<size_t>(i)];
            auto next = i + 1 < n ? (*ws)[static_cast<size_t>(i + 1)] : WatchPtr();
            auto timers = i + 1 < n ? std::make_shared<xd::timer>((*ts)[static_cast<size_t>(i + 1)]) : std::shared_ptr<xd::timer>();
            const int at = rng.range(0, 6);
            (*ts)[static_cast<size_t>(i)].handler([w, next, timers, at] {
                w->fire(0);
                if (timers && w->fired == at + 1) {
                    timers->cancel();
                    if (0 != next->active) {
                        violation("timer-active-after-cancel", "cancel() called by the handler of another timer returned while the handler is executing");
                    }
                    next->forbidden = true;
                }
            });
        }
        for (int i = n; i-- > 0;) {
            (*ts)[static_cast<size_t>(i)].resume(ms(rng.range(0, 3)));
        }
        auto w0 = (*ws)[0];
        must([&] { return w0->fired > 8; }, "a timer to keep firing");
        for (auto& t : *ts) {
            must_return([&] { t.cancel(); }, "cancel() of a timer");
        }
        for (auto& w : *ws) {
            w->forbidden = true;
            stat("firings", w->fired);
        }
        trace(w0->log, "chain");
    }
}

int
main(int argc, char** argv)
{
    return run_main(argc,
                    argv,
                    { { "fire", fire },
                      { "suspend_resume", suspend_resume },
                      { "concurrent_control", concurrent_control },
                      { "single_shot", single_shot },
                      { "busy_queue", busy_queue },
                      { "reconfigure", reconfigure },
                      { "many", many },
                      { "latency", latency },
                      { "cancel_race", cancel_race },
                      { "cancel_pending", cancel_pending },
                      { "cancel_self", cancel_self },
                      { "cancel_chain", cancel_chain } });
}
