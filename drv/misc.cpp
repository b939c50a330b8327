// Workloads and monitors across all parts of the library: visibility and data
// races, combinations of backends, extreme durations and counts.
#include "util.h"

#include "xdispatch/barrier_operation.h"
#include "xdispatch/impl/isocket_notifier_impl.h"
#include "xdispatch/impl/igroup_impl.h"
#include "xdispatch/impl/iqueue_impl.h"
#include "xdispatch/impl/itimer_impl.h"
#include "xdispatch/signals.h"
#include "xdispatch/signals_barrier.h"
#include "xdispatch/socket_notifier.h"
#include "xdispatch/waitable_queue.h"

#include <climits>
#include <deque>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>

#if defined(VH_QT)
    #include <QtCore/QCoreApplication>
    #include <QtCore/QThread>
    #include <QtCore/QThreadPool>

    #include "xdispatch/backend_qt.h"
#endif

#if defined(VH_QT)
XDISPATCH_DECLARE_BACKEND(qt5)
#endif

using namespace vh;
namespace xd = xdispatch;

// ---- C21 -----------------------------------------------------------------------
namespace {

// Plain memory which nothing but the library synchronises. Never freed, as the
// workload only learns by relaxed atomics that it is not used any longer.
struct Cell
{
    long in = 0;
    long out = 0;
    long count = 0;
    std::atomic<int> done{ 0 };

    void finish() { done.fetch_add(1, std::memory_order_relaxed); }
    bool finished(int n) const { return done.load(std::memory_order_relaxed) >= n; }
};

Cell*
cell()
{
    static std::mutex* CS = new std::mutex;
    static auto* all = new std::deque<std::unique_ptr<Cell>>;
    auto* const c = new Cell;
    std::lock_guard<std::mutex> lock(*CS);
    all->emplace_back(c);
    return c;
}

void
expect(long value, long wanted, const char* what)
{
    if (value != wanted) {
        violation(str("visibility:", what), str(what, ": read ", value, " instead of ", wanted));
    }
}

void
finished(Cell* c, int n, const char* what)
{
    must([c, n] { return c->finished(n); }, what);
}

xd::queue
some_queue(Rng& rng)
{
    bool ser = false;
    return any_queue(rng, ser);
}

using Relation = void (*)(Rng&, Log&);

void
rel_async(Rng& rng, Log& log)
{
    // submitter to operation to the next one of a serial queue
    auto q = serial("v", prio(rng));
    auto* const c = cell();
    const int n = rng.range(1, 12);
    for (int i = 0; i < n; ++i) {
        auto* const own = cell();
        own->in = i + 1;
        const auto f = [c, own, i, &log] {
            log.add(1, i);
            expect(own->in, i + 1, "what was done before submitting");
            expect(c->out, i, "what the previous operation did");
            c->out = i + 1;
            c->finish();
        };
        if (rng.chance(2)) {
            q.async(f);
        } else {
            q.async(std::make_shared<FnOp>(f));
        }
        jitter(rng, 20);
    }
    finished(c, n, "operations to execute");
}

void
rel_parallel(Rng& rng, Log& log)
{
    auto q = parallel("v", prio(rng));
    std::vector<Cell*> cs;
    for (int i = 0, n = rng.range(1, 12); i < n; ++i) {
        auto* const c = cell();
        cs.push_back(c);
        c->in = i + 1;
        q.async([c, i, &log] {
            log.add(2, i);
            expect(c->in, i + 1, "what was done before submitting");
            c->finish();
        });
    }
    for (auto* c : cs) {
        finished(c, 1, "operations to execute");
    }
}

void
rel_group(Rng& rng, Log& log)
{
    auto g = make_group();
    std::vector<Cell*> cs;
    const int n = rng.range(1, 10);
    for (int i = 0; i < n; ++i) {
        auto* const c = cell();
        cs.push_back(c);
        c->in = i + 1;
        g.async(
          [c, i, &log] {
              log.add(3, i);
              expect(c->in, i + 1, "what was done before submitting to a group");
              c->out = i + 2;
          },
          some_queue(rng));
    }
    const bool notify = rng.chance(2);
    auto* const d = cell();
    if (notify) {
        d->in = 99;
        g.notify(
          [cs, d, &log] {
              log.add(4);
              expect(d->in, 99, "what was done before asking for a notification");
              for (size_t i = 0; i < cs.size(); ++i) {
                  expect(cs[i]->out, static_cast<long>(i) + 2, "what the operations of a group did before a notification");
              }
              d->finish();
          },
          some_queue(rng));
    }
    if (!notify || rng.chance(2)) {
        const bool limited = rng.chance(3);
        while (!g.wait(limited ? ms(rng.range(0, 3)) : ms(-1))) {
        }
        for (size_t i = 0; i < cs.size(); ++i) {
            expect(cs[i]->out, static_cast<long>(i) + 2, "what the operations of a group did before wait() returned");
        }
    }
    if (notify) {
        finished(d, 1, "a notification");
    }
}

void
rel_apply(Rng& rng, Log& log)
{
    std::vector<Cell*> cs;
    const size_t n = rng.below(12);
    auto* const c = cell();
    c->in = 7;
    for (size_t i = 0; i < n; ++i) {
        cs.push_back(cell());
    }
    some_queue(rng).apply(n, [&](size_t i) {
        log.add(5, static_cast<int64_t>(i));
        expect(c->in, 7, "what was done before apply()");
        cs[i]->out = static_cast<long>(i) + 3;
    });
    for (size_t i = 0; i < n; ++i) {
        expect(cs[i]->out, static_cast<long>(i) + 3, "what applied operations did");
    }
}

void
rel_after(Rng& rng, Log& log)
{
    auto* const c = cell();
    c->in = 11;
    some_queue(rng).after(ms(rng.below(4)), [c, &log] {
        log.add(6);
        expect(c->in, 11, "what was done before submitting with a delay");
        c->finish();
    });
    finished(c, 1, "a delayed operation");
}

void
rel_timer(Rng& rng, Log& log)
{
    // also on a parallel queue the firings follow each other
    auto* const c = cell();
    xd::timer t(ms(rng.range(1, 2)), some_queue(rng));
    t.handler([c, &log] {
        log.add(7, c->count);
        expect(c->in, 12, "what was done before resuming a timer");
        ++c->count;
        c->finish();
    });
    c->in = 12;
    t.resume(ms(rng.below(2)));
    const int n = rng.range(0, 4);
    finished(c, n, "a timer to fire");
    t.cancel();
    expect(c->count, c->done.load(std::memory_order_relaxed), "what the handler of a timer did before cancel() returned");
    c->count = -1;
}

void
rel_notifier(Rng& rng, Log& log)
{
    int fds[2] = { -1, -1 };
    if (0 != ::socketpair(AF_UNIX, SOCK_STREAM, 0, fds)) {
        return;
    }
    ::fcntl(fds[0], F_SETFL, O_NONBLOCK);
    auto* const c = cell();
    {
        xd::socket_notifier s(fds[0], xd::notifier_type::READ, some_queue(rng));
        s.handler([c, &log](xd::socket_t fd, xd::notifier_type) {
            log.add(8, c->count);
            expect(c->in, 13, "what was done before resuming a notifier");
            char b[4];
            ++c->count;
            if (::read(static_cast<int>(fd), b, sizeof(b)) > 0) {
                c->finish();
            }
        });
        c->in = 13;
        s.resume();
        const int n = rng.range(0, 3);
        for (int i = 0; i < n; ++i) {
            if (1 != ::write(fds[1], "x", 1)) {
                break;
            }
            finished(c, i + 1, "a notifier to notify");
        }
        s.cancel();
        c->count = -1;
        c->in = -1;
    }
    ::close(fds[0]);
    ::close(fds[1]);
}

void
rel_signal(Rng& rng, Log& log)
{
    auto sig = std::make_unique<xd::signal<void(Cell*)>>();
    auto* const c = cell();
    bool ser = false;
    const auto q = any_queue(rng, ser);
    auto con = sig->connect(
      [c, ser, &log](Cell* e) {
          log.add(9, ser);
          expect(e->in, 14, "what was done before emitting");
          if (ser) {
              ++c->count;
          } else {
              // concurrent to others
              e->out = 5;
          }
          c->finish();
          e->finish();
      },
      q);
    const int n = rng.range(0, 12);
    std::vector<Cell*> es;
    for (int i = 0; i < n; ++i) {
        auto* const e = cell();
        es.push_back(e);
        e->in = 14;
        (*sig)(e);
    }
    const bool all = rng.chance(2);
    if (all) {
        finished(c, n, "handlers to be invoked");
    }
    switch (rng.below(3)) {
        case 0:
            con.disconnect();
            break;
        case 1:
            sig->disconnect(con);
            break;
        default:
            sig.reset();
            break;
    }
    if (ser) {
        expect(c->count, c->done.load(std::memory_order_relaxed), "what a handler did before disconnecting returned");
    } else {
        for (auto* e : es) {
            if (e->finished(1)) {
                expect(e->out, 5, "what a handler did before disconnecting returned");
            }
        }
    }
    c->count = -1;
}

void
rel_batch(Rng& rng, Log& log)
{
    // emits collapsed into a pending invocation are visible to it
    auto q = serial("v");
    auto gate = std::make_shared<Gate>();
    auto* const c = cell();
    auto* const g = cell();
    q.async([gate, g] {
        g->finish();
        gate->pass();
    });
    finished(g, 1, "a gate to be reached");
    xd::signal<void(int)> sig;
    const int n = rng.range(1, 4);
    std::vector<Cell*> cs;
    for (int i = 0; i < n; ++i) {
        cs.push_back(cell());
    }
    auto con = sig.connect(
      [c, cs, &log](int) {
          log.add(10);
          for (auto* e : cs) {
              expect(e->in, 15, "what was done before emitting to a batching handler");
          }
          c->finish();
      },
      q,
      xd::notification_mode::batch_updates);
    auto* const emitted = cell();
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i) {
        ts.emplace_back([&sig, &cs, i, emitted] {
            cs[static_cast<size_t>(i)]->in = 15;
            sig(i);
            emitted->finish();
        });
    }
    // remark: does not synchronise with the emitters
    finished(emitted, n, "emits to return");
    gate->open();
    finished(c, 1, "a batching handler to be invoked");
    for (auto& t : ts) {
        t.join();
    }
    con.disconnect();
}

void
rel_barrier(Rng& rng, Log& log)
{
    auto* const c = cell();
    auto b = std::make_shared<xd::barrier_operation>();
    const int waiters = rng.range(1, 3);
    std::vector<std::thread> ts;
    for (int i = 0; i < waiters; ++i) {
        const auto style = rng.below(3);
        ts.emplace_back([b, c, style, &log] {
            switch (style) {
                case 0:
                    b->wait();
                    break;
                case 1:
                    while (!b->wait(ms(1))) {
                    }
                    break;
                default:
                    while (!b->has_passed()) {
                        sleep_us(100);
                    }
                    break;
            }
            log.add(11, static_cast<int64_t>(style));
            expect(c->in, 16, "what was done before submitting a barrier");
            expect(c->out, 17, "what an operation did before the barrier");
        });
    }
    jitter(rng, 200);
    auto q = serial("v", prio(rng));
    c->in = 16;
    q.async([c] { c->out = 17; });
    q.async(b);
    must_return(
      [&ts] {
          for (auto& t : ts) {
              t.join();
          }
      },
      "waiters of a barrier to return");
}

void
rel_signal_barrier(Rng& rng, Log& log)
{
    xd::signal<void(Cell*)> sig;
    auto* const c = cell();
    xd::signal_barrier<void(Cell*)> b(sig);
    std::thread waiter([&, style = rng.below(2)] {
        if (0 == style) {
            b.wait();
        } else {
            for (;;) {
                try {
                    b.values();
                    break;
                } catch (const std::runtime_error&) {
                    sleep_us(100);
                }
            }
        }
        log.add(12, static_cast<int64_t>(style));
        expect(b.value()->in, 18, "what was done before emitting to a barrier");
    });
    jitter(rng, 200);
    c->in = 18;
    sig(c);
    if (rng.chance(2)) {
        // invokes handlers in parallel, so this one may release the barrier
        auto* const d = cell();
        d->in = 18;
        sig(d);
    }
    must_return([&] { waiter.join(); }, "a waiter of a signal barrier to return");
}

void
rel_waitable(Rng& rng, Log& log)
{
    xd::waitable_queue q("v", some_queue(rng));
    auto* const c = cell();
    const int n = rng.range(1, 10);
    for (int i = 0; i < n; ++i) {
        c->in = 20;
        q.async([c, i, &log] {
            log.add(13, i);
            expect(c->count, i, "what the previous operation of a waitable queue did");
            ++c->count;
        });
        if (rng.chance(3)) {
            q.wait_for_all();
            expect(c->count, i + 1, "what operations of a waitable queue did");
        }
    }
    if (1 == n && rng.chance(2)) {
        q.wait_for_one();
    } else {
        q.wait_for_all();
    }
    expect(c->count, n, "what operations of a waitable queue did");
}

const Relation relations[] = { rel_async,  rel_parallel, rel_group, rel_apply,   rel_after,          rel_timer,   rel_notifier,
                               rel_signal, rel_batch,    rel_barrier, rel_signal_barrier, rel_waitable };

} // namespace

// what is promised to be visible is, by nothing but the library
static void
visibility(Rng& rng, int)
{
    static auto* logs = new std::deque<std::unique_ptr<Log>>;
    logs->emplace_back(new Log(20000));
    auto& log = *logs->back();
    const int threads = rng.range(1, 4);
    const auto seed = rng.next();
    const int per = scaled(rng.range(4, 16));
    run_threads(threads, [&](int t) {
        Rng x(seed + static_cast<uint64_t>(t));
        for (int i = 0; i < per; ++i) {
            relations[x.below(sizeof(relations) / sizeof(relations[0]))](x, log);
        }
    });
    trace(log);
    vh::stat("visibility_relations", threads * per);
}

// all threads use the same objects in all ways at once
static void
mixed(Rng& rng, int)
{
    struct Shared
    {
        xd::queue ser = serial("shared.s");
        xd::queue par = parallel("shared.p");
        xd::waitable_queue wq{ "shared.w", par };
        xd::group g = make_group();
        xd::timer t = make_timer(ms(1), ser);
        xd::timer tp = make_timer(ms(1), par);
        xd::signal<void(int)> sig;
        xd::signal<void(int)> sig2;
        std::shared_ptr<xd::barrier_operation> bar = std::make_shared<xd::barrier_operation>();
        int fds[2] = { -1, -1 };
        std::unique_ptr<xd::socket_notifier> n;
        std::atomic<long> events{ 0 };
        std::atomic<long> queued{ 0 };
        std::atomic<long> executed{ 0 };
        Log log{ 100000 };
    };
    auto s = std::make_shared<Shared>();
    if (0 != ::socketpair(AF_UNIX, SOCK_STREAM, 0, s->fds)) {
        return;
    }
    ::fcntl(s->fds[0], F_SETFL, O_NONBLOCK);
    ::fcntl(s->fds[1], F_SETFL, O_NONBLOCK);
    auto* const raw = s.get();
    s->n.reset(new xd::socket_notifier(s->fds[0], xd::notifier_type::READ, rng.chance(2) ? s->ser : s->par));
    s->n->handler([raw](xd::socket_t fd, xd::notifier_type) {
        char b[16];
        (void)!::read(static_cast<int>(fd), b, sizeof(b));
        raw->log.add(1);
        ++raw->events;
    });
    const auto tick = [raw] {
        raw->log.add(2);
        ++raw->events;
    };
    s->t.handler(tick);
    s->tp.handler(tick);
    auto chained = s->sig.connect(s->sig2);
    const int threads = rng.range(2, 6);
    const int per = scaled(rng.range(20, 120));
    const auto seed = rng.next();
    must_return(
      [&] {
          run_threads(threads, [&](int no) {
              Rng x(seed + static_cast<uint64_t>(no));
              std::vector<xd::connection> own;
              xd::connection_manager mgr;
              for (int i = 0; i < per; ++i) {
                  const auto op = [raw] {
                      raw->log.add(3);
                      ++raw->executed;
                  };
                  switch (x.below(24)) {
                      case 0:
                          ++s->queued;
                          s->ser.async(op);
                          break;
                      case 1:
                          ++s->queued;
                          s->par.async(op);
                          break;
                      case 2:
                          ++s->queued;
                          s->wq.async(op);
                          break;
                      case 3:
                          s->wq.wait_for_all();
                          break;
                      case 4:
                          ++s->queued;
                          s->g.async(op, x.chance(2) ? s->ser : s->par);
                          break;
                      case 5:
                          s->g.wait(ms(x.range(0, 2)));
                          break;
                      case 6:
                          ++s->queued;
                          s->g.notify(op, x.chance(2) ? s->ser : s->par);
                          break;
                      case 7:
                          s->t.resume(ms(x.below(2)));
                          break;
                      case 8:
                          s->t.suspend();
                          break;
                      case 9:
                          s->tp.resume(ms(x.below(2)));
                          break;
                      case 10:
                          s->tp.suspend();
                          break;
                      case 11:
                          s->t.interval(ms(x.range(1, 3)));
                          s->tp.handler(tick);
                          break;
                      case 12:
                          s->n->resume();
                          break;
                      case 13:
                          s->n->suspend();
                          break;
                      case 14:
                          (void)!::write(s->fds[1], "x", 1);
                          break;
                      case 15:
                          s->sig(i);
                          break;
                      case 16:
                          own.push_back((x.chance(2) ? s->sig : s->sig2)
                                          .connect(
                                            [raw](int) {
                                                raw->log.add(4);
                                                ++raw->events;
                                            },
                                            x.chance(2) ? s->ser : s->par,
                                            x.chance(2) ? xd::notification_mode::single_updates : xd::notification_mode::batch_updates));
                          break;
                      case 17:
                          if (!own.empty()) {
                              own.back().disconnect();
                              own.pop_back();
                          }
                          break;
                      case 18:
                          s->sig.skip_all();
                          break;
                      case 19:
                          mgr += s->sig2.connect([raw](int) { ++raw->events; }, s->par);
                          break;
                      case 20:
                          if (x.chance(3)) {
                              mgr.reset_connections();
                          }
                          break;
                      case 21:
                          s->bar->wait(ms(x.range(0, 1)));
                          break;
                      case 22:
                          ++s->queued;
                          s->par.after(ms(x.below(3)), op);
                          break;
                      default: {
                          const int n = x.range(0, 3);
                          s->queued += n;
                          (x.chance(2) ? s->par : s->ser).apply(static_cast<size_t>(n), [raw](size_t) { ++raw->executed; });
                          break;
                      }
                  }
                  if (i == per / 2 && 0 == no) {
                      s->par.async(s->bar);
                  }
                  jitter(x, 30);
              }
              for (auto& c : own) {
                  c.disconnect();
              }
          });
      },
      "threads using the same objects to end");
    s->t.cancel();
    s->tp.cancel();
    s->n->cancel();
    chained.disconnect();
    must([s] { return s->executed >= s->queued; }, "operations to execute", [s] { return str(s->executed.load(), " of ", s->queued.load()); });
    must_return([s] { s->bar->wait(); }, "a barrier to be released");
    if (s->executed != s->queued) {
        violation("mixed-count", str(s->executed.load(), " executions of ", s->queued.load()));
    }
    // operations still refer to the queues while they return, so these are
    // released by waiting for what follows
    auto g = make_group();
    g.async([] {}, s->ser);
    g.wait();
    must_return([s] { s->wq.wait_for_all(); }, "a waitable queue to be idle");
    trace(s->log);
    vh::stat("mixed_calls", threads * per);
    vh::stat("mixed_events", s->events);
    ::close(s->fds[0]);
    ::close(s->fds[1]);
}

// ---- C23 -----------------------------------------------------------------------
namespace {

struct Calls
{
    std::atomic<int> n{ 0 };
};

class FakeQueue : public xd::iqueue_impl
{
public:
    FakeQueue(xd::backend_type t, Calls& c)
      : m_type(t)
      , m_calls(c)
    {}
    void async(const xd::operation_ptr& op) override
    {
        (void)op;
        ++m_calls.n;
    }
    void apply(size_t, const xd::iteration_operation_ptr&) override { ++m_calls.n; }
    void after(std::chrono::milliseconds, const xd::operation_ptr&) override { ++m_calls.n; }
    xd::backend_type backend() override { return m_type; }

private:
    const xd::backend_type m_type;
    Calls& m_calls;
};

class FakeGroup : public xd::igroup_impl
{
public:
    FakeGroup(xd::backend_type t, Calls& c)
      : m_type(t)
      , m_calls(c)
    {}
    void async(const xd::operation_ptr&, const xd::iqueue_impl_ptr&) override { ++m_calls.n; }
    bool wait(std::chrono::milliseconds) override { return true; }
    void notify(const xd::operation_ptr&, const xd::iqueue_impl_ptr&) override { ++m_calls.n; }
    xd::backend_type backend() override { return m_type; }

private:
    const xd::backend_type m_type;
    Calls& m_calls;
};

class FakeTimer : public xd::itimer_impl
{
public:
    FakeTimer(xd::backend_type t, Calls& c)
      : m_type(t)
      , m_calls(c)
    {}
    void interval(std::chrono::milliseconds) override { ++m_calls.n; }
    void latency(xd::timer_precision) override { ++m_calls.n; }
    void handler(const xd::operation_ptr&) override { ++m_calls.n; }
    void target_queue(const xd::iqueue_impl_ptr&) override { ++m_calls.n; }
    void resume(std::chrono::milliseconds) override { ++m_calls.n; }
    void suspend() override { ++m_calls.n; }
    void cancel() override { ++m_calls.n; }
    xd::backend_type backend() override { return m_type; }

private:
    const xd::backend_type m_type;
    Calls& m_calls;
};

class FakeNotifier : public xd::isocket_notifier_impl
{
public:
    FakeNotifier(xd::backend_type t, Calls& c)
      : m_type(t)
      , m_calls(c)
    {}
    void handler(const xd::socket_notifier_operation_ptr&) override { ++m_calls.n; }
    void target_queue(const xd::iqueue_impl_ptr&) override { ++m_calls.n; }
    void resume() override { ++m_calls.n; }
    void suspend() override { ++m_calls.n; }
    void cancel() override { ++m_calls.n; }
    xd::socket_t socket() const override { return 0; }
    xd::notifier_type type() const override { return xd::notifier_type::READ; }
    xd::backend_type backend() override { return m_type; }

private:
    const xd::backend_type m_type;
    Calls& m_calls;
};

xd::ibackend&
factory_of(xd::backend_type t)
{
#if defined(VH_QT)
    if (xd::backend_type::qt5 == t) {
        return *qt5_backend_get_static_instance_impl();
    }
#endif
    (void)t;
    return *vh::naive_backend();
}

// 0: returned, 1: std::logic_error, 2: anything else
int
outcome(const std::function<void()>& f)
{
    try {
        f();
    } catch (const std::logic_error&) {
        return 1;
    } catch (...) {
        return 2;
    }
    return 0;
}

void
judge(int got, bool may_combine, const char* what, xd::backend_type a, xd::backend_type b)
{
    vh::stat("combinations");
    if (may_combine && 0 != got) {
        violation(str("combine-throws:", what), str("combining ", what, " of backend ", static_cast<int>(a), " with a queue of backend ", static_cast<int>(b), " threw"));
    }
    if (!may_combine && 1 != got) {
        violation(str("combine-silent:", what),
                  str("combining ", what, " of backend ", static_cast<int>(a), " with a queue of backend ", static_cast<int>(b), (0 == got ? " did not throw" : " threw something else than a logic error")));
    }
}

} // namespace

static void
backends(Rng& rng, int no)
{
    Log log(4000);
    const auto naive = xd::backend_type::naive;
    const auto qt = xd::backend_type::qt5;
    const xd::backend_type types[] = { naive, qt };
    // objects whose backend is known, every use is recorded
    for (const auto a : types) {
        for (const auto b : types) {
            Calls calls;
            Calls queue_calls;
            const auto qi = std::make_shared<FakeQueue>(b, queue_calls);
            const xd::queue q("fake", qi);
            judge(outcome([&] { xd::timer t(std::make_shared<FakeTimer>(a, calls), q); }), a == b, "a timer", a, b);
            judge(outcome([&] { xd::socket_notifier n(std::make_shared<FakeNotifier>(a, calls), q); }), a == b, "a notifier", a, b);
            const xd::group g(std::make_shared<FakeGroup>(a, calls));
            // groups of the naive backend work with all queues
            const bool combine = a == b || naive == a;
            const int before = calls.n;
            auto executed = std::make_shared<std::atomic<int>>(0);
            judge(outcome([&] { g.async([executed] { ++*executed; }, q); }), combine, "a group", a, b);
            judge(outcome([&] { g.notify([executed] { ++*executed; }, q); }), combine, "a group notification", a, b);
            const int after = calls.n - before;
            if (after != (combine ? 2 : 0)) {
                violation("combine-effect", str("the group was used ", after, " times"));
            }
            if (!combine && (*executed > 0 || queue_calls.n > 0)) {
                violation("combine-effect", "refusing to combine objects had an effect");
            }
            log.add(1, static_cast<int>(a), static_cast<int>(b));
        }
    }

    // real ones
    struct Real
    {
        xd::queue q;
        const char* how;
    };
    std::vector<Real> qs;
    auto& nb = *vh::naive_backend();
    qs.push_back({ xd::queue("s", nb.create_serial_queue("s", prio(rng))), "naive serial" });
    qs.push_back({ xd::queue("p", nb.create_parallel_queue("p", prio(rng))), "naive parallel" });
    qs.push_back({ xd::queue("default", prio(rng)), "default" });
    qs.push_back({ xd::global_queue(prio(rng)), "global" });
#if defined(VH_QT)
    static auto* thread = [] {
        auto* t = new QThread;
        t->start();
        return t;
    }();
    static auto* pool = new QThreadPool;
    qs.push_back({ xd::qt5::create_serial_queue("qt", thread), "QThread" });
    qs.push_back({ xd::qt5::create_parallel_queue("qtp", pool), "QThreadPool" });
    auto& qb = factory_of(qt);
    qs.push_back({ xd::queue("qs", qb.create_serial_queue("qs", prio(rng))), "qt serial" });
    qs.push_back({ xd::queue("qp", qb.create_parallel_queue("qp", prio(rng))), "qt parallel" });
#endif
    const size_t plain = qs.size();
    for (size_t i = 0; i < plain; ++i) {
        qs.push_back({ xd::waitable_queue("w", qs[i].q), "waitable" });
    }
    for (size_t i = qs.size() - 1; i > 0; --i) {
        std::swap(qs[i], qs[rng.below(i + 1)]);
    }
    auto used = std::make_shared<std::atomic<int>>(0);
    int expected = 0;
    for (size_t i = 0; i < qs.size(); ++i) {
        const auto& q = qs[i].q;
        const auto b = q.implementation()->backend();
        // created for the queue: always fits
        judge(outcome([&] {
                  xd::timer t(ms(0), q);
                  t.handler([used] { ++*used; });
                  t.resume();
                  // copies and assignments neither
                  xd::timer u(t);
                  u = t;
              }),
              true,
              "a timer created for it",
              b,
              b);
        ++expected;
        int fds[2];
        if (0 == ::pipe(fds)) {
            judge(outcome([&] {
                      xd::socket_notifier n(fds[0], xd::notifier_type::READ, q);
                      n.handler([](xd::socket_t, xd::notifier_type) {});
                      n.resume();
                      n.cancel();
                  }),
                  true,
                  "a notifier created for it",
                  b,
                  b);
            ::close(fds[0]);
            ::close(fds[1]);
        }
        judge(outcome([&] { q.after(ms(0), [used] { ++*used; }); }), true, "a delay", b, b);
        ++expected;
        xd::group own;
        judge(outcome([&] { own.async([used] { ++*used; }, q); }), true, "a default group", b, b);
        judge(outcome([&] { own.notify([used] { ++*used; }, q); }), true, "a default group", b, b);
        expected += 2;
        for (size_t k = 0; k < qs.size(); ++k) {
            const auto other = qs[k].q.implementation()->backend();
            // a timer and notifier created by a backend for another queue
            auto& factory = factory_of(other);
            auto timer = factory.create_timer(qs[k].q.implementation());
            Calls none;
            const auto made = timer->backend();
            judge(outcome([&] {
                      xd::timer t(timer, q);
                      (void)t;
                  }),
                  made == b,
                  "a timer of another queue",
                  made,
                  b);
            if (made != other) {
                violation("backend-of-timer", str("a timer for a '", qs[k].how, "' queue is of another backend"));
            }
            auto notifier = factory.create_socket_notifier(qs[k].q.implementation(), 0, xd::notifier_type::READ);
            if (notifier->backend() != other) {
                violation("backend-of-notifier", str("a notifier for a '", qs[k].how, "' queue is of another backend"));
            }
            judge(outcome([&] { xd::socket_notifier n(notifier, q); }), notifier->backend() == b, "a notifier of another queue", notifier->backend(), b);
            log.add(2, qs[i].how[0] * 256 + qs[i].how[3], qs[k].how[0] * 256 + qs[k].how[3]);
        }
        // a signal works with every queue
        xd::signal<void(int)> sig;
        judge(outcome([&] {
                  auto c = sig.connect([used](int) { ++*used; }, q);
                  sig(1);
                  must([used, expected] { return *used >= expected + 1; }, "operations and handlers on queues of all backends", [&] { return str(used->load(), " of ", expected + 1, " with ", qs[i].how); });
                  c.disconnect();
              }),
              true,
              "a signal",
              b,
              b);
        ++expected;
    }
    must([used, expected] { return *used >= expected; }, "operations on queues of all backends", [&] { return str(used->load(), " of ", expected); });
    if (*used != expected) {
        violation("combine-count", str(used->load(), " executions instead of ", expected));
    }
    (void)no;
    trace(log);
}

// ---- C28 -----------------------------------------------------------------------
namespace {

ms
huge(Rng& rng)
{
    using std::chrono::hours;
    static const int64_t values[] = { INT64_MAX,
                                      INT64_MAX - 1,
                                      INT64_MAX / 2,
                                      INT64_MAX / 1000,
                                      INT64_MAX / 1000000,
                                      INT64_MAX / 1000000 + 1,
                                      INT64_MAX / 1000000 - 1,
                                      INT64_MAX / 1000000 - 1000LL * 3600 * 24,
                                      INT64_MAX / 1000000 / 2,
                                      1LL << 31,
                                      (1LL << 31) - 1,
                                      (1LL << 31) + 1,
                                      1LL << 32,
                                      (1LL << 32) + 1,
                                      (1LL << 32) - 1,
                                      (1LL << 32) + 5,
                                      (1LL << 33) + 2,
                                      1LL << 40,
                                      (1LL << 52) + 3,
                                      (1LL << 53),
                                      1LL << 62,
                                      1000LL * 3600 * 24 * 365,
                                      1000LL * 3600 * 24 * 365 + 1,
                                      1000LL * 3600 * 24 * 365 * 292,
                                      1000LL * 3600 * 24 * 365 * 300,
                                      1000LL * 3600 * 24 * 365 * 10000,
                                      (INT64_MAX / 1000000) * 2,
                                      18446744073710LL,
                                      18446744073709LL,
                                      36893488147419LL };
    return ms(values[rng.below(sizeof(values) / sizeof(values[0]))]);
}

// nothing to wait for, also for interfaces where -1 means without limit
ms
tiny(Rng& rng)
{
    static const int64_t values[] = { 0, 0, -2, -3, -1000, INT64_MIN, INT64_MIN + 1, INT64_MIN / 2, INT64_MIN / 1000, INT64_MIN / 1000000, INT64_MIN / 1000000 - 1, -(1LL << 31), -(1LL << 32), -(1LL << 32) - 1, -9223372036855LL, -18446744073709LL };
    return ms(values[rng.below(sizeof(values) / sizeof(values[0]))]);
}

// waits in a thread of its own
struct Waiting
{
    std::shared_ptr<std::atomic<int>> state = std::make_shared<std::atomic<int>>(0);
    std::thread t;
    explicit Waiting(const std::function<bool()>& f)
    {
        const auto s = state;
        t = std::thread([f, s] {
            const bool r = f();
            *s = r ? 2 : 1;
        });
    }
    bool returned() const { return 0 != *state; }
    void expect_true(const char* what)
    {
        const auto s = state;
        must([s] { return 0 != *s; }, what);
        t.join();
        if (2 != *state) {
            violation(str("extreme-result:", what), str(what, " returned false without a timeout"));
        }
    }
};

} // namespace

static void
extreme_waits(Rng& rng, int)
{
    Log log(1000);
    for (int round = 0, n = scaled(8); round < n && !any_violation(); ++round) {
        const auto h = rng.chance(4) ? ms(-1) : huge(rng);
        const auto z = tiny(rng);
        auto gate = std::make_shared<Gate>();
        log.add(1, h.count(), z.count());
        const auto detail = [&] { return str("timeout ", z.count(), " or ", h.count(), " ms"); };
        const auto kind = rng.below(4);
        if (0 == kind) {
            // groups
            auto g = make_group();
            auto begun = std::make_shared<std::atomic<bool>>(false);
            if (rng.chance(2)) {
                must_return([&] { g.wait(z); }, "waiting for an empty group without a timeout", detail);
                must_return([&] { g.wait(h); }, "waiting for an empty group", detail);
            }
            g.async(
              [gate, begun] {
                  *begun = true;
                  gate->pass();
              },
              some_queue(rng));
            must_return(
              [&] {
                  if (g.wait(z)) {
                      violation("extreme-result:group", str("waiting ", z.count(), " ms for a pending group returned true"));
                  }
              },
              "waiting for a group without a timeout",
              detail);
            Waiting w([g, h] { return g.wait(h); });
            Waiting v([g, h] { return g.wait(h); });
            sleep_us(rng.range(500, 20000));
            if (w.returned() || v.returned()) {
                violation("extreme-early:group", str("waiting ", h.count(), " ms for a group returned early"));
            }
            gate->open();
            w.expect_true("waiting for a group with a huge timeout");
            v.expect_true("waiting for a group with a huge timeout");
        } else if (1 == kind) {
            auto b = std::make_shared<xd::barrier_operation>();
            must_return(
              [&] {
                  if (b->wait(z)) {
                      violation("extreme-result:barrier", str("waiting ", z.count(), " ms for a barrier returned true"));
                  }
              },
              "waiting for a barrier without a timeout",
              detail);
            Waiting w([b, h] { return b->wait(h); });
            Waiting v([b, h] { return b->wait(h); });
            sleep_us(rng.range(500, 20000));
            if (w.returned() || v.returned()) {
                violation("extreme-early:barrier", str("waiting ", h.count(), " ms for a barrier returned early"));
            }
            some_queue(rng).async(b);
            w.expect_true("waiting for a barrier with a huge timeout");
            v.expect_true("waiting for a barrier with a huge timeout");
            must_return(
              [&] {
                  if (!b->wait(z) || !b->wait(h)) {
                      violation("extreme-result:barrier", str("waiting ", z.count(), " ms for a completed barrier returned false"));
                  }
              },
              "waiting for a completed barrier",
              detail);
        } else if (2 == kind) {
            xd::signal<void(int)> sig;
            auto b = std::make_shared<xd::signal_barrier<void(int)>>(sig);
            must_return(
              [&] {
                  if (b->wait(z)) {
                      violation("extreme-result:signal_barrier", str("waiting ", z.count(), " ms for a signal returned true"));
                  }
              },
              "waiting for a signal without a timeout",
              detail);
            Waiting w([b, h] { return b->wait(h); });
            sleep_us(rng.range(500, 20000));
            if (w.returned()) {
                violation("extreme-early:signal_barrier", str("waiting ", h.count(), " ms for a signal returned early"));
            }
            sig(1);
            w.expect_true("waiting for a signal with a huge timeout");
        } else {
            // counts
            auto q = some_queue(rng);
            std::atomic<int> calls{ 0 };
            must_return([&] { q.apply(0, [&](size_t) { ++calls; }); }, "applying nothing");
            xd::waitable_queue wq("w", q);
            must_return([&] { wq.apply(0, [&](size_t) { ++calls; }); }, "applying nothing to a waitable queue");
            must_return([&] { wq.wait_for_all(); }, "waiting for an empty waitable queue");
            must_return([&] { wq.wait_for_one(); }, "waiting for an empty waitable queue");
            if (calls > 0) {
                violation("extreme-count", "applying an operation zero times executed it");
            }
            std::atomic<int> many{ 0 };
            const size_t times = 1 + rng.below(3000);
            must_return([&] { q.apply(times, [&](size_t) { ++many; }); }, "applying often");
            if (many != static_cast<int>(times)) {
                violation("extreme-count", str(many.load(), " executions of ", times));
            }
        }
        vh::stat("extreme_values", 2);
    }
    trace(log);
}

static void
extreme_delays(Rng& rng, int)
{
    Log log(2000);
    auto early = std::make_shared<std::atomic<int>>(0);
    std::vector<xd::timer> pending;
    std::vector<ms> hs;
    for (int round = 0, n = scaled(6); round < n && !any_violation(); ++round) {
        const auto h = huge(rng);
        // -1 is no special value here
        const auto z = rng.chance(4) ? ms(-1) : tiny(rng);
        hs.push_back(h);
        log.add(1, h.count(), z.count());
        const auto detail = [&] { return str("delay ", z.count(), " or ", h.count(), " ms"); };
        bool ser = false;
        auto q = any_queue(rng, ser);
        const auto fired = std::make_shared<std::atomic<int>>(0);
        switch (rng.below(5)) {
            case 0: {
                // delayed operations do not get into each others' way
                if (rng.chance(3)) {
                    xd::waitable_queue wq("w", q);
                    q = wq;
                }
                must_return([&] { q.after(h, [early] { ++*early; }); }, "submitting with a huge delay", detail);
                must_return([&] { q.after(z, [fired] { ++*fired; }); }, "submitting without a delay", detail);
                q.async([fired] { ++*fired; });
                must([fired] { return 2 == *fired; }, "an operation without delay to execute", detail);
                break;
            }
            case 1: {
                // start delay
                xd::timer t(ms(0), q);
                auto late = std::make_shared<std::atomic<bool>>(false);
                t.handler([fired, early, late] {
                    if (!*late) {
                        ++*early;
                    }
                    ++*fired;
                });
                must_return([&] { t.resume(h); }, "resuming a timer with a huge delay", detail);
                sleep_us(rng.range(0, 3000));
                if (rng.chance(2)) {
                    must_return([&] { t.suspend(); }, "suspending a timer", detail);
                    *late = true;
                    must_return([&] { t.resume(z); }, "resuming a timer without a delay", detail);
                    must([fired] { return *fired > 0; }, "a timer without delay to fire", detail);
                }
                must_return([&] { t.cancel(); }, "cancelling a timer", detail);
                break;
            }
            case 2: {
                // interval
                xd::timer t(h, q);
                t.handler([fired] { ++*fired; });
                must_return([&] { t.resume(z); }, "resuming a timer with a huge interval", detail);
                must([fired] { return *fired > 0; }, "a timer to fire", detail);
                sleep_us(rng.range(0, 20000));
                if (*fired > 1) {
                    violation("extreme-early:interval", str("a timer with an interval of ", h.count(), " ms fired ", fired->load(), " times"));
                }
                if (rng.chance(2)) {
                    must_return([&] { t.suspend(); }, "suspending a timer", detail);
                    t.interval(ms(1));
                    t.resume(ms(0));
                    must([fired] { return *fired > 3; }, "a timer to fire", detail);
                }
                if (rng.chance(2)) {
                    must_return([&] { t.cancel(); }, "cancelling a timer", detail);
                } else {
                    pending.push_back(t);
                }
                break;
            }
            case 3: {
                // an interval without a length
                xd::timer t(z, q);
                t.handler([fired] { ++*fired; });
                t.resume(z);
                must([fired] { return *fired > 0; }, "a timer without interval to fire", detail);
                must_return([&] { t.cancel(); }, "cancelling a timer", detail);
                break;
            }
            default: {
                // waits for a huge time when cancelled by another thread
                xd::timer t(ms(1), q);
                t.handler([early] { ++*early; });
                t.resume(h);
                std::thread other([t]() mutable { t.cancel(); });
                sleep_us(rng.range(0, 500));
                must_return([&] { t.cancel(); }, "cancelling a timer", detail);
                must_return([&] { other.join(); }, "cancelling a timer", detail);
                break;
            }
        }
        vh::stat("extreme_values", 2);
    }
    sleep_us(rng.range(5000, 40000));
    if (*early > 0) {
        std::string all;
        for (const auto h : hs) {
            all += str(h.count(), " ");
        }
        violation("extreme-early:delay", str(early->load(), " operations with huge delays executed early, delays: ", all));
    }
    for (auto& t : pending) {
        must_return([&] { t.cancel(); }, "cancelling a timer");
    }
    trace(log);
}

// the number of threads may be configured in any way
static void
extreme_config(Rng& rng, int)
{
    Log log(1000);
    auto n = std::make_shared<std::atomic<int>>(0);
    const int k = scaled(rng.range(1, 300));
    for (int i = 0; i < k; ++i) {
        some_queue(rng).async([n, &log, i] {
            log.add(1, i);
            ++*n;
        });
    }
    auto g = make_group();
    parallel("p").async([g] {
        g.async([] {}, parallel("q"));
        g.wait();
    });
    must([n, k] { return *n == k; }, "operations to execute", [] { return str("XDISPATCH2_THREAD_COUNT=", getenv("XDISPATCH2_THREAD_COUNT") ? getenv("XDISPATCH2_THREAD_COUNT") : "(unset)"); });
    must_return([g] { g.wait(); }, "a group to complete");
    trace(log);
}

int
main(int argc, char** argv)
{
#if defined(VH_QT)
    // Qt delivers no events without
    QCoreApplication app(argc, argv);
#endif
    return run_main(argc,
                    argv,
                    {
                      { "visibility", visibility },
                      { "mixed", mixed },
                      { "backends", backends },
                      { "extreme_waits", extreme_waits },
                      { "extreme_delays", extreme_delays },
                      { "extreme_config", extreme_config },
                    });
}
