// Workloads and monitors for signals, connections and barriers.
#include "util.h"

#include "xdispatch/barrier_operation.h"
#include "xdispatch/signals.h"
#include "xdispatch/signals_barrier.h"

#include <list>
#include <map>
#include <set>

using namespace vh;
namespace xd = xdispatch;
using xd::notification_mode;

enum Kind
{
    EMIT = 1,
    EMITTED,
    CALL,
    CALL_END,
    DISCONNECT,
    DISCONNECTED,
    SKIP,
    SKIPPED,
    CONNECT,
    CONNECTED,
};

static xd::queue
pick_queue(Rng& rng, bool& ser)
{
    if (rng.chance(6)) {
        ser = false;
        return parallel("g");
    }
    return any_queue(rng, ser);
}

// ---- C12 -----------------------------------------------------------------------
struct Payload
{
    int emitter = 0;
    int seq = 0;
    std::vector<int> data;
};

using Sig = xd::signal<void(int, const std::string&, std::shared_ptr<Payload>)>;

struct Receiver
{
    Receiver(int emitters, int per)
      : counts(static_cast<size_t>(emitters * per))
      , last(static_cast<size_t>(emitters), -1)
      , log(static_cast<size_t>(emitters * per * 2 + 64))
      , per(per)
    {}
    std::vector<std::atomic<int>> counts;
    // serial queues only
    std::vector<int> last;
    Log log;
    const int per;
    bool ser = false;
    bool grouped = false;
    std::atomic<int> active{ 0 };
    std::atomic<long> calls{ 0 };
    xd::connection connection;
    // positions in the log of emits
    size_t connect_begin = 0;
    size_t connect_end = 0;
    long us = 0;

    void call(int emitter, const std::string& text, const std::shared_ptr<Payload>& p)
    {
        if (ser && 0 != active++) {
            violation("signal-overlap", "two invocations of a handler on a serial queue overlapped");
        }
        if (!p || p->emitter != emitter || text != std::to_string(emitter) + "/" + std::to_string(p->seq) + "/some text to be allocated" || p->data.size() != 3 || p->data[2] != p->seq) {
            violation("signal-values", str("the handler was invoked with values different from those emitted: ", emitter, " '", text, "'"));
            return;
        }
        log.add(CALL, emitter, p->seq);
        if (1 < ++counts[static_cast<size_t>(emitter * per + p->seq)]) {
            violation("signal-twice", str("emit ", emitter, "/", p->seq, " was delivered more than once to a handler"));
        }
        if (ser) {
            if (last[static_cast<size_t>(emitter)] >= p->seq) {
                violation("signal-order", str("emit ", emitter, "/", p->seq, " was delivered after ", last[static_cast<size_t>(emitter)], " on a serial queue: ", log.tail()));
            }
            last[static_cast<size_t>(emitter)] = p->seq;
        }
        if (us) {
            spin_us(us);
        }
        if (ser) {
            --active;
        }
        ++calls;
    }
};

static void
emit_random(Rng& rng, int)
{
    Noise noise(rng);
    const int emitters = rng.range(1, 4);
    const int per = scaled(rng.range(5, 80));
    const int handlers = rng.range(1, 5);
    const bool grouped = rng.chance(2);
    const bool chained = rng.chance(3);
    auto log = std::make_shared<Log>(static_cast<size_t>(emitters * per * 2 + handlers * 4 + 64));
    std::unique_ptr<xd::group> g;
    std::unique_ptr<Sig> outer;
    std::unique_ptr<Sig> sig;
    if (grouped) {
        g.reset(new xd::group(make_group()));
        sig.reset(new Sig(*g));
    } else {
        sig.reset(new Sig());
    }
    // a tree of signals: outer emits sig and maybe others, in any order of connecting
    xd::connection chain;
    std::list<Sig> more;
    std::list<xd::connection> more_chains;
    std::vector<Sig*> nodes;
    if (chained) {
        outer.reset(new Sig());
        nodes.push_back(outer.get());
    } else {
        nodes.push_back(sig.get());
    }
    auto grow = [&] {
        if (!chained) {
            return;
        }
        if (1 == nodes.size()) {
            chain = outer->connect(*sig);
            nodes.push_back(sig.get());
        } else if (nodes.size() < 5) {
            more.emplace_back();
            more_chains.push_back(nodes[rng.below(nodes.size())]->connect(more.back()));
            nodes.push_back(&more.back());
        }
    };
    if (!rng.chance(3)) {
        grow();
    }
    Sig& out = chained ? *outer : *sig;
    std::vector<std::shared_ptr<Receiver>> rs;
    struct Member
    {
        std::shared_ptr<Receiver> r;
        void on(int e, const std::string& s, std::shared_ptr<Payload> p) { r->call(e, s, p); }
    };
    std::list<Member> members;
    auto connect = [&](Rng& r) {
        auto x = std::make_shared<Receiver>(emitters, per);
        auto q = pick_queue(r, x->ser);
        x->us = r.chance(3) ? static_cast<long>(r.below(100)) : 0;
        Sig* const to = nodes[r.below(nodes.size())];
        x->grouped = to == sig.get() && grouped;
        x->connect_begin = log->add(CONNECT);
        if (r.chance(3)) {
            members.push_back(Member{ x });
            x->connection = to->connect(&members.back(), &Member::on, q);
        } else {
            x->connection = to->connect([x](int e, const std::string& s, const std::shared_ptr<Payload>& p) { x->call(e, s, p); }, q);
        }
        x->connect_end = log->add(CONNECTED);
        rs.push_back(x);
    };
    const int early = rng.range(handlers > 1 ? 1 : handlers, handlers);
    for (int i = 0; i < early; ++i) {
        connect(rng);
        if (rng.chance(2)) {
            grow();
        }
    }
    while (chained && nodes.size() < 2) {
        grow();
    }
    const auto seed = rng.next();
    const auto first = rs;
    // positions of begin and end of each emit
    std::vector<size_t> begin(static_cast<size_t>(emitters * per));
    std::vector<size_t> end(static_cast<size_t>(emitters * per));
    must_return(
      [&] {
          run_threads(emitters + 1, [&](int t) {
              Rng r(seed + static_cast<uint64_t>(t));
              if (t == emitters) {
                  for (int i = early; i < handlers; ++i) {
                      jitter(r, 2000);
                      connect(r);
                  }
                  return;
              }
              for (int i = 0; i < per; ++i) {
                  auto p = std::make_shared<Payload>();
                  p->emitter = t;
                  p->seq = i;
                  p->data = { t, i, i };
                  begin[static_cast<size_t>(t * per + i)] = log->add(EMIT, t, i);
                  out(t, std::to_string(t) + "/" + std::to_string(i) + "/some text to be allocated", p);
                  end[static_cast<size_t>(t * per + i)] = log->add(EMITTED, t, i);
                  if (grouped && r.chance(15)) {
                      g->wait(ms(-1));
                      // everything emitted by this thread was delivered
                      for (auto& x : first) {
                          for (int k = 0; k <= i && x->grouped; ++k) {
                              if (1 != x->counts[static_cast<size_t>(t * per + k)]) {
                                  violation("signal-group", str("the group of a signal was complete but emit ", t, "/", k, " was delivered ", x->counts[static_cast<size_t>(t * per + k)].load(), " times"));
                              }
                          }
                      }
                  }
                  jitter(r, 100);
              }
          });
      },
      "emitting a signal");
    // emits made after the handler was connected and not delivered so far
    auto missing = [&](Receiver& x) {
        long n = 0;
        for (size_t k = 0; k < begin.size(); ++k) {
            n += begin[k] > x.connect_end && x.counts[k] < 1;
        }
        return n;
    };
    if (grouped) {
        must_return([&] { g->wait(ms(-1)); }, "the group of a signal");
    }
    for (auto& x : rs) {
        if (x->grouped && missing(*x) > 0) {
            violation("signal-group", "waiting for the group of a signal did not wait for all invocations");
        }
        must([&] { return 0 == missing(*x); }, "all emits of a signal to be delivered", [&] { return str(missing(*x), " missing"); });
    }
    must_return(
      [&] {
          for (auto& x : rs) {
              // drain
              x->connection.disconnect();
          }
      },
      "disconnect()");
    for (auto& x : rs) {
        for (size_t k = 0; k < begin.size(); ++k) {
            const int c = x->counts[k];
            if (begin[k] > x->connect_end && c != 1) {
                violation("signal-count", str("emit ", k / static_cast<size_t>(per), "/", k % static_cast<size_t>(per), " was delivered ", c, " times to a handler connected before"));
                break;
            }
            if (end[k] < x->connect_begin && c != 0) {
                violation("signal-before-connect", "a handler was invoked for an emit made before it got connected");
                break;
            }
        }
        stat("deliveries", x->calls);
        trace(x->log, "signal");
    }
    if (chained) {
        for (auto& c : more_chains) {
            c.disconnect();
        }
        chain.disconnect();
        // a null pointer would be reported
        xd::queue q = serial("after");
        std::atomic<int> late{ 0 };
        auto c = sig->connect([&](int, const std::string&, const std::shared_ptr<Payload>&) { ++late; }, q);
        out(0, "x", std::shared_ptr<Payload>());
        std::atomic<bool> flushed{ false };
        q.async([&] { flushed = true; });
        must([&] { return flushed.load(); }, "operation of a serial queue");
        must_return([&] { c.disconnect(); }, "disconnect()");
        if (0 != late) {
            violation("signal-after-disconnect", "a chained signal was emitted after it got disconnected");
        }
    }
}

// real time order of emits by different threads on a serial queue
static void
emit_order(Rng& rng, int)
{
    const int emitters = rng.range(2, 4);
    const int per = scaled(rng.range(10, 80));
    Log log(static_cast<size_t>(emitters * per * 3 + 10));
    xd::signal<void(int)> sig;
    auto q = serial("order");
    std::atomic<int> done{ 0 };
    auto c = sig.connect(
      [&](int id) {
          log.add(CALL, id);
          ++done;
      },
      q);
    run_threads(emitters, [&](int t) {
        for (int i = 0; i < per; ++i) {
            const int id = t * per + i;
            log.add(EMIT, id);
            sig(id);
            log.add(EMITTED, id);
        }
    });
    must([&] { return done == emitters * per; }, "all emits of a signal to be delivered");
    std::map<int64_t, size_t> b;
    std::map<int64_t, size_t> e;
    std::vector<int64_t> order;
    for (size_t i = 0; i < log.size(); ++i) {
        if (EMIT == log[i].kind) {
            b[log[i].a] = i;
        } else if (EMITTED == log[i].kind) {
            e[log[i].a] = i;
        } else {
            order.push_back(log[i].a);
        }
    }
    size_t max_b = 0;
    for (auto id : order) {
        if (e[id] < max_b) {
            violation("signal-order", str("emit ", id, " was complete before another one began but delivered after it"));
            break;
        }
        max_b = std::max(max_b, b[id]);
    }
    c.disconnect();
    stat("deliveries", done);
    trace(log, "order");
}

// emitting does not wait for handlers
static void
emit_blocked(Rng& rng, int)
{
    auto gate = std::make_shared<Gate>();
    xd::group g = make_group();
    std::unique_ptr<xd::signal<void(int)>> sig;
    const bool grouped = rng.chance(2);
    sig.reset(grouped ? new xd::signal<void(int)>(g) : new xd::signal<void(int)>());
    std::atomic<int> done{ 0 };
    std::atomic<long> sum{ 0 };
    auto q = serial("blocked");
    auto c = sig->connect(
      [&, gate](int v) {
          gate->pass();
          sum += v;
          ++done;
      },
      q);
    std::atomic<int> other{ 0 };
    bool ser = false;
    auto c2 = sig->connect([&](int) { ++other; }, pick_queue(rng, ser));
    const int n = scaled(rng.range(3, 60));
    must_return(
      [&] {
          for (int i = 0; i < n; ++i) {
              (*sig)(i);
          }
      },
      "emitting while a handler is blocked");
    must([&] { return other == n; }, "a handler next to a blocked one");
    if (grouped && g.wait(ms(rng.range(0, 5)))) {
        violation("signal-group", "the group of a signal was complete while a handler is executing");
    }
    if (0 != done) {
        violation("signal-early", "handlers executed while blocked");
    }
    gate->open();
    if (grouped) {
        must_return([&] { g.wait(ms(-1)); }, "group of a signal");
        if (done != n) {
            violation("signal-group", str("the group of a signal was complete after ", done.load(), " of ", n, " invocations"));
        }
    }
    must([&] { return done == n; }, "all emits to be delivered once a handler is not blocked anymore", [&] { return str(done.load(), " of ", n); });
    if (sum != static_cast<long>(n) * (n - 1) / 2) {
        violation("signal-values", "values were lost");
    }
    c.disconnect();
    c2.disconnect();
    stat("deliveries", n);
    trace_hash(static_cast<uint64_t>(n) * 4 + grouped);
}

// ---- C13 -----------------------------------------------------------------------
static void
batch_gated(Rng& rng, int)
{
    auto gate = std::make_shared<Gate>();
    xd::signal<void(int)> sig;
    auto q = serial("batch");
    std::atomic<int> calls{ 0 };
    std::atomic<int> single{ 0 };
    struct Member
    {
        std::atomic<int>& n;
        void on(int) { ++n; }
    };
    Member batched{ calls };
    Member each{ single };
    auto c = rng.chance(2) ? sig.connect([&](int) { ++calls; }, q, notification_mode::batch_updates) : sig.connect(&batched, &Member::on, q, notification_mode::batch_updates);
    auto c2 = rng.chance(2) ? sig.connect([&](int) { ++single; }, q, notification_mode::single_updates) : sig.connect(&each, &Member::on, q, notification_mode::single_updates);
    int total = 0;
    int expect = 0;
    for (int round = 0; round < scaled(8) && !any_violation(); ++round) {
        std::atomic<bool> entered{ false };
        gate->close();
        q.async([&, gate] {
            entered = true;
            gate->pass();
        });
        must([&] { return entered.load(); }, "operation of a serial queue");
        const int n = rng.range(1, 20);
        const int threads = rng.range(1, 3);
        run_threads(threads, [&](int) {
            for (int i = 0; i < n; ++i) {
                sig(i);
            }
        });
        total += n * threads;
        ++expect;
        gate->open();
        must([&] { return single == total; }, "single updates to be delivered");
        must([&] { return calls >= expect; }, "batch update", [&] { return str(calls.load(), " of ", expect); });
        std::atomic<bool> flushed{ false };
        q.async([&] { flushed = true; });
        must([&] { return flushed.load(); }, "operation of a serial queue");
        if (calls != expect) {
            violation("batch-count", str(calls.load() - expect + 1, " invocations for emits made while one was pending"));
        }
    }
    c.disconnect();
    c2.disconnect();
    stat("batches", expect);
    trace_hash(static_cast<uint64_t>(total) * 100 + static_cast<uint64_t>(expect));
}

static void
batch_stress(Rng& rng, int)
{
    xd::signal<void(int)> sig;
    bool ser = false;
    auto q = pick_queue(rng, ser);
    const int emitters = rng.range(1, 3);
    const int rounds = scaled(rng.range(3, 12));
    Log log(static_cast<size_t>(rounds) * 4000 + 1000);
    struct State
    {
        std::atomic<int> started{ 0 };
        std::atomic<int> ended{ 0 };
        std::atomic<uint64_t> last_start{ 0 };
    };
    auto st = std::make_shared<State>();
    const int what = rng.range(0, 4);
    const long us = rng.chance(2) ? 0 : static_cast<long>(rng.below(300));
    std::atomic<int> emits{ 0 };
    std::atomic<int> self{ 0 };
    // values known to a handler are protected by the emit preceding it
    std::atomic<int> newest{ 0 };
    std::atomic<int> seen{ 0 };
    std::atomic<int> inside{ 0 };
    auto c = sig.connect(
      [&, st](int) {
          ++inside;
          ++st->started;
          const auto v = newest.load();
          int s = seen.load();
          while (s < v && !seen.compare_exchange_weak(s, v)) {
          }
          log.add(CALL, v);
          if (us) {
              spin_us(us);
          }
          // whatever a handler does must not disturb later updates
          if (1 == what && self < 50) {
              ++self;
              ++emits;
              sig(-1);
          } else if (2 == what) {
              sleep_us(static_cast<long>(us));
          } else if (3 == what) {
              xd::signal<void(int)> other;
              auto o = other.connect([](int) {}, xd::global_queue(), notification_mode::batch_updates);
              other(1);
              o.disconnect();
          }
          ++st->ended;
          --inside;
      },
      q,
      notification_mode::batch_updates);
    auto extra = sig.connect([](int) {}, parallel("x"), notification_mode::batch_updates);
    const auto seed = rng.next();
    for (int round = 0; round < rounds && !any_violation(); ++round) {
        run_threads(emitters, [&](int t) {
            Rng r(seed + static_cast<uint64_t>(t + round * 17));
            for (int i = 0, n = r.range(1, 25); i < n; ++i) {
                const int v = ++newest;
                ++emits;
                log.add(EMIT, v);
                sig(v);
                log.add(EMITTED, v);
                jitter(r, 60);
            }
        });
        const int last = newest;
        must([&] { return seen >= last; }, "an invocation after the last emit in batch mode", [&] { return str("emit ", last, ", newest seen ", seen.load(), "; ", log.tail()); });
    }
    must([&] { return 0 == inside; }, "handler");
    sleep_us(500);
    must([&] { return 0 == inside; }, "handler");
    if (st->started > emits) {
        violation("batch-more-than-emits", str(st->started.load(), " invocations for ", emits.load(), " emits"));
    }
    must_return([&] { c.disconnect(); }, "disconnect()");
    extra.disconnect();
    stat("batch_invocations", st->started);
    stat("batch_emits", emits);
    trace(log, "batch");
}

// ---- C14 -----------------------------------------------------------------------
struct Watch
{
    explicit Watch(size_t cap = 8192)
      : log(cap)
    {}
    Log log;
    std::atomic<int> active{ 0 };
    std::atomic<int> calls{ 0 };
    std::atomic<bool> forbidden{ false };
    std::atomic<long> live{ 0 };

    void call(long us, int v)
    {
        ++active;
        log.add(CALL, v);
        if (forbidden) {
            violation("handler-after-disconnect", str("the handler was started after disconnecting returned: ", log.tail()));
        }
        if (us > 0) {
            spin_us(us);
        } else if (us < 0) {
            sleep_us(-us);
        }
        if (forbidden) {
            violation("handler-active-after-disconnect", str("the handler was executing after disconnecting returned: ", log.tail()));
        }
        ++calls;
        log.add(CALL_END, v);
        --active;
    }
    void gone(const char* what)
    {
        if (0 != active) {
            violation("handler-active-after-disconnect", str(what, " returned while the handler is executing: ", log.tail()));
        }
        forbidden = true;
        log.add(DISCONNECTED);
    }
};

static void
disconnect_race(Rng& rng, int)
{
    for (int round = 0; round < scaled(10) && !any_violation(); ++round) {
        auto w = std::make_shared<Watch>();
        bool ser = false;
        auto q = pick_queue(rng, ser);
        const bool grouped = rng.chance(4);
        xd::group g = make_group();
        std::unique_ptr<xd::signal<void(int)>> sig(grouped ? new xd::signal<void(int)>(g) : new xd::signal<void(int)>());
        const long us = rng.chance(3) ? 0 : rng.chance(2) ? static_cast<long>(rng.below(300)) : -static_cast<long>(rng.below(1500));
        xd::connection c;
        const auto mode = rng.chance(4) ? notification_mode::batch_updates : notification_mode::single_updates;
        {
            Token token(&w->live);
            c = sig->connect(
              [w, us, token](int v) {
                  if (!token.alive()) {
                      violation("handler-released", "the handler was executed after being released");
                  }
                  w->call(us, v);
              },
              q,
              mode);
        }
        std::atomic<int> others{ 0 };
        auto c2 = sig->connect([&](int) { ++others; }, parallel("o"));
        const int how = rng.range(0, 4);
        const int emitters = how == 3 ? 0 : rng.range(1, 2);
        const int disconnecters = how >= 2 ? 1 : rng.range(1, 4);
        const auto seed = rng.next();
        std::atomic<int> emitted{ 0 };
        if (how == 3) {
            for (int i = 0; i < 20; ++i) {
                (*sig)(i);
                ++emitted;
            }
        }
        std::unique_ptr<xd::scoped_connection> scope;
        std::unique_ptr<xd::connection_manager> manager;
        if (2 == how) {
            scope.reset(new xd::scoped_connection(c));
        } else if (4 == how) {
            manager.reset(new xd::connection_manager());
            *manager += c;
        }
        must_return(
          [&] {
              run_threads(emitters + disconnecters, [&](int t) {
                  Rng r(seed + static_cast<uint64_t>(t));
                  if (t < emitters) {
                      for (int i = 0, n = r.range(1, 50); i < n; ++i) {
                          (*sig)(t * 100 + i);
                          ++emitted;
                          jitter(r, 120);
                      }
                      return;
                  }
                  jitter(r, 2500);
                  w->log.add(DISCONNECT, t, how);
                  const auto act = [&] {
                      switch (how) {
                          case 0: {
                              auto mine = c;
                              mine.disconnect();
                              break;
                          }
                          case 1: {
                              auto mine = c;
                              sig->disconnect(mine);
                              break;
                          }
                          case 2:
                              if (r.chance(2)) {
                                  scope.reset();
                              } else if (r.chance(2)) {
                                  *scope = xd::scoped_connection();
                              } else {
                                  *scope = xd::connection();
                              }
                              break;
                          case 3:
                              sig.reset();
                              break;
                          case 4:
                              if (r.chance(3)) {
                                  manager->reset_connections();
                              } else if (r.chance(2)) {
                                  manager->reset_connections_with(*sig);
                              } else {
                                  manager.reset();
                              }
                              break;
                          default:
                              break;
                      }
                      w->gone("disconnecting");
                  };
                  if (t == emitters && r.chance(3)) {
                      // by the handler of another signal
                      xd::signal<void(int)> outer;
                      std::atomic<bool> left{ false };
                      auto by = outer.connect(
                        [&](int) {
                            act();
                            left = true;
                        },
                        serial("outer"));
                      outer(0);
                      while (!left) {
                          sleep_us(50);
                      }
                      by.disconnect();
                  } else {
                      act();
                  }
              });
          },
          "disconnecting a handler",
          [&] { return str("variant ", how, ": ", w->log.tail()); });
        // never again
        if (sig) {
            for (int i = 0; i < 3; ++i) {
                (*sig)(1000 + i);
                ++emitted;
            }
            must([&] { return others == emitted; }, "another handler of the signal", [&] { return str(others.load(), " of ", emitted.load()); });
            const bool released = 0 == w->live;
            if (c.disconnect() && released) {
                violation("connection-state", "disconnecting a connection again reported success");
            }
        }
        stat("calls", w->calls);
        trace(w->log, "disconnect");
        if (scope) {
            scope.reset();
        }
        manager.reset();
        must([&] { return 0 == w->live; }, "a disconnected handler to be released");
        if (c.connected()) {
            violation("connection-state", "a connection is connected after it was disconnected and released");
        }
        if (sig) {
            c2.disconnect();
        }
        if (!sig) {
            must([&] { return others <= emitted; }, "");
        }
    }
}

// the queue is blocked with many invocations pending
static void
disconnect_pending(Rng& rng, int)
{
    auto w = std::make_shared<Watch>();
    auto other = std::make_shared<std::atomic<int>>(0);
    auto gate = std::make_shared<Gate>();
    std::atomic<bool> entered{ false };
    auto q = serial("pending");
    auto sig = std::make_shared<xd::signal<void(int)>>();
    xd::connection c;
    {
        Token token(&w->live);
        c = sig->connect([w, token](int v) { w->call(0, v); }, q);
    }
    auto c2 = sig->connect([other](int) { ++*other; }, q);
    q.async([gate, &entered] {
        entered = true;
        gate->pass();
    });
    must([&] { return entered.load(); }, "operation of a serial queue");
    const int n = rng.range(1, 30);
    for (int i = 0; i < n; ++i) {
        (*sig)(i);
    }
    const int how = rng.range(0, 3);
    must_return(
      [&] {
          switch (how) {
              case 0:
                  c.disconnect();
                  break;
              case 1:
                  sig->disconnect(c);
                  break;
              case 2:
                  run_threads(3, [&](int) { xd::connection(c).disconnect(); });
                  break;
              default: {
                  c2.disconnect();
                  sig.reset();
                  break;
              }
          }
      },
      "disconnecting while invocations are pending");
    w->gone("disconnecting");
    gate->open();
    if (3 != how) {
        must([&] { return *other == n; }, "invocations of another handler");
        (*sig)(0);
        must([&] { return *other == n + 1; }, "invocations of another handler");
    }
    std::atomic<bool> flushed{ false };
    q.async([&flushed] { flushed = true; });
    must([&] { return flushed.load(); }, "operation of a serial queue");
    if (0 != w->calls) {
        violation("handler-after-disconnect", "a pending invocation was executed after disconnecting");
    }
    if (3 == how && 0 != *other) {
        violation("handler-after-disconnect", "a pending invocation was executed after disconnecting");
    }
    must([&] { return 0 == w->live; }, "a disconnected handler to be released");
    stat("pending", n);
    trace(w->log, "pending");
}

// from within the handler
static void
disconnect_self(Rng& rng, int)
{
    for (int round = 0; round < scaled(8) && !any_violation(); ++round) {
        auto w = std::make_shared<Watch>(2048);
        bool ser = false;
        auto q = pick_queue(rng, ser);
        auto sig = std::make_shared<xd::signal<void(int)>>();
        auto c = std::make_shared<xd::connection>();
        auto ready = std::make_shared<Gate>();
        auto ended = std::make_shared<std::atomic<bool>>(false);
        auto begun = std::make_shared<std::atomic<bool>>(false);
        auto entered = std::make_shared<std::atomic<int>>(0);
        const int at = rng.range(1, 5);
        const long tail = static_cast<long>(rng.below(1500));
        const bool via_signal = rng.chance(3);
        {
            Token token(&w->live);
            *c = sig->connect(
              [=](int v) {
                  ready->pass();
                  const int n = ++*entered;
                  if (*ended) {
                      // others may be executing concurrently on a parallel queue
                      if (ser) {
                          violation("handler-after-disconnect", "the handler was started after it had disconnected itself");
                      }
                  }
                  w->call(0, v);
                  if (n == at) {
                      xd::connection mine = *c;
                      *begun = true;
                      if (via_signal) {
                          sig->disconnect(mine);
                      } else {
                          mine.disconnect();
                      }
                      sleep_us(tail);
                      if (!token.alive()) {
                          violation("handler-released", "the handler was released while executing");
                      }
                      *ended = true;
                  }
              },
              q);
        }
        ready->open();
        std::atomic<int> others{ 0 };
        auto c2 = sig->connect([&](int) { ++others; }, serial("other"));
        const int n = 20;
        for (int i = 0; i < n; ++i) {
            (*sig)(i);
        }
        must([&] { return begun->load(); }, "handler of a signal");
        if (rng.chance(2)) {
            must_return(
              [&] {
                  run_threads(rng.range(1, 3), [&](int) {
                      xd::connection mine = *c;
                      mine.disconnect();
                      // an invalidated copy can not tell
                      if (ser && !*ended && w->live > 0 && false) {
                          violation("handler-active-after-disconnect", "disconnecting returned while the handler, which had disconnected itself, is still executing");
                      }
                  });
              },
              "disconnecting a handler which disconnects itself");
        }
        must([&] { return ended->load(); }, "a handler disconnecting itself", [&] { return w->log.tail(); });
        must([&] { return others == n; }, "another handler of the signal");
        for (int i = 0; i < 3; ++i) {
            (*sig)(i);
        }
        must([&] { return others == n + 3; }, "another handler of the signal");
        if (ser && w->calls != at) {
            violation("handler-after-disconnect", str(w->calls.load(), " invocations, the handler disconnected itself in invocation ", at));
        }
        c2.disconnect();
        stat("calls", w->calls);
        trace(w->log, "self");
        c->disconnect();
        sig.reset();
        must([&] { return 0 == w->live; }, "a disconnected handler to be released");
    }
}

// several threads disconnect the same connection while it executes on several threads
static void
disconnect_copies(Rng& rng, int)
{
    for (int round = 0; round < scaled(10) && !any_violation(); ++round) {
        auto w = std::make_shared<Watch>(4096);
        auto sig = std::make_shared<xd::signal<void(int)>>();
        bool ser = false;
        auto q = any_queue(rng, ser);
        const long us = -static_cast<long>(200 + rng.below(3000));
        auto c = sig->connect([w, us](int v) { w->call(us, v); }, q);
        for (int i = 0; i < 30; ++i) {
            (*sig)(i);
        }
        must([&] { return w->active > 0 || w->calls > 0; }, "handler of a signal");
        const int n = rng.range(2, 5);
        const auto seed = rng.next();
        must_return(
          [&] {
              run_threads(n, [&](int t) {
                  Rng r(seed + static_cast<uint64_t>(t));
                  jitter(r, 200);
                  auto mine = c;
                  if (r.chance(2)) {
                      mine.disconnect();
                  } else if (r.chance(2)) {
                      sig->disconnect(mine);
                  } else {
                      xd::scoped_connection s(mine);
                  }
                  w->gone("disconnecting a copy");
              });
          },
          "disconnecting copies of a connection");
        stat("calls", w->calls);
        trace(w->log, "copies");
    }
}

// ---- C15 -----------------------------------------------------------------------
static void
lifecycle(Rng& rng, int)
{
    using S = xd::signal<void(int)>;
    struct Slot
    {
        std::mutex CS;
        std::shared_ptr<S> s;
    };
    auto live = std::make_shared<std::atomic<long>>(0);
    auto calls = std::make_shared<std::atomic<long>>(0);
    const int slots = 3;
    const int threads = rng.range(2, 4);
    const int steps = scaled(rng.range(20, 120));
    std::vector<Slot> sig(static_cast<size_t>(slots));
    for (auto& s : sig) {
        s.s = std::make_shared<S>();
    }
    std::mutex pool_CS;
    std::vector<xd::connection> pool;
    auto manager = std::make_shared<xd::connection_manager>();
    std::vector<xd::queue> queues;
    for (int i = 0; i < 3; ++i) {
        bool ser = false;
        queues.push_back(pick_queue(rng, ser));
    }
    const auto seed = rng.next();
    std::atomic<long> ops{ 0 };
    must_return(
      [&] {
          run_threads(threads, [&](int t) {
              Rng r(seed + static_cast<uint64_t>(t) * 7);
              xd::connection mine;
              xd::scoped_connection scoped;
              std::list<xd::connection_manager> managers(1);
              auto get = [&]() -> std::shared_ptr<S> {
                  auto& s = sig[r.below(slots)];
                  std::lock_guard<std::mutex> lock(s.CS);
                  return s.s;
              };
              auto borrow = [&]() -> xd::connection {
                  std::lock_guard<std::mutex> lock(pool_CS);
                  return pool.empty() ? xd::connection() : pool[r.below(pool.size())];
              };
              for (int i = 0; i < steps; ++i) {
                  ++ops;
                  switch (r.below(16)) {
                      case 0:
                      case 1:
                      case 2: {
                          auto s = get();
                          Token token(live.get());
                          const int what = r.range(0, 7);
                          // handlers using what they are called by
                          auto other = borrow();
                          std::weak_ptr<xd::connection_manager> wm = manager;
                          std::weak_ptr<S> ws = s;
                          const auto mode = r.chance(3) ? notification_mode::batch_updates : notification_mode::single_updates;
                          mine = s->connect(
                            [=](int v) mutable {
                                if (!token.alive()) {
                                    violation("handler-released", "the handler was executed after being released");
                                }
                                ++*calls;
                                if (0 == what) {
                                    auto o = other;
                                    o.connected();
                                } else if (1 == what) {
                                    if (auto m = wm.lock()) {
                                        xd::connection c = other;
                                        *m += c;
                                    }
                                } else if (2 == what && v > 0) {
                                    if (auto x = ws.lock()) {
                                        (*x)(v - 1);
                                    }
                                } else if (3 == what) {
                                    spin_us(50);
                                }
                            },
                            queues[r.below(queues.size())],
                            mode);
                          if (!mine.is_connected_to(*s)) {
                              violation("connection-state", "is_connected_to() is false for the signal connected to");
                          }
                          std::lock_guard<std::mutex> lock(pool_CS);
                          pool.push_back(mine);
                          break;
                      }
                      case 3:
                      case 4:
                      case 5: {
                          auto s = get();
                          (*s)(r.range(0, 3));
                          break;
                      }
                      case 6: {
                          // replaces a signal, destroyed by whoever holds it last
                          auto& s = sig[r.below(slots)];
                          auto n = std::make_shared<S>();
                          std::shared_ptr<S> old;
                          {
                              std::lock_guard<std::mutex> lock(s.CS);
                              old = s.s;
                              s.s = n;
                          }
                          old.reset();
                          break;
                      }
                      case 7: {
                          auto c = borrow();
                          c.disconnect();
                          if (c.connected()) {
                              violation("connection-state", "connected() after disconnect()");
                          }
                          break;
                      }
                      case 8: {
                          auto c = borrow();
                          xd::connection copy = c;
                          if (!(copy == c) || copy != c) {
                              // released by somebody else in between
                              if (c.connected() && copy.connected()) {
                                  violation("connection-state", "a copy of a connection is not equal");
                              }
                          }
                          break;
                      }
                      case 9: {
                          scoped = borrow();
                          break;
                      }
                      case 10: {
                          xd::scoped_connection other(std::move(scoped));
                          scoped = std::move(other);
                          if (other.connected()) {
                              violation("connection-state", "moved from but connected");
                          }
                          break;
                      }
                      case 11: {
                          managers.back() += borrow();
                          if (r.chance(3)) {
                              managers.emplace_back();
                          }
                          break;
                      }
                      case 12: {
                          auto s = get();
                          managers.front().reset_connections_with(*s);
                          break;
                      }
                      case 13:
                          if (r.chance(2)) {
                              manager->reset_connections();
                          } else if (managers.size() > 1) {
                              managers.pop_front();
                          }
                          break;
                      case 14: {
                          auto s = get();
                          auto c = borrow();
                          if (c.is_connected_to(*s)) {
                              s->disconnect(c);
                          }
                          break;
                      }
                      case 15: {
                          auto s = get();
                          s->skip_all();
                          auto c = scoped.take();
                          c.disconnect();
                          break;
                      }
                      default:
                          break;
                  }
                  jitter(r, 40);
              }
          });
      },
      "using signals and connections from several threads",
      [&] { return str(ops.load(), " steps"); });
    // in any order
    std::vector<int> order = { 0, 1, 2 };
    for (int i = 2; i > 0; --i) {
        std::swap(order[static_cast<size_t>(i)], order[rng.below(static_cast<uint64_t>(i + 1))]);
    }
    must_return(
      [&] {
          for (int o : order) {
              switch (o) {
                  case 0:
                      for (auto& s : sig) {
                          s.s.reset();
                      }
                      break;
                  case 1:
                      manager.reset();
                      break;
                  default:
                      for (auto& c : pool) {
                          c.disconnect();
                      }
                      break;
              }
          }
      },
      "destroying signals and connections");
    must([&] { return 0 == *live; }, "all handlers to be released after signals and connections are gone", [&] { return str(live->load(), " alive"); });
    for (auto& c : pool) {
        if (c.connected()) {
            violation("connection-state", "a connection to a destroyed signal is connected");
            break;
        }
    }
    stat("lifecycle_steps", ops);
    stat("calls", *calls);
    trace_hash(rng.next() + static_cast<uint64_t>(*calls));
}

// sequential specification of connection handles
static void
handles(Rng& rng, int)
{
    using S = xd::signal<void(int)>;
    struct Model
    {
        int id = 0; // 0: nothing
        int sig = -1;
    };
    auto live = std::make_shared<std::atomic<long>>(0);
    std::vector<std::unique_ptr<S>> sigs;
    for (int i = 0; i < 3; ++i) {
        sigs.emplace_back(new S());
    }
    auto q = serial("handles");
    auto counts = std::make_shared<std::map<int, int>>();
    std::set<int> connected;
    std::map<int, int> signal_of;
    std::vector<xd::connection> cs(6);
    std::vector<Model> cm(6);
    std::vector<xd::scoped_connection> ss(4);
    std::vector<Model> sm(4);
    std::unique_ptr<xd::connection_manager> man(new xd::connection_manager());
    std::vector<int> managed;
    std::map<int, int> expected;
    int next = 1;
    auto flush = [&] {
        std::atomic<bool> f{ false };
        q.async([&f] { f = true; });
        must([&] { return f.load(); }, "operation of a serial queue");
        // the invocation is released after it executed
        std::atomic<bool> f2{ false };
        q.async([&f2] { f2 = true; });
        must([&] { return f2.load(); }, "operation of a serial queue");
    };
    auto drop = [&](int id) { connected.erase(id); };
    for (int step = 0, n = scaled(rng.range(30, 150)); step < n && !any_violation(); ++step) {
        const auto a = rng.below(cs.size());
        const auto b = rng.below(cs.size());
        const auto x = rng.below(ss.size());
        const auto y = rng.below(ss.size());
        const auto k = rng.below(sigs.size());
        flush();
        switch (rng.below(13)) {
            case 0:
            case 1: {
                Token token(live.get());
                const int id = next++;
                cs[a] = sigs[k]->connect([counts, id, token](int) { ++(*counts)[id]; }, q);
                cm[a].id = id;
                cm[a].sig = static_cast<int>(k);
                connected.insert(id);
                signal_of[id] = static_cast<int>(k);
                break;
            }
            case 2:
                cs[a] = cs[b];
                cm[a] = cm[b];
                break;
            case 3: {
                const bool was = connected.count(cm[a].id) > 0;
                const bool ret = cs[a].disconnect();
                if (was != ret) {
                    violation("connection-state", str("disconnect() returned ", ret, " for a handler that is ", was ? "" : "not ", "connected"));
                }
                drop(cm[a].id);
                cm[a] = Model();
                break;
            }
            case 4:
                ss[x] = cs[a];
                if (true) {
                    drop(sm[x].id == cm[a].id ? 0 : sm[x].id);
                    // disconnects what it managed before, also if it is the same
                    if (sm[x].id == cm[a].id) {
                        drop(sm[x].id);
                    }
                }
                sm[x] = cm[a];
                break;
            case 5:
                if (x != y) {
                    ss[x] = std::move(ss[y]);
                    drop(sm[x].id);
                    sm[x] = sm[y];
                    sm[y] = Model();
                }
                break;
            case 6: {
                cs[a] = ss[x].take();
                cm[a] = sm[x];
                sm[x] = Model();
                break;
            }
            case 7:
                *man += cs[a];
                managed.push_back(cm[a].id);
                break;
            case 8:
                if (rng.chance(2)) {
                    man->reset_connections();
                } else {
                    man.reset(new xd::connection_manager());
                }
                for (int id : managed) {
                    drop(id);
                }
                managed.clear();
                break;
            case 9: {
                man->reset_connections_with(*sigs[k]);
                std::vector<int> rest;
                for (int id : managed) {
                    if (id && signal_of[id] == static_cast<int>(k)) {
                        drop(id);
                    } else {
                        rest.push_back(id);
                    }
                }
                managed = rest;
                break;
            }
            case 10:
                sigs[k].reset(new S());
                for (auto& s : signal_of) {
                    if (s.second == static_cast<int>(k)) {
                        s.second = -2;
                        drop(s.first);
                    }
                }
                for (auto* m : { &cm, &sm }) {
                    for (auto& e : *m) {
                        if (e.sig == static_cast<int>(k)) {
                            e.sig = -2; // whatever
                        }
                    }
                }
                break;
            case 11: {
                if (cm[a].sig == static_cast<int>(k)) {
                    const bool was = connected.count(cm[a].id) > 0;
                    if (sigs[k]->disconnect(cs[a]) != was) {
                        violation("connection-state", "signal::disconnect() returned an unexpected result");
                    }
                    drop(cm[a].id);
                    // still refers to the signal
                    cs[a] = xd::connection();
                    cm[a] = Model();
                }
                break;
            }
            case 12:
                (*sigs[k])(step);
                for (int id : connected) {
                    if (signal_of[id] == static_cast<int>(k)) {
                        ++expected[id];
                    }
                }
                break;
            default:
                break;
        }
        flush();
        for (size_t i = 0; i < cs.size(); ++i) {
            if (cs[i].connected() != (connected.count(cm[i].id) > 0)) {
                violation("connection-state", str("connected() is ", cs[i].connected(), " for a handler that is ", connected.count(cm[i].id) ? "" : "not ", "connected (step ", step, ")"));
            }
            if (cm[i].sig >= 0 && connected.count(cm[i].id) && !cs[i].is_connected_to(*sigs[static_cast<size_t>(cm[i].sig)])) {
                violation("connection-state", "is_connected_to() is false for the signal connected to");
            }
            for (size_t j = 0; j < sigs.size(); ++j) {
                if (connected.count(cm[i].id) && cm[i].sig != static_cast<int>(j) && cs[i].is_connected_to(*sigs[j])) {
                    violation("connection-state", "is_connected_to() is true for another signal");
                }
            }
            for (size_t j = 0; j < cs.size(); ++j) {
                const bool ci = connected.count(cm[i].id) > 0;
                const bool cj = connected.count(cm[j].id) > 0;
                if (ci && cj) {
                    const bool same = cm[i].id == cm[j].id;
                    if ((cs[i] == cs[j]) != same || (cs[i] != cs[j]) == same) {
                        violation("connection-state", "comparing connections does not tell whether they refer to the same signal and handler");
                    }
                }
            }
        }
        for (auto& e : expected) {
            if ((*counts)[e.first] != e.second) {
                violation("connection-delivery", str("handler ", e.first, " was invoked ", (*counts)[e.first], " times instead of ", e.second));
            }
        }
        if (*live != static_cast<long>(connected.size())) {
            await([&] { return *live == static_cast<long>(connected.size()); }, "release", 1500, 20000);
            if (*live != static_cast<long>(connected.size())) {
                violation("handler-not-released", str(live->load(), " handlers are alive, ", connected.size(), " connected (step ", step, ")"));
            }
        }
        stat("handle_steps");
    }
    man.reset();
    ss.clear();
    sigs.clear();
    flush();
    must([&] { return 0 == *live; }, "all handlers to be released");
    trace_hash(rng.next());
}

// handlers owning or destroying what they are connected through
static void
reentrant(Rng& rng, int)
{
    using S = xd::signal<void(int)>;
    for (int round = 0; round < scaled(10) && !any_violation(); ++round) {
        auto live = std::make_shared<std::atomic<long>>(0);
        auto ran = std::make_shared<std::atomic<int>>(0);
        bool ser = false;
        auto q = serial("reentrant");
        auto q2 = pick_queue(rng, ser);
        auto sig = std::make_shared<S>();
        const int what = rng.range(0, 6);
        const long us = static_cast<long>(rng.below(800));
        struct Owner
        {
            explicit Owner(std::atomic<long>* l)
              : token(l)
            {}
            Token token;
            xd::connection_manager m;
            S signal;
            xd::scoped_connection scoped;
        };
        auto owner = std::make_shared<Owner>(live.get());
        auto* raw = owner.get();
        Token token(live.get());
        std::shared_ptr<Owner> given;
        auto gate = std::make_shared<Gate>();
        switch (what) {
            case 0: // the manager is reset by the handler it manages
                owner->m += sig->connect([=](int) { ++*ran; gate->pass(); raw->m.reset_connections(); }, q);
                break;
            case 1: // the handler adds to the manager which is disconnecting it
                owner->m += sig->connect([=](int) { ++*ran; gate->pass(); sleep_us(us); raw->m += xd::connection(); raw->m.reset_connections_with(*sig); }, q);
                break;
            case 2: // the handler owns the last reference of its manager
                given = owner;
                owner->m += sig->connect([=](int) mutable { ++*ran; gate->pass(); given.reset(); }, q);
                break;
            case 3: // disconnects another handler
            {
                auto other = sig->connect([=](int) { ++*ran; sleep_us(us); }, q2);
                owner->m += sig->connect([=](int) { ++*ran; gate->pass(); xd::connection o = other; o.disconnect(); }, q);
                break;
            }
            case 4: // destroys another signal with handlers pending
            {
                auto other = std::make_shared<std::shared_ptr<S>>(std::make_shared<S>());
                (*other)->connect([=](int) { ++*ran; }, q2).connected();
                (**other)(1);
                (**other)(2);
                owner->m += sig->connect([=](int) { ++*ran; gate->pass(); other->reset(); }, q);
                break;
            }
            case 5: // connects and emits from within
                owner->m += sig->connect(
                  [=](int v) {
                      ++*ran;
                      gate->pass();
                      if (v > 0) {
                          raw->m += sig->connect([=](int) { ++*ran; }, q2);
                          (*sig)(v - 1);
                      }
                  },
                  q);
                break;
            default: // its own signal
                owner->scoped = owner->signal.connect([=](int) { ++*ran; gate->pass(); sleep_us(us); }, q);
                owner->signal(1);
                owner->signal(2);
                break;
        }
        (*sig)(2);
        (*sig)(1);
        gate->open();
        if (rng.chance(2)) {
            must([&] { return *ran > 0; }, "handler of a signal");
        }
        given.reset();
        std::atomic<bool> returned{ false };
        must_return([&] { owner.reset(); }, "destroying the owner of connections while handlers are executing");
        must_return([&] { sig.reset(); }, "destroying a signal while handlers are executing");
        (void)returned;
        std::atomic<bool> f{ false };
        q.async([&f] { f = true; });
        must([&] { return f.load(); }, "queue of a handler");
        must([&] { return *live <= 1; }, "owner of connections to be released", [&] { return str(*live, " alive, variant ", what); });
        stat("reentrant", *ran);
        trace_hash(static_cast<uint64_t>(what) * 100 + static_cast<uint64_t>(*ran));
    }
}

// ---- C26 -----------------------------------------------------------------------
static void
skip_gated(Rng& rng, int)
{
    auto gate = std::make_shared<Gate>();
    using S = xd::signal<void(int)>;
    const bool grouped = rng.chance(3);
    xd::group g = make_group();
    std::unique_ptr<S> sig(grouped ? new S(g) : new S());
    auto q = serial("skip");
    auto q2 = serial("skip2");
    auto log = std::make_shared<Log>(4096);
    std::atomic<int> single{ 0 };
    std::atomic<int> batch{ 0 };
    std::atomic<int> active_done{ 0 };
    std::vector<int> got;
    auto c1 = sig->connect(
      [&](int v) {
          log->add(CALL, v);
          got.push_back(v);
          ++single;
      },
      q);
    auto c2 = sig->connect([&](int) { ++batch; }, q, notification_mode::batch_updates);
    int emitted = 0;
    int total_single = 0;
    int total_batch = 0;
    int value = 0;
    auto flush = [&] {
        std::atomic<bool> f{ false };
        q.async([&f] { f = true; });
        must([&] { return f.load(); }, "operation of a serial queue");
    };
    for (int round = 0; round < scaled(rng.range(2, 6)) && !any_violation(); ++round) {
        std::vector<int> expect;
        got.clear();
        gate->close();
        std::atomic<bool> entered{ false };
        q.async([&entered, gate] {
            entered = true;
            gate->pass();
        });
        must([&] { return entered.load(); }, "operation of a serial queue");
        for (int phase = 0, phases = rng.range(1, 3); phase < phases; ++phase) {
            for (int i = 0, n = rng.range(0, 8); i < n; ++i) {
                (*sig)(value++);
            }
            const int skips = rng.range(1, 2);
            must_return(
              [&] {
                  for (int i = 0; i < skips; ++i) {
                      sig->skip_all();
                  }
              },
              "skip_all() without waiting for handlers");
            log->add(SKIPPED);
        }
        const int n = rng.range(0, 8);
        for (int i = 0; i < n; ++i) {
            expect.push_back(value);
            (*sig)(value++);
        }
        total_single += n;
        total_batch += n > 0;
        gate->open();
        flush();
        if (single != total_single || got != expect) {
            violation("skip-single", str(got.size(), " invocations instead of the ", expect.size(), " emitted after skip_all(): ", log->tail()));
        }
        if (batch != total_batch) {
            violation("skip-batch", str(batch - total_batch + (n > 0), " invocations in batch mode instead of ", n > 0));
        }
        // all as usual afterwards
        got.clear();
        for (int i = 0; i < 3; ++i) {
            (*sig)(value++);
            flush();
            if (single != ++total_single) {
                violation("skip-later", str("an emit after skip_all() was delivered ", single - total_single + 1, " times"));
            }
            if (batch != ++total_batch) {
                violation("skip-later-batch", str("an emit after skip_all() was delivered ", batch - total_batch + 1, " times in batch mode"));
            }
        }
        ++emitted;
        if (!c1.connected() || !c2.connected()) {
            violation("skip-connection", "skip_all() disconnected a handler");
        }
    }
    if (grouped) {
        must_return([&] { g.wait(ms(-1)); }, "group of a signal after skip_all()");
    }
    c1.disconnect();
    c2.disconnect();
    stat("skips", emitted);
    trace(*log, "skip");
}

// a handler executing while skipping, or skipping itself
static void
skip_active(Rng& rng, int)
{
    using S = xd::signal<void(int)>;
    S sig;
    auto q = serial("skip");
    auto gate = std::make_shared<Gate>();
    auto entered = std::make_shared<std::atomic<bool>>(false);
    std::atomic<int> calls{ 0 };
    std::atomic<int> completed{ 0 };
    std::atomic<int> at{ -1 };
    const bool self = rng.chance(2);
    auto log = std::make_shared<Log>(2048);
    auto c = sig.connect(
      [&, gate, entered](int v) {
          ++calls;
          log->add(CALL, v);
          if (v == at) {
              *entered = true;
              if (self) {
                  sig.skip_all();
                  log->add(SKIPPED);
              } else {
                  gate->pass();
              }
          }
          ++completed;
      },
      q,
      rng.chance(4) ? notification_mode::batch_updates : notification_mode::single_updates);
    (void)c;
    for (int round = 0; round < scaled(4) && !any_violation(); ++round) {
        *entered = false;
        gate->close();
        at = round * 1000;
        const int before = calls;
        auto hold = std::make_shared<Gate>();
        q.async([hold] { hold->pass(); });
        sig(round * 1000);
        const int n = rng.range(1, 20);
        bool batch = false;
        for (int i = 1; i <= n; ++i) {
            sig(round * 1000 + i);
        }
        hold->open();
        must([&] { return entered->load(); }, "handler of a signal");
        if (!self) {
            must_return([&] { sig.skip_all(); }, "skip_all() while a handler is executing");
            log->add(SKIPPED);
            gate->open();
        }
        std::atomic<bool> f{ false };
        q.async([&f] { f = true; });
        must([&] { return f.load(); }, "operation of a serial queue");
        (void)batch;
        if (calls != before + 1 || completed != calls) {
            violation("skip-active", str(calls - before, " invocations instead of only the one executing while skipping: ", log->tail()));
        }
        // and it continues
        sig(-5);
        must([&] { return calls == before + 2; }, "an emit after skip_all() to be delivered");
        must([&] { return completed == before + 2; }, "handler");
    }
    c.disconnect();
    stat("skips", calls);
    trace(*log, "skip active");
}

// emits, executions and skips race each other
static void
skip_race(Rng& rng, int)
{
    using S = xd::signal<void(int)>;
    auto sig = std::make_shared<S>();
    bool ser = false;
    auto q = pick_queue(rng, ser);
    auto counts = std::make_shared<std::vector<std::atomic<int>>>(100000);
    auto batch = std::make_shared<std::atomic<int>>(0);
    std::atomic<int> value{ 0 };
    auto c = sig->connect([counts](int v) { ++(*counts)[static_cast<size_t>(v)]; }, q);
    std::atomic<int> last_batch{ -1 };
    auto c2 = sig->connect(
      [&, batch](int) {
          ++*batch;
          // invocations may overlap on a parallel queue
          const int v = value;
          int l = last_batch;
          while (l < v && !last_batch.compare_exchange_weak(l, v)) {
          }
      },
      q,
      notification_mode::batch_updates);
    const auto seed = rng.next();
    Log log(20000);
    for (int round = 0; round < scaled(6) && !any_violation(); ++round) {
        must_return(
          [&] {
              run_threads(3, [&](int t) {
                  Rng r(seed + static_cast<uint64_t>(t + round * 10));
                  for (int i = 0; i < 40; ++i) {
                      if (t < 2) {
                          const int v = value++;
                          log.add(EMIT, v);
                          (*sig)(v);
                          log.add(EMITTED, v);
                      } else if (r.chance(2)) {
                          log.add(SKIP);
                          sig->skip_all();
                          log.add(SKIPPED);
                      }
                      jitter(r, 60);
                  }
              });
          },
          "skip_all() next to emits");
        // those after the last skip are delivered
        const int first = value;
        const int n = rng.range(1, 10);
        for (int i = 0; i < n; ++i) {
            (*sig)(value++);
        }
        for (int v = first; v < first + n; ++v) {
            must([&] { return (*counts)[static_cast<size_t>(v)] >= 1; }, "an emit after skip_all() to be delivered");
        }
        must([&] { return last_batch >= first + n; }, "a batch update after skip_all() to be delivered", [&] { return str(last_batch.load(), " < ", first + n); });
        // and those queued before a skip and not started by then are not
        for (int v = 0; v < value; ++v) {
            if ((*counts)[static_cast<size_t>(v)] > 1) {
                violation("skip-twice", str("emit ", v, " was delivered ", (*counts)[static_cast<size_t>(v)].load(), " times"));
                break;
            }
        }
    }
    must_return(
      [&] {
          c.disconnect();
          c2.disconnect();
      },
      "disconnect() after skip_all()");
    stat("skips", value);
    trace(log, "skip race");
}

// ---- C16 -----------------------------------------------------------------------
static void
barrier_op(Rng& rng, int)
{
    for (int round = 0; round < scaled(12) && !any_violation(); ++round) {
        Log log(512);
        auto op = std::make_shared<xd::barrier_operation>();
        auto before = std::make_shared<std::atomic<int>>(0);
        auto payload = std::make_shared<long>(0);
        bool ser = true;
        auto q = serial("barrier");
        auto gate = std::make_shared<Gate>();
        if (op->has_passed() || op->wait(ms(0))) {
            violation("barrier-early", "a new barrier has passed");
        }
        const bool gated = rng.chance(2);
        const int waiters = rng.range(0, 5);
        const auto seed = rng.next();
        std::atomic<int> returned{ 0 };
        std::atomic<bool> may_pass{ !gated };
        auto wait = [&](int t) {
            Rng r(seed + static_cast<uint64_t>(t));
            jitter(r, 500);
            for (bool done = false; !done;) {
                const long time = r.chance(2) ? -1 : r.chance(3) ? 400000 : r.range(0, 10);
                const auto start = now_ns();
                const bool ret = op->wait(ms(time));
                const auto took = static_cast<double>(now_ns() - start) / 1e6;
                if (ret) {
                    if (!may_pass || 1 != *before || 77 != *payload) {
                        violation("barrier-early", str("wait(", time, ") of a barrier returned true before the operation was executed"));
                    }
                    if (!op->has_passed() || !op->wait(ms(0))) {
                        violation("barrier-state", "a barrier is not passed after wait() returned true");
                    }
                    done = true;
                } else if (time < 0 || took < static_cast<double>(time) - 1) {
                    violation("barrier-false", str("wait(", time, ") of a barrier returned false after ", took, " ms"));
                    done = true;
                }
                log.add(ret, t, time);
            }
            ++returned;
        };
        std::vector<std::thread> ts;
        const int early = static_cast<int>(rng.below(static_cast<uint64_t>(waiters) + 1));
        for (int i = 0; i < early; ++i) {
            ts.emplace_back(wait, i);
        }
        jitter(rng, 800);
        q.async([=] {
            if (gated) {
                gate->pass();
            }
            *payload = 77;
            ++*before;
        });
        if (rng.chance(2)) {
            q.async(op);
        } else {
            auto o = op;
            q.async([o] { (*o)(); });
        }
        for (int i = early; i < waiters; ++i) {
            ts.emplace_back(wait, i);
        }
        if (gated) {
            sleep_us(static_cast<long>(rng.below(3000)));
            if (op->has_passed() || op->wait(ms(rng.range(0, 3)))) {
                violation("barrier-early", "a barrier passed while the operations before it are blocked");
            }
            if (0 != returned) {
                violation("barrier-early", "a waiter was released while the operations before the barrier are blocked");
            }
            may_pass = true;
            gate->open();
        }
        must([&] { return returned == waiters; }, "all waiters of a barrier to be released", [&] { return str(returned.load(), " of ", waiters, ": ", log.tail()); });
        must_return([&] { wait(99); }, "a passed barrier to let everybody pass");
        for (auto& t : ts) {
            t.join();
        }
        stat("barriers");
        trace(log, "barrier");
    }
}

// the completion races the very first wait
static void
barrier_race(Rng& rng, int)
{
    const int n = scaled(150);
    auto q = parallel("race");
    uint64_t h = rng.next();
    for (int i = 0; i < n && !any_violation(); ++i) {
        auto op = std::make_shared<xd::barrier_operation>();
        const int waiters = rng.range(1, 3);
        std::atomic<int> passed{ 0 };
        if (rng.chance(2)) {
            q.async(op);
            jitter(rng, 15);
        } else {
            q.async(op);
        }
        if (1 == waiters) {
            must_return([&] { op->wait(ms(rng.chance(2) ? -1 : 300000)); }, "barrier with a single waiter");
        } else {
            must_return([&] { run_threads(waiters, [&](int) { passed += op->wait(ms(-1)); }); }, "barrier with several waiters");
            if (passed != waiters) {
                violation("barrier-false", "wait(-1) of a barrier returned false");
            }
        }
        if (!op->has_passed()) {
            violation("barrier-state", "has_passed() is false after waiting");
        }
    }
    stat("barriers", n);
    trace_hash(h);
}

struct NoDefault
{
    explicit NoDefault(int v)
      : v(v)
    {}
    int v;
};

static void
signal_barriers(Rng& rng, int)
{
    using S = xd::signal<void(int, std::string)>;
    using B = xd::signal_barrier<void(int, std::string)>;
    S sig;
    Log log(4096);
    for (int round = 0; round < scaled(8) && !any_violation(); ++round) {
        const int waiters = rng.range(0, 4);
        auto b = std::make_shared<B>(sig);
        bool threw = false;
        try {
            b->values();
        } catch (const std::runtime_error&) {
            threw = true;
        }
        if (!threw) {
            violation("signal-barrier-values", "values() did not throw before the signal was emitted");
        }
        if (b->wait(ms(rng.range(0, 2)))) {
            violation("signal-barrier-early", "wait() returned true before the signal was emitted");
        }
        std::atomic<bool> emitted{ false };
        std::atomic<int> released{ 0 };
        const int base = round * 100;
        std::vector<std::thread> ts;
        const auto seed = rng.next();
        auto wait = [&](int t) {
            Rng r(seed + static_cast<uint64_t>(t));
            for (;;) {
                const long time = r.chance(2) ? -1 : r.chance(3) ? 300000 : r.range(0, 8);
                const auto start = now_ns();
                const bool ret = b->wait(ms(time));
                const auto took = static_cast<double>(now_ns() - start) / 1e6;
                if (!ret) {
                    if (time < 0 || took < static_cast<double>(time) - 1) {
                        violation("signal-barrier-false", str("wait(", time, ") returned false after ", took, " ms"));
                    }
                    continue;
                }
                if (!emitted) {
                    violation("signal-barrier-early", "wait() returned true before the signal was emitted");
                }
                const auto v = b->values();
                if (std::get<0>(v) < base || std::get<0>(v) > base + 5 || std::get<1>(v) != std::to_string(std::get<0>(v)) + " some longer text") {
                    violation("signal-barrier-values", str("the values reported have not been emitted: ", std::get<0>(v), " ", std::get<1>(v)));
                }
                break;
            }
            ++released;
        };
        for (int i = 0; i < waiters; ++i) {
            ts.emplace_back(wait, i);
        }
        jitter(rng, 1500);
        emitted = true;
        const int more = rng.range(0, 5);
        sig(base, std::to_string(base) + " some longer text");
        const bool first = rng.chance(2);
        if (first) {
            // the only emit so far
            must_return([&] { wait(9); }, "a signal barrier to be released by an emit");
            if (b->value<0>() != base || b->value<1>() != std::to_string(base) + " some longer text") {
                violation("signal-barrier-values", "the values are not those of the first emit");
            }
        }
        for (int i = 1; i <= more; ++i) {
            sig(base + i, std::to_string(base + i) + " some longer text");
        }
        must([&] { return released == waiters + first; }, "all waiters of a signal barrier to be released");
        must_return([&] { wait(10); }, "a passed signal barrier to let everybody pass");
        const auto v1 = b->value<0>();
        sig(base + 4, std::to_string(base + 4) + " some longer text");
        sleep_us(static_cast<long>(rng.below(1000)));
        if (b->value<0>() != v1 || (first && v1 != base)) {
            violation("signal-barrier-values", "later emits changed the values of a signal barrier");
        }
        for (auto& t : ts) {
            t.join();
        }
        log.add(EMIT, v1, more);
        if (rng.chance(2)) {
            for (int i = 1; i < 4; ++i) {
                sig(base + i, std::to_string(base + i) + " some longer text");
            }
        }
        b.reset();
    }
    xd::signal<void(NoDefault)> other;
    {
        xd::signal_barrier<void(NoDefault)> nb(other);
        bool threw = false;
        try {
            nb.value();
        } catch (const std::runtime_error&) {
            threw = true;
        }
        if (!threw) {
            violation("signal-barrier-values", "value() did not throw before the signal was emitted");
        }
        other(NoDefault(4711));
        must_return([&] { nb.wait(ms(-1)); }, "a signal barrier");
        other(NoDefault(4712));
        if (nb.value().v != 4711) {
            violation("signal-barrier-values", "the value is not the first emitted");
        }
    }
    stat("signal_barriers", 8);
    trace(log, "signal barrier");
}

// created and destroyed at any time while the signal is emitted
static void
signal_barrier_race(Rng& rng, int)
{
    using S = xd::signal<void(std::string)>;
    S sig;
    std::atomic<bool> stop{ false };
    const auto seed = rng.next();
    const int emitters = rng.range(1, 2);
    const int users = rng.range(1, 3);
    std::atomic<long> n{ 0 };
    must_return(
      [&] {
          std::atomic<int> open{ users };
          run_threads(emitters + users, [&](int t) {
              Rng r(seed + static_cast<uint64_t>(t));
              if (t < emitters) {
                  while (open > 0) {
                      sig("the text emitted by the signal");
                      jitter(r, 200);
                      spin_us(5);
                  }
                  return;
              }
              for (int i = 0; i < scaled(40); ++i) {
                  xd::signal_barrier<void(std::string)> b(sig);
                  if (r.chance(2)) {
                      if (b.wait(ms(r.chance(2) ? -1 : r.range(0, 2)))) {
                          if (b.value() != "the text emitted by the signal") {
                              violation("signal-barrier-values", "the value has not been emitted");
                          }
                      }
                  } else {
                      jitter(r, 100);
                  }
                  ++n;
              }
              --open;
          });
      },
      "signal barriers next to emits");
    stat("signal_barriers", n);
    trace_hash(seed);
}

int
main(int argc, char** argv)
{
    return run_main(argc,
                    argv,
                    { { "emit_random", emit_random },
                      { "emit_order", emit_order },
                      { "emit_blocked", emit_blocked },
                      { "batch_gated", batch_gated },
                      { "batch_stress", batch_stress },
                      { "disconnect_race", disconnect_race },
                      { "disconnect_pending", disconnect_pending },
                      { "disconnect_self", disconnect_self },
                      { "disconnect_copies", disconnect_copies },
                      { "lifecycle", lifecycle },
                      { "handles", handles },
                      { "reentrant", reentrant },
                      { "skip_gated", skip_gated },
                      { "skip_active", skip_active },
                      { "skip_race", skip_race },
                      { "barrier_op", barrier_op },
                      { "barrier_race", barrier_race },
                      { "signal_barriers", signal_barriers },
                      { "signal_barrier_race", signal_barrier_race } });
}
