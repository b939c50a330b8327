// Verification harness shared by all drivers: seeded randomness, an event log
// at the API boundary, a quiescence-based "stuck" oracle and result reporting.
#pragma once

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "xdispatch/dispatch"
#include "xdispatch/backend_naive.h"
#include "xdispatch/backend_naive_ithreadpool.h"
#include "xdispatch/impl/ibackend.h"

namespace vh {

struct Opt
{
    std::string scenario;
    uint64_t seed = 1;
    int cases = 10;
    std::string backend = "naive";
    int scale = 100; // percent of the nominal operation count
    bool interrupts = true; // interrupt threads during some of the cases
};
extern Opt opt;

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed);
    uint64_t next();
    // in [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + static_cast<int>(below(hi - lo + 1)); }
    bool chance(int one_in) { return 0 == below(one_in); }
};

// ---- reporting ---------------------------------------------------------
void
violation(const std::string& key, const std::string& detail);
bool
any_violation();
void
stat(const char* name, long add = 1);
void
stat_max(const char* name, long value);
// ends the process at once, for use when the library is stuck
[[noreturn]] void
bail();

uint64_t
now_ns();
inline double
now_ms()
{
    return static_cast<double>(now_ns()) / 1e6;
}
int
tid();
void
sleep_us(long us);
void
spin_us(long us);

// number of heap blocks allocated through operator new and not freed yet
long
live_blocks();
long
live_bytes();

// ---- stuck oracle --------------------------------------------------------
// Waits until pred() holds. When no other thread of this process has been
// scheduled at all for settle_ms (i.e. everybody is blocked and nobody will
// ever make pred() true) or after hard_ms, returns false.
bool
await(const std::function<bool()>& pred,
      const char* what,
      long settle_ms = 6000,
      long hard_ms = 120000);
// as await() but reports a violation and ends the process when stuck
void
must(const std::function<bool()>& pred,
     const char* what,
     const std::function<std::string()>& detail = std::function<std::string()>());
// runs f on a helper thread and must() waits for it to return
void
must_return(const std::function<void()>& f,
            const char* what,
            const std::function<std::string()>& detail = std::function<std::string()>());
// waits for pred() at most ms, without any verdict
bool
poll_for(const std::function<bool()>& pred, long ms);

// ---- event log -------------------------------------------------------------
struct Rec
{
    uint64_t ts;
    uint32_t kind;
    int tid;
    int64_t a;
    int64_t b;
};

class Log
{
public:
    explicit Log(size_t capacity);
    ~Log();
    Log(const Log&) = delete;
    // appends, returns the position in the total order
    size_t add(uint32_t kind, int64_t a = 0, int64_t b = 0);
    size_t size() const;
    const Rec& operator[](size_t i) const { return m_recs[i]; }
    // hash of the observed interleaving (kinds and ids, no timing)
    uint64_t hash() const;
    std::string tail(size_t n = 40) const;
    std::string around(size_t i, size_t n = 12) const;

private:
    std::atomic<size_t> m_next;
    size_t m_capacity;
    Rec* m_recs;
};

// registers the interleaving observed by one case
void
trace(const Log& log, const char* note = "");
void
trace_hash(uint64_t h);
void
sample(const std::string& text);

// a gate that operations block on
class Gate
{
public:
    void open();
    void close();
    void pass();
    bool is_open();

private:
    std::mutex m_CS;
    std::condition_variable m_cond;
    bool m_open = false;
};

// counts live instances of captured state, copyable
class Token
{
public:
    explicit Token(std::atomic<long>* live);
    Token(const Token& o);
    Token& operator=(const Token&) = delete;
    ~Token();
    bool alive() const { return 0x70CE11AA55ULL == m_magic; }

private:
    std::atomic<long>* m_live;
    volatile uint64_t m_magic;
};

// ---- library access --------------------------------------------------------
xdispatch::ibackend&
backend();
xdispatch::ibackend*
naive_backend();
bool
has_qt();
xdispatch::queue
serial(const std::string& label, xdispatch::queue_priority p = xdispatch::queue_priority::DEFAULT);
xdispatch::queue
parallel(const std::string& label, xdispatch::queue_priority p = xdispatch::queue_priority::DEFAULT);
xdispatch::group
make_group();
// the queue every kind of object may target: serial or parallel by choice
xdispatch::queue
any_queue(Rng& rng, bool& is_serial);
xdispatch::timer
make_timer(std::chrono::milliseconds interval, const xdispatch::queue& q);

using ms = std::chrono::milliseconds;

struct Scenario
{
    const char* name;
    void (*run)(Rng&, int);
};

int
run_main(int argc, char** argv, const std::vector<Scenario>& scenarios);

template<class... T>
std::string
str(const T&... t)
{
    std::ostringstream s;
    using expand = int[];
    (void)expand{ 0, ((void)(s << t), 0)... };
    return s.str();
}

} // namespace vh
