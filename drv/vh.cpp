#include "vh.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <new>
#include <set>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include "xdispatch/impl/iqueue_impl.h"
#include "xdispatch/impl/igroup_impl.h"
#include "xdispatch/impl/itimer_impl.h"

#define NOI __attribute__((no_sanitize("address", "thread", "undefined")))

XDISPATCH_DECLARE_BACKEND(naive)
extern "C" __attribute__((weak)) xdispatch::ibackend*
qt5_backend_get_static_instance_impl();

struct vh_delay_stats
{
    volatile uint64_t events, delays, delayed_us, spurious_cas, spurious_wake, shrunk_waits;
};
extern "C" {
extern vh_delay_stats vh_dstats;
extern unsigned char vh_site_seen[1 << 16];
extern unsigned char vh_site_delayed[1 << 16];
extern int vh_delay_off;
}

namespace vh {

Opt opt;

// kept forever as the watchdog may still report while statics get destroyed
static std::mutex& s_CS = *new std::mutex;
static std::map<std::string, long>& s_stats = *new std::map<std::string, long>;
static std::vector<uint64_t>& s_traces = *new std::vector<uint64_t>;
static std::vector<std::string>& s_samples = *new std::vector<std::string>;
static int s_violations = 0;
static std::string& s_case = *new std::string;

static uint64_t
mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

Rng::Rng(uint64_t seed)
  : s(mix(seed) | 1)
{}

uint64_t
Rng::next()
{
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s * 0x2545F4914F6CDD1DULL >> 11;
}

static std::string
json(const std::string& in)
{
    std::string out = "\"";
    for (char c : in) {
        if ('"' == c || '\\' == c) {
            out += '\\';
            out += c;
        } else if ('\n' == c) {
            out += "\\n";
        } else if (static_cast<unsigned char>(c) < 32) {
            out += ' ';
        } else {
            out += c;
        }
    }
    return out + "\"";
}

static void
emit(const std::string& line)
{
    const std::string l = line + "\n";
    size_t done = 0;
    while (done < l.size()) {
        const auto n = ::write(1, l.data() + done, l.size() - done);
        if (n <= 0) {
            break;
        }
        done += static_cast<size_t>(n);
    }
}

void
violation(const std::string& key, const std::string& detail)
{
    std::lock_guard<std::mutex> lock(s_CS);
    if (++s_violations > 20) {
        return;
    }
    emit("VHVIOLATION {\"key\":" + json(key) + ",\"case\":" + json(s_case) + ",\"detail\":" + json(detail.substr(0, 3000)) + "}");
}

bool
any_violation()
{
    std::lock_guard<std::mutex> lock(s_CS);
    return s_violations > 0;
}

void
stat(const char* name, long add)
{
    std::lock_guard<std::mutex> lock(s_CS);
    s_stats[name] += add;
}

void
stat_max(const char* name, long value)
{
    std::lock_guard<std::mutex> lock(s_CS);
    auto& v = s_stats[name];
    v = std::max(v, value);
}

void
trace_hash(uint64_t h)
{
    std::lock_guard<std::mutex> lock(s_CS);
    s_traces.push_back(h);
}

void
trace(const Log& log, const char* note)
{
    stat("log_events", static_cast<long>(log.size()));
    trace_hash(log.hash());
    std::lock_guard<std::mutex> lock(s_CS);
    if (s_samples.size() < 2) {
        s_samples.push_back(s_case + " " + note + " " + log.tail(12));
    }
}

void
sample(const std::string& text)
{
    std::lock_guard<std::mutex> lock(s_CS);
    if (s_samples.size() < 4) {
        s_samples.push_back(s_case + " " + text);
    }
}

static void
finish()
{
    std::lock_guard<std::mutex> lock(s_CS);
    std::ostringstream o;
    o << "VHSTATS {\"stats\":{";
    bool first = true;
    long seen = 0;
    long delayed = 0;
    for (size_t i = 0; i < sizeof(vh_site_seen); ++i) {
        seen += vh_site_seen[i];
        delayed += vh_site_delayed[i];
    }
    s_stats["delay_sites_visited_max"] = seen;
    s_stats["delay_sites_delayed_max"] = delayed;
    s_stats["instrumentation_events"] = static_cast<long>(vh_dstats.events);
    s_stats["injected_delays"] = static_cast<long>(vh_dstats.delays);
    s_stats["spurious_cas_failures"] = static_cast<long>(vh_dstats.spurious_cas);
    s_stats["spurious_wakeups"] = static_cast<long>(vh_dstats.spurious_wake);
    s_stats["shortened_idle_waits"] = static_cast<long>(vh_dstats.shrunk_waits);
    for (const auto& s : s_stats) {
        o << (first ? "" : ",") << json(s.first) << ":" << s.second;
        first = false;
    }
    o << "},\"traces\":[";
    first = true;
    for (const auto t : s_traces) {
        o << (first ? "" : ",") << "\"" << std::hex << t << std::dec << "\"";
        first = false;
    }
    o << "],\"samples\":[";
    first = true;
    for (const auto& t : s_samples) {
        o << (first ? "" : ",") << json(t.substr(0, 900));
        first = false;
    }
    o << "]}";
    emit(o.str());
}

void
bail()
{
    finish();
    ::fflush(nullptr);
    ::_exit(0);
}

NOI uint64_t
now_ns()
{
    // raw call: must not see a clock skewed by the runtime
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<uint64_t>(ts.tv_sec) * 1000000000ULL + static_cast<uint64_t>(ts.tv_nsec);
}

NOI int
tid()
{
    static __thread int t = 0;
    if (0 == t) {
        t = static_cast<int>(syscall(SYS_gettid));
    }
    return t;
}

NOI void
sleep_us(long us)
{
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    struct timespec rest = ts;
    while (0 != syscall(SYS_nanosleep, &ts, &rest) && EINTR == errno) {
        ts = rest;
    }
}

NOI void
spin_us(long us)
{
    const auto end = now_ns() + static_cast<uint64_t>(us) * 1000;
    while (now_ns() < end) {
    }
}

// ---- allocation accounting ---------------------------------------------------
static std::atomic<long> s_blocks{ 0 };
static std::atomic<long> s_bytes{ 0 };

long
live_blocks()
{
    return s_blocks.load(std::memory_order_relaxed);
}

long
live_bytes()
{
    return s_bytes.load(std::memory_order_relaxed);
}

// ---- stuck oracle --------------------------------------------------------------
static std::set<int>& s_ignored_tids = *new std::set<int>;

// sum of context switches and cpu time of all other threads, or of one of them only
static uint64_t
activity(int only = 0)
{
    uint64_t h = 1469598103934665603ULL;
    DIR* d = opendir("/proc/self/task");
    if (!d) {
        return now_ns();
    }
    const int self = tid();
    while (auto* e = readdir(d)) {
        const int t = atoi(e->d_name);
        if (t <= 0 || t == self || s_ignored_tids.count(t) || (only && t != only)) {
            continue;
        }
        char path[64];
        char buf[4096];
        snprintf(path, sizeof(path), "/proc/self/task/%d/status", t);
        const int fd = ::open(path, O_RDONLY);
        if (fd < 0) {
            h = mix(h ^ now_ns());
            continue;
        }
        const auto n = ::read(fd, buf, sizeof(buf) - 1);
        ::close(fd);
        if (n <= 0) {
            continue;
        }
        buf[n] = 0;
        uint64_t sw = 0;
        for (const char* key : { "voluntary_ctxt_switches:", "nonvoluntary_ctxt_switches:" }) {
            const char* at = strstr(buf, key);
            if (at) {
                sw = sw * 31 + strtoull(at + strlen(key), nullptr, 10);
            }
        }
        const char* st = strstr(buf, "State:");
        if (st && strchr(st, '\n') && memchr(st, 'R', static_cast<size_t>(strchr(st, '\n') - st))) {
            // running or runnable
            const char* c = st + 6;
            while (*c == ' ' || *c == '\t') {
                ++c;
            }
            if ('R' == *c || 'D' == *c) {
                sw = sw * 31 + now_ns();
            }
        }
        h = mix(h ^ (static_cast<uint64_t>(t) << 32) ^ sw);
    }
    closedir(d);
    return h;
}

bool
await(const std::function<bool()>& pred, const char* /*what*/, long settle_ms, long hard_ms)
{
    const auto start = now_ns();
    uint64_t last = 0;
    uint64_t last_change = start;
    long nap = 50;
    while (!pred()) {
        sleep_us(nap);
        nap = std::min<long>(nap + nap / 4 + 1, 4000);
        const auto now = now_ns();
        if (now - start > 1000000000ULL) {
            nap = 40000;
            const auto a = activity();
            if (a != last) {
                last = a;
                last_change = now;
            } else if (now - last_change > static_cast<uint64_t>(settle_ms) * 1000000ULL) {
                return pred();
            }
            if (now - start > static_cast<uint64_t>(hard_ms) * 1000000ULL) {
                return pred();
            }
        }
    }
    return true;
}

// The threads of the harness may get stuck inside of the library as well, e.g. when
// an operation gets enqueued. None of the workloads sleeps for long, so nothing
// happens anymore when not a single thread was scheduled for a while. Descriptors and
// timers may wake their threads all the time, hence the main thread counts too.
static std::atomic<int> s_watchdog_tid{ 0 };

static void*
watchdog(void*)
{
    s_ignored_tids.insert(tid());
    s_watchdog_tid = tid();
    const int main_tid = static_cast<int>(syscall(SYS_getpid));
    uint64_t last_all = 0;
    uint64_t last_main = 0;
    uint64_t all_since = now_ns();
    uint64_t main_since = all_since;
    for (uint64_t before = now_ns();;) {
        sleep_us(500000);
        const auto now = now_ns();
        if (now - before > 3000000000ULL) {
            // this process did not get to run either
            all_since = main_since = now;
        }
        before = now;
        const auto main_now = activity(main_tid);
        if (main_now != last_main) {
            last_main = main_now;
            main_since = all_since = now;
            continue;
        }
        const auto all = activity();
        if (all != last_all) {
            last_all = all;
            all_since = now;
        }
        const bool quiet = now - all_since > 12000000000ULL;
        if (quiet || now - main_since > 60000000000ULL) {
            violation("stuck:deadlock",
                      quiet ? "no thread of the process made progress anymore" : "the main thread of the workload made no progress for a minute");
            bail();
        }
    }
    return nullptr;
}

void
must(const std::function<bool()>& pred, const char* what, const std::function<std::string()>& detail)
{
    if (!await(pred, what)) {
        violation(str("stuck:", what),
                  str("no thread of the process made progress anymore while waiting for: ",
                      what,
                      detail ? "; " + detail() : std::string()));
        bail();
    }
}

void
must_return(const std::function<void()>& f, const char* what, const std::function<std::string()>& detail)
{
    auto done = std::make_shared<std::atomic<bool>>(false);
    std::thread t([f, done] {
        f();
        done->store(true);
    });
    must([&] { return done->load(); }, what, detail);
    t.join();
}

bool
poll_for(const std::function<bool()>& pred, long limit)
{
    const auto end = now_ns() + static_cast<uint64_t>(limit) * 1000000ULL;
    while (!pred()) {
        if (now_ns() > end) {
            return pred();
        }
        sleep_us(200);
    }
    return true;
}

// ---- log -------------------------------------------------------------------------
Log::Log(size_t capacity)
  : m_next(0)
  , m_capacity(capacity)
  , m_recs(static_cast<Rec*>(calloc(capacity, sizeof(Rec))))
{}

Log::~Log()
{
    free(m_recs);
}

NOI size_t
Log::add(uint32_t kind, int64_t a, int64_t b)
{
    const auto i = m_next.fetch_add(1, std::memory_order_relaxed);
    if (i < m_capacity) {
        m_recs[i].ts = now_ns();
        m_recs[i].tid = tid();
        m_recs[i].a = a;
        m_recs[i].b = b;
        m_recs[i].kind = kind;
    }
    return i;
}

size_t
Log::size() const
{
    return std::min(m_next.load(std::memory_order_relaxed), m_capacity);
}

uint64_t
Log::hash() const
{
    uint64_t h = 1469598103934665603ULL;
    std::map<int, int> tids;
    const auto n = size();
    for (size_t i = 0; i < n; ++i) {
        const auto& r = m_recs[i];
        const auto t = tids.emplace(r.tid, static_cast<int>(tids.size())).first->second;
        h = mix(h ^ r.kind) ^ mix(static_cast<uint64_t>(r.a) * 31 + static_cast<uint64_t>(r.b) * 17 + static_cast<uint64_t>(t));
    }
    return h;
}

static std::string
dump(const Rec* recs, size_t from, size_t to)
{
    std::ostringstream o;
    for (size_t i = from; i < to; ++i) {
        const auto& r = recs[i];
        o << "#" << i << " k" << r.kind << "(" << r.a << "," << r.b << ")@t" << (r.tid % 10000) << "+" << (i > from ? (r.ts - recs[from].ts) / 1000 : 0) << "us; ";
    }
    return o.str();
}

std::string
Log::tail(size_t n) const
{
    const auto s = size();
    return dump(m_recs, s > n ? s - n : 0, s);
}

std::string
Log::around(size_t i, size_t n) const
{
    const auto s = size();
    return dump(m_recs, i > n ? i - n : 0, std::min(s, i + n));
}

void
Gate::open()
{
    std::lock_guard<std::mutex> lock(m_CS);
    m_open = true;
    m_cond.notify_all();
}

void
Gate::close()
{
    std::lock_guard<std::mutex> lock(m_CS);
    m_open = false;
}

void
Gate::pass()
{
    std::unique_lock<std::mutex> lock(m_CS);
    while (!m_open) {
        m_cond.wait(lock);
    }
}

bool
Gate::is_open()
{
    std::lock_guard<std::mutex> lock(m_CS);
    return m_open;
}

Token::Token(std::atomic<long>* live)
  : m_live(live)
  , m_magic(0x70CE11AA55ULL)
{
    m_live->fetch_add(1, std::memory_order_relaxed);
}

Token::Token(const Token& o)
  : m_live(o.m_live)
  , m_magic(o.m_magic)
{
    m_live->fetch_add(1, std::memory_order_relaxed);
}

Token::~Token()
{
    if (0x70CE11AA55ULL != m_magic) {
        violation("token-double-destroy", "captured state was destroyed twice");
    }
    m_magic = 0xDEAD;
    m_live->fetch_sub(1, std::memory_order_release);
}

// ---- library ------------------------------------------------------------------------
bool
has_qt()
{
    return nullptr != qt5_backend_get_static_instance_impl;
}

xdispatch::ibackend*
naive_backend()
{
    return naive_backend_get_static_instance();
}

xdispatch::ibackend&
backend()
{
    if ("qt5" == opt.backend && has_qt()) {
        return *qt5_backend_get_static_instance_impl();
    }
    return *naive_backend_get_static_instance();
}

xdispatch::queue
serial(const std::string& label, xdispatch::queue_priority p)
{
    return xdispatch::queue(label, backend().create_serial_queue(label, p));
}

xdispatch::queue
parallel(const std::string& label, xdispatch::queue_priority p)
{
    return xdispatch::queue(label, backend().create_parallel_queue(label, p));
}

xdispatch::group
make_group()
{
    return xdispatch::group(backend().create_group());
}

xdispatch::queue
any_queue(Rng& rng, bool& is_serial)
{
    static const xdispatch::queue_priority p[] = { xdispatch::queue_priority::DEFAULT,
                                                   xdispatch::queue_priority::USER_INTERACTIVE,
                                                   xdispatch::queue_priority::USER_INITIATED,
                                                   xdispatch::queue_priority::UTILITY,
                                                   xdispatch::queue_priority::BACKGROUND };
    is_serial = rng.chance(2);
    const auto prio = p[rng.below(5)];
    return is_serial ? serial("vh.s", prio) : parallel("vh.p", prio);
}

xdispatch::timer
make_timer(std::chrono::milliseconds interval, const xdispatch::queue& q)
{
    return xdispatch::timer(interval, q);
}

// ---- signals -------------------------------------------------------------------------
static std::atomic<long> s_signals_handled{ 0 };

static void
on_signal(int)
{
    const int e = errno;
    s_signals_handled.fetch_add(1, std::memory_order_relaxed);
    errno = e;
}

// Interrupts random threads of the process while a case executes: system calls get to
// fail with EINTR. Bounded so that a process which is stuck can still be told.
class Interrupts
{
public:
    explicit Interrupts(uint64_t seed)
    {
        struct sigaction sa = {};
        sa.sa_handler = &on_signal; // no SA_RESTART
        sigaction(SIGUSR1, &sa, nullptr);
        m_thread = std::thread([this, seed] { run(Rng(seed)); });
    }
    ~Interrupts()
    {
        m_stop = true;
        m_thread.join();
        stat("signals_sent", m_sent);
        stat("signals_handled", s_signals_handled.exchange(0));
    }

private:
    void run(Rng rng)
    {
        const long pause = 1L << rng.range(5, 14);
        for (int i = 0; i < 60 && !m_stop; ++i) {
            sleep_us(static_cast<long>(rng.below(static_cast<uint64_t>(pause))) + 20);
            std::vector<int> tids;
            if (DIR* d = opendir("/proc/self/task")) {
                while (auto* e = readdir(d)) {
                    const int t = atoi(e->d_name);
                    if (t > 0 && t != tid() && !s_ignored_tids.count(t)) {
                        tids.push_back(t);
                    }
                }
                closedir(d);
            }
            for (const int t : tids) {
                if (tids.size() < 4 || rng.chance(2)) {
                    m_sent += 0 == syscall(SYS_tgkill, syscall(SYS_getpid), t, SIGUSR1);
                }
            }
        }
    }
    std::atomic<bool> m_stop{ false };
    long m_sent = 0;
    std::thread m_thread;
};

static const char*
arg(int argc, char** argv, const char* name, const char* def)
{
    for (int i = 1; i + 1 < argc; ++i) {
        if (0 == strcmp(argv[i], name)) {
            return argv[i + 1];
        }
    }
    return def;
}

int
run_main(int argc, char** argv, const std::vector<Scenario>& scenarios)
{
    opt.scenario = arg(argc, argv, "--scenario", "");
    opt.seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    opt.cases = atoi(arg(argc, argv, "--cases", "10"));
    opt.backend = arg(argc, argv, "--backend", "naive");
    opt.scale = atoi(arg(argc, argv, "--scale", "100"));
    const int only = atoi(arg(argc, argv, "--only", "-1"));

    // threads started by a sanitizer runtime are not part of the program
    {
        std::thread t([] {});
        t.join();
        sleep_us(2000);
        const int self = tid();
        if (DIR* d = opendir("/proc/self/task")) {
            while (auto* e = readdir(d)) {
                const int id = atoi(e->d_name);
                if (id > 0 && id != self) {
                    s_ignored_tids.insert(id);
                }
            }
            closedir(d);
        }
    }
    {
        pthread_t t;
        if (0 == pthread_create(&t, nullptr, &watchdog, nullptr)) {
            pthread_detach(t);
            while (0 == s_watchdog_tid) {
                sleep_us(100);
            }
        }
    }

    for (const auto& s : scenarios) {
        if (opt.scenario != s.name) {
            continue;
        }
        for (int i = 0; i < opt.cases; ++i) {
            if (only >= 0 && only != i) {
                continue;
            }
            {
                std::lock_guard<std::mutex> lock(s_CS);
                s_case = str(s.name, "/seed=", opt.seed, "/case=", i);
            }
            Rng rng(opt.seed * 1000003ULL + static_cast<uint64_t>(i) * 7919ULL);
            {
                const uint64_t sig = mix(opt.seed * 31 + static_cast<uint64_t>(i));
                std::unique_ptr<Interrupts> interrupts;
                if (opt.interrupts && 0 == sig % 4) {
                    interrupts.reset(new Interrupts(sig));
                }
                s.run(rng, i);
            }
            stat("cases");
            if (any_violation()) {
                break;
            }
        }
        finish();
        ::fflush(nullptr);
        // static destructors run on the normal path so that they get checked too
        return 0;
    }
    fprintf(stderr, "unknown scenario '%s'\n", opt.scenario.c_str());
    return 9;
}

} // namespace vh

// ---- operator new/delete with accounting; the usable size is not needed as the
// blocks are counted and their size is stored nowhere
#if !defined(VH_NO_ALLOC_HOOK)
#include <malloc.h>
static inline void*
vh_alloc(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (p) {
        vh::s_blocks.fetch_add(1, std::memory_order_relaxed);
        vh::s_bytes.fetch_add(static_cast<long>(malloc_usable_size(p)), std::memory_order_relaxed);
    }
    return p;
}
static inline void
vh_free(void* p)
{
    if (p) {
        vh::s_blocks.fetch_sub(1, std::memory_order_relaxed);
        vh::s_bytes.fetch_sub(static_cast<long>(malloc_usable_size(p)), std::memory_order_relaxed);
        free(p);
    }
}
void* operator new(size_t n) { void* p = vh_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vh_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vh_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vh_alloc(n); }
void operator delete(void* p) noexcept { vh_free(p); }
void operator delete[](void* p) noexcept { vh_free(p); }
void operator delete(void* p, size_t) noexcept { vh_free(p); }
void operator delete[](void* p, size_t) noexcept { vh_free(p); }
#endif
