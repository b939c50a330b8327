// Workloads and monitors for socket notifiers.
#include "util.h"

#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace vh;
namespace xd = xdispatch;

enum Kind
{
    RESUMED = 1,
    SUSPENDED,
    CALL,
    CALL_END,
    WRITE,
    READ,
    CANCEL,
    CANCELLED,
};

// a pair of connected descriptors
struct Pair
{
    int rd = -1;
    int wr = -1;
    bool is_pipe = false;

    explicit Pair(Rng& rng, bool want_socket = false)
    {
        int fds[2] = { -1, -1 };
        is_pipe = !want_socket && rng.chance(2);
        const int ret = is_pipe ? ::pipe(fds) : ::socketpair(AF_UNIX, SOCK_STREAM, 0, fds);
        if (0 != ret) {
            violation("harness", str("no descriptors: ", strerror(errno)));
            bail();
        }
        rd = fds[0];
        wr = fds[1];
        ::fcntl(rd, F_SETFL, O_NONBLOCK);
    }
    // moves the descriptor read from to another number
    bool renumber(int to)
    {
        if (::fcntl(to, F_GETFD) >= 0) {
            return false;
        }
        if (::dup2(rd, to) < 0) {
            return false;
        }
        ::close(rd);
        rd = to;
        return true;
    }
    bool renumber_wr(int to)
    {
        if (::fcntl(to, F_GETFD) >= 0 || ::dup2(wr, to) < 0) {
            return false;
        }
        ::close(wr);
        wr = to;
        return true;
    }
    void close_wr()
    {
        if (wr >= 0) {
            ::close(wr);
            wr = -1;
        }
    }
    ~Pair()
    {
        close_wr();
        if (rd >= 0) {
            ::close(rd);
        }
    }
    Pair(const Pair&) = delete;
};

static bool
ready(int fd, bool read)
{
    struct pollfd p = {};
    p.fd = fd;
    p.events = read ? POLLIN : POLLOUT;
    return ::poll(&p, 1, 0) > 0;
}

static void
more_descriptors()
{
    static bool once = false;
    if (!once) {
        struct rlimit l;
        if (0 == ::getrlimit(RLIMIT_NOFILE, &l)) {
            l.rlim_cur = std::min<rlim_t>(l.rlim_max, 20000);
            ::setrlimit(RLIMIT_NOFILE, &l);
        }
        once = true;
    }
}

static int
high_number(Rng& rng)
{
    more_descriptors();
    static const int numbers[] = { 1023, 1024, 1025, 1100, 2048, 4090 };
    return numbers[rng.below(6)];
}

static xd::socket_notifier
make_notifier(int fd, xd::notifier_type type, const xd::queue& q)
{
    return xd::socket_notifier(fd, type, q);
}

struct Watch
{
    explicit Watch(size_t cap = 4096)
      : log(cap)
    {}
    Log log;
    std::atomic<int> active{ 0 };
    std::atomic<int> called{ 0 };
    std::atomic<bool> forbidden{ false };
    std::atomic<int> limit{ 1 << 30 };
    std::atomic<long> live{ 0 };
    long plain = 0;

    void enter(int fd, xd::notifier_type type, int expect_fd, xd::notifier_type expect_type)
    {
        log.add(CALL, called.load());
        if (called.load() >= limit.load()) {
            violation("notifier-extra-call", str("invocation ", called.load() + 1, " of which at most ", limit.load(), " were possible: ", log.tail()));
        }
        if (forbidden) {
            violation("notifier-after-cancel", str("the handler was started after cancel() returned: ", log.tail()));
        }
        if (0 != active++) {
            violation("notifier-overlap", str("two invocations of the same notifier overlapped: ", log.tail()));
        }
        if (fd != expect_fd || type != expect_type) {
            violation("notifier-arguments", str("the handler was invoked for descriptor ", fd, " instead of ", expect_fd));
        }
        ++plain;
    }
    void leave()
    {
        if (forbidden) {
            violation("notifier-active-after-cancel", str("the handler was executing after cancel() returned: ", log.tail()));
        }
        --active;
        ++called;
        log.add(CALL_END, called.load());
    }
};

// all data arrives in order until the end of the stream
static void
read_data(Rng& rng, int)
{
    Noise noise(rng);
    const int streams = rng.range(1, 4);
    struct Stream
    {
        std::unique_ptr<Pair> p;
        std::shared_ptr<Watch> w = std::make_shared<Watch>();
        std::unique_ptr<xd::socket_notifier> n;
        std::shared_ptr<std::atomic<long>> got = std::make_shared<std::atomic<long>>(0);
        std::shared_ptr<std::atomic<int>> eof = std::make_shared<std::atomic<int>>(0);
        std::shared_ptr<std::atomic<int>> busy = std::make_shared<std::atomic<int>>(0);
        bool ser = false;
        long total = 0;
    };
    std::vector<Stream> all(static_cast<size_t>(streams));
    for (auto& s : all) {
        s.p.reset(new Pair(rng));
        if (rng.chance(3)) {
            s.p->renumber(high_number(rng));
        }
        auto q = any_queue(rng, s.ser);
        s.total = scaled(rng.range(1, 3000));
        s.n.reset(new xd::socket_notifier(make_notifier(s.p->rd, xd::notifier_type::READ, q)));
        if (s.n->socket() != s.p->rd || s.n->type() != xd::notifier_type::READ) {
            violation("notifier-arguments", "socket() or type() differ from what the notifier was created with");
        }
        auto w = s.w;
        auto got = s.got;
        auto eof = s.eof;
        auto busy = s.busy;
        const int fd = s.p->rd;
        const bool ser = s.ser;
        const int max = rng.range(1, 200);
        const long us = rng.chance(2) ? 0 : static_cast<long>(rng.below(200));
        auto f = [=](xd::socket_t sock, xd::notifier_type type) {
            w->enter(sock, type, fd, xd::notifier_type::READ);
            if (ser && 0 != (*busy)++) {
                violation("notifier-queue", "an invocation overlapped with another operation of its serial queue");
            }
            if (!ready(fd, true)) {
                violation("notifier-not-ready", str("the handler was invoked although the descriptor is not readable: ", w->log.tail()));
            }
            char buf[256];
            const auto n = ::read(fd, buf, static_cast<size_t>(max));
            if (n == 0) {
                ++*eof;
            } else if (n > 0) {
                for (ssize_t i = 0; i < n; ++i) {
                    if (buf[i] != static_cast<char>((*got + i) * 7 + 3)) {
                        violation("notifier-data", "data was read out of order");
                    }
                }
                *got += n;
                w->log.add(READ, n);
            }
            spin_us(us);
            if (ser) {
                --*busy;
            }
            w->leave();
            if (n == 0 && *eof > 3) {
                sleep_us(500);
            }
        };
        s.n->handler(f);
        if (s.ser) {
            for (int i = 0; i < 4; ++i) {
                q.async([busy] {
                    if (0 != (*busy)++) {
                        violation("notifier-queue", "an operation of a serial queue overlapped with a notifier");
                    }
                    spin_us(30);
                    --*busy;
                });
            }
        }
    }
    const auto seed = rng.next();
    std::vector<std::thread> writers;
    for (size_t k = 0; k < all.size(); ++k) {
        auto& s = all[k];
        const bool before = rng.chance(2);
        if (before) {
            s.n->resume();
        }
        writers.emplace_back([&s, seed, k] {
            Rng r(seed + k);
            long at = 0;
            while (at < s.total) {
                char buf[400];
                const long n = std::min<long>(s.total - at, r.range(1, 400));
                for (long i = 0; i < n; ++i) {
                    buf[i] = static_cast<char>((at + i) * 7 + 3);
                }
                const auto done = ::write(s.p->wr, buf, static_cast<size_t>(n));
                if (done < 0 && EINTR == errno) {
                    continue;
                }
                if (done <= 0) {
                    break;
                }
                at += done;
                s.w->log.add(WRITE, done);
                jitter(r, 700);
                // reuses the idle state now and then
                if (r.chance(6)) {
                    poll_for([&] { return *s.got == at; }, 200);
                }
            }
            s.p->close_wr();
        });
        if (!before) {
            s.n->resume();
        }
    }
    for (auto& s : all) {
        must([&] { return *s.got == s.total; }, "a notifier to report all data", [&] { return str(s.got->load(), " of ", s.total, " bytes; ", s.w->log.tail()); });
        must([&] { return *s.eof > 1; }, "a notifier to report the end of the stream");
        must_return([&] { s.n->cancel(); }, "cancel() of a notifier");
        if (0 != s.w->active) {
            violation("notifier-active-after-cancel", "cancel() returned while the handler is executing");
        }
        s.w->forbidden = true;
        vh::stat("bytes", s.total);
        vh::stat("calls", s.w->called);
        trace(s.w->log, "read");
    }
    for (auto& t : writers) {
        t.join();
    }
    // others reuse the descriptor only when nobody polls it anymore
    sleep_us(1000);
}

static void
write_ready(Rng& rng, int)
{
    auto p = std::make_shared<Pair>(rng, true);
    if (rng.chance(3)) {
        p->renumber_wr(high_number(rng));
    }
    int size = 4096;
    ::setsockopt(p->wr, SOL_SOCKET, SO_SNDBUF, &size, sizeof(size));
    ::fcntl(p->wr, F_SETFL, O_NONBLOCK);
    auto w = std::make_shared<Watch>();
    bool ser = false;
    auto q = any_queue(rng, ser);
    auto n = make_notifier(p->wr, xd::notifier_type::WRITE, q);
    auto written = std::make_shared<std::atomic<long>>(0);
    auto blocked = std::make_shared<std::atomic<bool>>(false);
    const int fd = p->wr;
    const bool greedy = rng.chance(2);
    n.handler([=](xd::socket_t sock, xd::notifier_type type) {
        w->enter(sock, type, fd, xd::notifier_type::WRITE);
        if (!ready(fd, false)) {
            violation("notifier-not-ready", "the handler was invoked although the descriptor is not writable");
        }
        const char buf[512] = {};
        ssize_t ret;
        do {
            ret = ::write(fd, buf, sizeof(buf));
            if (ret > 0) {
                *written += ret;
            }
        } while (greedy && ret > 0);
        w->leave();
    });
    n.resume();
    for (int k = 0; k < 4; ++k) {
        // keeps being called until the buffer is full
        must([&] { return !ready(fd, false); }, "a notifier to be called while the descriptor is writable");
        sleep_us(static_cast<long>(rng.below(3000)) + 500);
        // nothing happens while it is full
        const int before = w->called + w->active;
        sleep_us(static_cast<long>(rng.below(10000)));
        if (w->called + w->active > before + 1) {
            violation("notifier-not-ready", str(w->called - before, " invocations while the descriptor is not writable"));
        }
        const auto reached = written->load();
        char buf[1024];
        while (::read(p->rd, buf, sizeof(buf)) > 0) {
        }
        must([&] { return *written > reached; }, "a notifier to be called once the descriptor became writable again");
    }
    must_return([&] { n.cancel(); }, "cancel() of a notifier");
    w->forbidden = true;
    vh::stat("calls", w->called);
    trace(w->log, "write");
}

// known states of readiness
static void
levels(Rng& rng, int)
{
    auto p = std::make_shared<Pair>(rng);
    if (rng.chance(3)) {
        p->renumber(high_number(rng));
    }
    auto w = std::make_shared<Watch>(1 << 16);
    bool ser = false;
    auto q = any_queue(rng, ser);
    auto n = make_notifier(p->rd, xd::notifier_type::READ, q);
    auto drain = std::make_shared<std::atomic<bool>>(false);
    const int fd = p->rd;
    n.handler([=](xd::socket_t sock, xd::notifier_type type) {
        w->enter(sock, type, fd, xd::notifier_type::READ);
        if (!ready(fd, true)) {
            violation("notifier-not-ready", str("the handler was invoked although the descriptor is not readable: ", w->log.tail()));
        }
        if (*drain) {
            char buf[64];
            if (::read(fd, buf, sizeof(buf)) < 0) {
                violation("notifier-not-ready", "nothing to read");
            }
        }
        w->leave();
        sleep_us(100);
    });
    // not resumed yet
    w->limit = 0;
    if (rng.chance(2)) {
        if (1 != ::write(p->wr, "x", 1)) {
            return;
        }
        sleep_us(3000);
        *drain = true;
        w->limit = 1 << 30;
        n.resume();
        must([&] { return w->called >= 1 && !ready(fd, true); }, "a notifier to report what was readable before it got resumed");
    } else {
        n.resume();
        sleep_us(static_cast<long>(rng.below(10000)));
    }
    for (int k = 0; k < 3; ++k) {
        *drain = false;
        // nothing to read
        w->limit = w->called + w->active;
        sleep_us(static_cast<long>(rng.below(10000)));
        w->limit = 1 << 30;
        // continues while readable
        const int from = w->called;
        if (1 != ::write(p->wr, "y", 1)) {
            return;
        }
        w->log.add(WRITE, k);
        const int want = rng.range(1, 12);
        must([&] { return w->called >= from + want; }, "a notifier to be invoked for as long as the descriptor is readable", [&] { return w->log.tail(); });
        *drain = true;
        must([&] { return !ready(fd, true); }, "a notifier to read");
        // the handler that emptied it has to be left
        must([&] { return 0 == w->active; }, "handler");
    }
    // a changed handler is the one to be used
    auto other = std::make_shared<std::atomic<int>>(0);
    n.handler([other, fd](xd::socket_t, xd::notifier_type) {
        char buf[64];
        if (::read(fd, buf, sizeof(buf)) > 0) {
            ++*other;
        }
    });
    if (1 != ::write(p->wr, "z", 1)) {
        return;
    }
    must([&] { return *other == 1; }, "the changed handler of a notifier to be used");
    must_return([&] { n.cancel(); }, "cancel() of a notifier");
    vh::stat("calls", w->called);
    trace(w->log, "levels");
}

// descriptors which are not open do no harm to anybody
static void
invalid(Rng& rng, int)
{
    auto p = std::make_shared<Pair>(rng);
    auto w = std::make_shared<Watch>();
    std::atomic<int> live_called{ 0 };
    more_descriptors();
    const int bad = rng.chance(2) ? 900 + rng.range(0, 50) : 5000 + rng.range(0, 5000);
    bool ser = false;
    {
        auto b = make_notifier(bad, rng.chance(2) ? xd::notifier_type::READ : xd::notifier_type::WRITE, any_queue(rng, ser));
        b.handler([](xd::socket_t, xd::notifier_type) { violation("notifier-not-ready", "the handler was invoked for a descriptor which is not open"); });
        b.resume();
        sleep_us(static_cast<long>(rng.below(5000)));
        if (rng.chance(2)) {
            b.suspend();
            b.resume();
        }
        auto n = make_notifier(p->rd, xd::notifier_type::READ, any_queue(rng, ser));
        const int fd = p->rd;
        n.handler([&live_called, fd](xd::socket_t, xd::notifier_type) {
            char c;
            if (1 == ::read(fd, &c, 1)) {
                ++live_called;
            }
        });
        n.resume();
        if (1 != ::write(p->wr, "x", 1)) {
            return;
        }
        must([&] { return 1 == live_called; }, "a notifier next to one with an invalid descriptor");
        must_return([&] { b.cancel(); }, "cancel() of a notifier with an invalid descriptor");
        must_return([&] { n.cancel(); }, "cancel() of a notifier");
    }
    vh::stat("invalid_descriptors");
    trace_hash(rng.next());
}

// nothing happens for longer than any internal timeout
static void
quiet(Rng& rng, int)
{
    struct Quiet
    {
        std::unique_ptr<Pair> p;
        std::shared_ptr<Watch> w = std::make_shared<Watch>();
        std::shared_ptr<std::atomic<int>> got = std::make_shared<std::atomic<int>>(0);
        std::unique_ptr<xd::socket_notifier> n;
        bool read = true;
    };
    std::vector<Quiet> all(static_cast<size_t>(rng.range(3, 6)));
    for (auto& s : all) {
        s.read = !rng.chance(3);
        s.p.reset(new Pair(rng, !s.read));
        bool ser = false;
        auto q = any_queue(rng, ser);
        auto w = s.w;
        auto got = s.got;
        if (s.read) {
            const int fd = s.p->rd;
            s.n.reset(new xd::socket_notifier(make_notifier(fd, xd::notifier_type::READ, q)));
            s.n->handler([=](xd::socket_t sock, xd::notifier_type type) {
                w->enter(sock, type, fd, xd::notifier_type::READ);
                char c;
                if (1 != ::read(fd, &c, 1)) {
                    violation("notifier-not-ready", "the handler was invoked although there is nothing to read");
                }
                ++*got;
                w->leave();
            });
        } else {
            const int fd = s.p->wr;
            ::fcntl(fd, F_SETFL, O_NONBLOCK);
            const char buf[512] = {};
            while (::write(fd, buf, sizeof(buf)) > 0) {
            }
            s.n.reset(new xd::socket_notifier(make_notifier(fd, xd::notifier_type::WRITE, q)));
            s.n->handler([=](xd::socket_t sock, xd::notifier_type type) {
                w->enter(sock, type, fd, xd::notifier_type::WRITE);
                if (!ready(fd, false)) {
                    violation("notifier-not-ready", "the handler was invoked although the descriptor is not writable");
                }
                const char more[512] = {};
                while (::write(fd, more, sizeof(more)) > 0) {
                }
                ++*got;
                w->leave();
            });
        }
        s.n->resume();
    }
    const int rounds = rng.range(1, 2);
    for (int r = 1; r <= rounds; ++r) {
        // as few as possible in the first place
        const long ms = (nullptr != ::getenv("VH_IDLE_MS")) ? rng.range(20, 200) : rng.range(5200, 6500);
        sleep_us(ms * 1000);
        for (auto& s : all) {
            if (s.read && r - 1 != s.got->load()) {
                violation("notifier-not-ready", str("the handler was invoked ", s.got->load(), " times for ", r - 1, " bytes"));
            }
        }
        for (auto& s : all) {
            const int before = *s.got;
            auto got = s.got;
            auto w = s.w;
            if (s.read) {
                if (1 != ::write(s.p->wr, "x", 1)) {
                    return;
                }
            } else {
                char buf[4096];
                while (::read(s.p->rd, buf, sizeof(buf)) > 0) {
                }
            }
            must([got, before] { return *got > before; }, "a notifier to report a descriptor which was not ready for long", [w] { return w->log.tail(); });
        }
    }
    for (auto& s : all) {
        must_return([&] { s.n->cancel(); }, "cancel() of a notifier");
        s.w->forbidden = true;
    }
    vh::stat("quiet_notifiers", static_cast<long>(all.size()));
    trace_hash(rng.next());
    sleep_us(1000);
}

// many notifiers do not occupy the pool
static void
many(Rng& rng, int)
{
    const int n = scaled(rng.range(6, 25));
    std::vector<std::unique_ptr<Pair>> ps;
    std::vector<xd::socket_notifier> ns;
    auto count = std::make_shared<std::vector<std::atomic<int>>>(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) {
        ps.emplace_back(new Pair(rng));
        bool ser = false;
        ns.push_back(make_notifier(ps.back()->rd, xd::notifier_type::READ, any_queue(rng, ser)));
        const int fd = ps.back()->rd;
        ns.back().handler([count, fd, i](xd::socket_t s, xd::notifier_type) {
            char c;
            if (s != fd) {
                violation("notifier-arguments", "the handler was invoked for another descriptor");
            }
            if (1 == ::read(fd, &c, 1)) {
                ++(*count)[static_cast<size_t>(i)];
            }
        });
        ns.back().resume();
    }
    std::atomic<int> ops{ 0 };
    for (int i = 0; i < 20; ++i) {
        parallel("ops").async([&ops] { ++ops; });
    }
    must([&] { return 20 == ops; }, "operations to execute next to many notifiers");
    for (int k = 0; k < 3; ++k) {
        for (auto& p : ps) {
            if (1 != ::write(p->wr, "x", 1)) {
                return;
            }
        }
        for (int i = 0; i < n; ++i) {
            must([&] { return (*count)[static_cast<size_t>(i)] == k + 1; }, "each of many notifiers to be invoked");
        }
    }
    for (auto& x : ns) {
        must_return([&] { x.cancel(); }, "cancel() of a notifier");
    }
    vh::stat("calls", n * 3);
    trace_hash(rng.next());
}

// ---- suspend and cancel -----------------------------------------------------------
static void
suspend_resume(Rng& rng, int)
{
    auto p = std::make_shared<Pair>(rng);
    auto w = std::make_shared<Watch>(1 << 15);
    bool ser = false;
    auto q = any_queue(rng, ser);
    auto n = make_notifier(p->rd, xd::notifier_type::READ, q);
    const int fd = p->rd;
    const long us = rng.chance(2) ? 0 : static_cast<long>(rng.below(1500));
    n.handler([=](xd::socket_t sock, xd::notifier_type type) {
        w->enter(sock, type, fd, xd::notifier_type::READ);
        sleep_us(us + 50);
        w->leave();
    });
    if (1 != ::write(p->wr, "x", 1)) {
        return;
    }
    for (int k = 0, rounds = scaled(rng.range(2, 6)); k < rounds && !any_violation(); ++k) {
        for (int i = 0, flips = rng.chance(2) ? 0 : rng.range(1, 12); i < flips; ++i) {
            n.resume();
            w->log.add(RESUMED);
            jitter(rng, 700);
            n.suspend();
            w->log.add(SUSPENDED);
            jitter(rng, 200);
        }
        const int nested = rng.range(0, 3);
        for (int i = 0; i <= nested; ++i) {
            n.resume();
        }
        const int from = w->called;
        must([&] { return w->called >= from + 3; }, "a resumed notifier to be invoked", [&] { return w->log.tail(); });
        for (int i = 0; i <= nested; ++i) {
            // still running until the last one
            if (i == nested && nested > 0) {
                const int mid = w->called;
                must([&] { return w->called >= mid + 2; }, "a notifier resumed more often than suspended to be invoked");
            }
            n.suspend();
        }
        w->log.add(SUSPENDED);
        const int begun = w->called + w->active;
        w->limit = begun + 1;
        sleep_us(static_cast<long>(rng.below(12000)) + 2000);
        w->limit = 1 << 30;
    }
    int late = 0;
    for (size_t i = w->log.size(); i-- > 0;) {
        if (SUSPENDED == w->log[i].kind) {
            break;
        }
        if (CALL == w->log[i].kind) {
            ++late;
        }
    }
    if (late > 1) {
        violation("notifier-suspended", str(late, " invocations after suspend() returned: ", w->log.tail()));
    }
    must_return([&] { n.cancel(); }, "cancel() of a notifier");
    w->forbidden = true;
    vh::stat("calls", w->called);
    trace(w->log, "suspend/resume");
}

// never more than one pending invocation while the queue is blocked
static void
busy_queue(Rng& rng, int)
{
    auto p = std::make_shared<Pair>(rng);
    auto w = std::make_shared<Watch>(4096);
    auto gate = std::make_shared<Gate>();
    std::atomic<bool> entered{ false };
    auto q = serial("busy");
    auto n = make_notifier(p->rd, xd::notifier_type::READ, q);
    const int fd = p->rd;
    auto consume = std::make_shared<std::atomic<bool>>(true);
    n.handler([=](xd::socket_t sock, xd::notifier_type type) {
        w->enter(sock, type, fd, xd::notifier_type::READ);
        char c;
        if (*consume && 1 != ::read(fd, &c, 1)) {
            violation("notifier-not-ready", str("the handler was invoked although everything was read by an earlier invocation: ", w->log.tail()));
        }
        w->leave();
    });
    q.async([gate, &entered] {
        entered = true;
        gate->pass();
    });
    must([&] { return entered.load(); }, "operation of a serial queue");
    if (1 != ::write(p->wr, "x", 1)) {
        return;
    }
    w->limit = 0;
    for (int i = 0, flips = rng.range(0, 6); i < flips; ++i) {
        n.resume();
        sleep_us(static_cast<long>(rng.below(3000)));
        n.suspend();
    }
    n.resume();
    sleep_us(static_cast<long>(rng.below(5000)));
    // a single byte, a single invocation
    w->limit = 1;
    gate->open();
    must([&] { return w->called == 1; }, "a notifier to be invoked once its queue is available again", [&] { return w->log.tail(); });
    sleep_us(static_cast<long>(rng.below(8000)));
    w->limit = 1 << 30;
    // still working
    if (2 != ::write(p->wr, "xy", 2)) {
        return;
    }
    must([&] { return w->called == 3; }, "a notifier to keep working after its queue was blocked", [&] { return w->log.tail(); });
    must_return([&] { n.cancel(); }, "cancel() of a notifier");
    vh::stat("calls", w->called);
    trace(w->log, "busy queue");
}

static void
concurrent_control(Rng& rng, int)
{
    auto p = std::make_shared<Pair>(rng);
    auto w = std::make_shared<Watch>(1 << 15);
    bool ser = false;
    auto q = any_queue(rng, ser);
    auto n = make_notifier(p->rd, xd::notifier_type::READ, q);
    const int fd = p->rd;
    n.handler([=](xd::socket_t sock, xd::notifier_type type) {
        w->enter(sock, type, fd, xd::notifier_type::READ);
        w->leave();
        sleep_us(200);
    });
    if (1 != ::write(p->wr, "x", 1)) {
        return;
    }
    const auto seed = rng.next();
    must_return(
      [&] {
          run_threads(rng.range(2, 4), [&](int t) {
              Rng r(seed + static_cast<uint64_t>(t) * 31);
              auto mine = n;
              for (int i = 0; i < scaled(20); ++i) {
                  mine.resume();
                  jitter(r, 800);
                  mine.suspend();
                  jitter(r, 300);
              }
          });
      },
      "suspend() and resume() of a notifier from several threads");
    const int begun = w->called + w->active;
    w->limit = begun + 1;
    sleep_us(5000);
    w->limit = 1 << 30;
    n.resume();
    const int from = w->called;
    must([&] { return w->called >= from + 3; }, "a resumed notifier to be invoked", [&] { return w->log.tail(); });
    must_return([&] { n.cancel(); }, "cancel() of a notifier");
    w->forbidden = true;
    vh::stat("calls", w->called);
    trace(w->log, "concurrent");
}

static void
cancel_race(Rng& rng, int)
{
    for (int round = 0; round < scaled(8) && !any_violation(); ++round) {
        auto p = std::make_shared<Pair>(rng);
        auto w = std::make_shared<Watch>(8192);
        bool ser = false;
        auto q = any_queue(rng, ser);
        auto n = std::make_shared<xd::socket_notifier>(make_notifier(p->rd, xd::notifier_type::READ, q));
        const int fd = p->rd;
        const long us = static_cast<long>(rng.below(1500));
        {
            Token token(&w->live);
            n->handler([=](xd::socket_t sock, xd::notifier_type type) {
                w->enter(sock, type, fd, xd::notifier_type::READ);
                if (!token.alive()) {
                    violation("notifier-released", "the handler was released while executing");
                }
                sleep_us(us);
                w->leave();
            });
        }
        const bool data = !rng.chance(4);
        if (data && 1 != ::write(p->wr, "x", 1)) {
            return;
        }
        if (rng.chance(2)) {
            n->resume();
        }
        const int cancellers = rng.range(1, 4);
        const int resumers = rng.range(0, 2);
        const auto seed = rng.next();
        const long head_start = static_cast<long>(rng.below(4000));
        must_return(
          [&] {
              run_threads(cancellers + resumers, [&](int t) {
                  Rng r(seed + static_cast<uint64_t>(t));
                  xd::socket_notifier mine = *n;
                  if (t < cancellers) {
                      sleep_us(head_start);
                      jitter(r, 500);
                      w->log.add(CANCEL, t);
                      mine.cancel();
                      if (0 != w->active) {
                          violation("notifier-active-after-cancel", str("cancel() returned while the handler is executing: ", w->log.tail()));
                      }
                      w->forbidden = true;
                      w->log.add(CANCELLED, t);
                  } else {
                      for (int i = 0; i < 20; ++i) {
                          mine.resume();
                          jitter(r, 300);
                          mine.suspend();
                      }
                      mine.resume();
                  }
              });
          },
          "cancel() of a notifier to return");
        n->resume();
        if (rng.chance(3)) {
            n->suspend();
            n->suspend();
            n->resume();
        }
        sleep_us(static_cast<long>(rng.below(3000)));
        vh::stat("calls", w->called);
        trace(w->log, "cancel");
        n.reset();
        // ends the poll() of a worker
        p->close_wr();
        must([&] { return 0 == w->live; }, "the handler of a cancelled notifier to be released");
    }
}

static void
cancel_pending(Rng& rng, int)
{
    auto p = std::make_shared<Pair>(rng);
    auto w = std::make_shared<Watch>(1024);
    auto gate = std::make_shared<Gate>();
    std::atomic<bool> entered{ false };
    auto q = serial("blocked");
    auto n = std::make_shared<xd::socket_notifier>(make_notifier(p->rd, xd::notifier_type::READ, q));
    {
        Token token(&w->live);
        const int fd = p->rd;
        n->handler([w, token, fd](xd::socket_t s, xd::notifier_type t) {
            w->enter(s, t, fd, xd::notifier_type::READ);
            w->leave();
        });
    }
    q.async([gate, &entered] {
        entered = true;
        gate->pass();
    });
    must([&] { return entered.load(); }, "operation of a serial queue");
    n->resume();
    if (1 != ::write(p->wr, "x", 1)) {
        return;
    }
    sleep_us(static_cast<long>(rng.below(6000)));
    if (rng.chance(2)) {
        must_return([&] { n->cancel(); }, "cancel() of a notifier with a pending handler");
    } else {
        must_return([&] { run_threads(3, [&](int) { xd::socket_notifier(*n).cancel(); }); }, "concurrent cancel() of a notifier with a pending handler");
    }
    w->forbidden = true;
    w->log.add(CANCELLED);
    if (rng.chance(2)) {
        n->resume();
    }
    if (rng.chance(2)) {
        n.reset();
    }
    gate->open();
    sleep_us(static_cast<long>(rng.below(5000)));
    std::atomic<bool> flushed{ false };
    q.async([&flushed] { flushed = true; });
    must([&] { return flushed.load(); }, "queue of a cancelled notifier");
    if (0 != w->called) {
        violation("notifier-after-cancel", "a pending handler was executed after cancel()");
    }
    n.reset();
    p->close_wr();
    must([&] { return 0 == w->live; }, "the handler of a cancelled notifier to be released");
    vh::stat("cancels_pending");
    trace(w->log, "cancel pending");
}

static void
cancel_self(Rng& rng, int)
{
    for (int round = 0; round < scaled(8) && !any_violation(); ++round) {
        auto p = std::make_shared<Pair>(rng);
        auto w = std::make_shared<Watch>(1024);
        bool ser = false;
        auto q = any_queue(rng, ser);
        auto n = std::make_shared<xd::socket_notifier>(make_notifier(p->rd, xd::notifier_type::READ, q));
        auto weak = std::weak_ptr<xd::socket_notifier>(n);
        const int fd = p->rd;
        const int at = rng.range(0, 3);
        const long tail = static_cast<long>(rng.below(2000));
        auto ended = std::make_shared<std::atomic<bool>>(false);
        auto started = std::make_shared<std::atomic<bool>>(false);
        const bool just_suspend = rng.chance(3);
        {
            Token token(&w->live);
            n->handler([=](xd::socket_t s, xd::notifier_type t) {
                if (*ended) {
                    violation("notifier-after-cancel", "the handler was started again after it had cancelled its own notifier");
                }
                w->enter(s, t, fd, xd::notifier_type::READ);
                w->leave();
                if (w->called > at) {
                    auto l = weak.lock();
                    *started = true;
                    if (l) {
                        just_suspend ? l->suspend() : l->cancel();
                        l.reset();
                    }
                    sleep_us(tail);
                    *ended = true;
                }
            });
        }
        if (1 != ::write(p->wr, "x", 1)) {
            return;
        }
        n->resume();
        must([&] { return started->load(); }, "handler of a notifier");
        if (!just_suspend) {
            const int others = rng.range(0, 3);
            if (others) {
                must_return(
                  [&] {
                      run_threads(others, [&](int) {
                          xd::socket_notifier(*n).cancel();
                          if (!*ended) {
                              violation("notifier-active-after-cancel", "cancel() returned while the handler, which had cancelled the notifier as well, is still executing");
                          }
                      });
                  },
                  "cancel() next to a handler which cancelled its notifier");
            }
        }
        if (rng.chance(2)) {
            n.reset();
        }
        must([&] { return ended->load(); }, "handler which cancelled its notifier");
        sleep_us(static_cast<long>(rng.below(3000)));
        if (w->called != at + 1) {
            violation("notifier-after-cancel", str(w->called.load(), " invocations, cancelled by the handler in invocation ", at + 1));
        }
        n.reset();
        p->close_wr();
        must([&] { return 0 == w->live; }, "the handler of a notifier to be released once dropped");
        vh::stat("calls", w->called);
        trace(w->log, "cancel self");
    }
}

int
main(int argc, char** argv)
{
    return run_main(argc,
                    argv,
                    { { "read_data", read_data },
                      { "write_ready", write_ready },
                      { "levels", levels },
                      { "invalid", invalid },
        { "quiet", quiet },
                      { "many", many },
                      { "suspend_resume", suspend_resume },
                      { "busy_queue", busy_queue },
                      { "concurrent_control", concurrent_control },
                      { "cancel_race", cancel_race },
                      { "cancel_pending", cancel_pending },
                      { "cancel_self", cancel_self } });
}
