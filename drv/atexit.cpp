// Workloads for the end of the process: children of this driver end in all
// kinds of states, the parent judges how. Sanitizer reports of a child arrive
// through the inherited stderr.
#include "util.h"

#include "xdispatch/barrier_operation.h"
#include "xdispatch/impl/iqueue_impl.h"
#include "xdispatch/signals.h"
#include "xdispatch/socket_notifier.h"
#include "xdispatch/waitable_queue.h"

#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(VH_QT)
    #include <QtCore/QCoreApplication>
#endif

extern char** environ;

// a thread which just ended on its own is of no interest here
extern "C" __attribute__((used, visibility("default"), no_sanitize("thread"), disable_sanitizer_instrumentation)) const char*
__tsan_default_options()
{
    return "report_thread_leaks=0:atexit_sleep_ms=200";
}

using namespace vh;
namespace xd = xdispatch;

namespace {

// ---- the child ------------------------------------------------------------------

// never destroyed, operations and handlers only use this
struct State
{
    std::atomic<long> ops{ 0 };
    std::atomic<long> handlers{ 0 };
    std::atomic<bool> exiting{ false };
    Gate never;
    xd::signal<void(int)> sig;
    xd::signal<void(int)> sig_chained;
    std::vector<xd::queue> queues;
    xd::group pending;
    xd::barrier_operation bar;
    int status = 0;
    int report = -1;
};

State*
state()
{
    static auto* s = new State;
    return s;
}

[[noreturn]] void
leave()
{
    auto* s = state();
    if (s->exiting.exchange(true)) {
        // exit() must not be called twice
        for (;;) {
            ::pause();
        }
    }
    const auto text = str(s->ops.load(), " ", s->handlers.load());
    (void)!::write(s->report, text.data(), text.size());
    ::exit(s->status);
}

// everything here gets destroyed by exit()
struct Globals
{
    std::vector<xd::queue> queues;
    std::vector<std::unique_ptr<xd::signal<void(int)>>> sigs;
    std::vector<xd::connection> connections;
    std::vector<xd::scoped_connection> scoped;
    xd::connection_manager manager;
    std::vector<xd::timer> timers;
    std::vector<std::unique_ptr<xd::socket_notifier>> notifiers;
    std::vector<xd::group> groups;
    std::vector<std::unique_ptr<xd::waitable_queue>> waitables;
    std::vector<xd::operation_ptr> operations;
    std::vector<std::shared_ptr<xd::barrier_operation>> barriers;
    int use = 0;
};

const char*
child_seed()
{
    return ::getenv("VH_EXIT_CHILD");
}

// touches the library before main(), so its own globals are destroyed later
struct Early : Globals
{
    Early()
    {
        const char* seed = child_seed();
        if (!seed) {
            return;
        }
        Rng rng(strtoull(seed, nullptr, 10) ^ 0xEA51);
        if (rng.chance(2)) {
            return;
        }
        use = 1;
        if (rng.chance(2)) {
            queues.push_back(xd::global_queue());
        }
        if (rng.chance(2)) {
            queues.push_back(xd::queue("early"));
            queues.back().async([] { ++state()->ops; });
        }
#if !defined(VH_QT)
        // is not the one of Qt without an application
        if (rng.chance(3)) {
            queues.push_back(xd::main_queue());
        }
#endif
        if (rng.chance(2)) {
            groups.emplace_back();
            groups.back().async([] { ++state()->ops; });
        }
        if (rng.chance(3)) {
            timers.emplace_back(ms(1));
            timers.back().handler([] { ++state()->handlers; });
            timers.back().resume();
        }
        if (rng.chance(2)) {
            sigs.emplace_back(new xd::signal<void(int)>);
            manager += sigs.back()->connect([](int) { ++state()->handlers; });
            (*sigs.back())(1);
        }
        if (rng.chance(3)) {
            waitables.emplace_back(new xd::waitable_queue("early", xd::global_queue()));
            waitables.back()->async([] { ++state()->ops; });
        }
    }
};

Early early;

template<int N>
Globals&
late()
{
    static Globals g;
    g.use = N;
    return g;
}

Globals&
globals(Rng& rng)
{
    switch (rng.below(4)) {
        case 0:
            return late<1>();
        case 1:
            return late<2>();
        case 2:
            return late<3>();
        default:
            return early;
    }
}

// the storms must not starve the workers of timers and notifiers
xd::queue_priority
low(Rng& rng)
{
    return rng.chance(3) ? xd::queue_priority::BACKGROUND : rng.chance(2) ? xd::queue_priority::UTILITY : xd::queue_priority::DEFAULT;
}

xd::queue
pick(Rng& rng)
{
    auto* s = state();
    switch (rng.below(4)) {
        case 0:
            // looked up again while the process ends
            return xd::global_queue(low(rng));
        case 1:
            return rng.chance(2) ? serial("x", low(rng)) : parallel("x", low(rng));
        default:
            return s->queues.empty() ? xd::global_queue() : s->queues[rng.below(s->queues.size())];
    }
}

// Operations which never end must leave a thread of the pool to the others:
// for a single configured thread there are two
bool
may_block(int threads = 1)
{
    static int left = [] {
        const char* n = ::getenv("XDISPATCH2_THREAD_COUNT");
        return n && atoi(n) < 2 ? 1 : 2;
    }();
    if (left < threads) {
        return false;
    }
    left -= threads;
    return true;
}

// neither blocked nor starved by what else is going on
xd::queue
pick_end(Rng& rng)
{
    const auto p = xd::queue_priority::USER_INTERACTIVE;
    return rng.chance(2) ? serial("end", p) : rng.chance(2) ? parallel("end", p) : xd::global_queue(p);
}

// submits itself until the very end
void
storm(uint64_t seed)
{
    Rng rng(seed);
    auto* s = state();
    ++s->ops;
    spin_us(static_cast<long>(rng.below(60)));
    switch (rng.below(8)) {
        case 0:
            pick(rng).apply(rng.below(4), [s](size_t) { ++s->ops; });
            break;
        case 1:
            s->sig(1);
            break;
        case 2: {
            xd::group g;
            g.async([s] { ++s->ops; }, pick(rng));
            if (rng.chance(2)) {
                g.wait(ms(1));
            }
            g.notify([s] { ++s->ops; }, pick(rng));
            break;
        }
        case 3: {
            xd::timer t(ms(0), pick(rng));
            t.handler([s] { ++s->handlers; });
            t.resume(ms(rng.below(3)));
            break;
        }
        case 4: {
            auto c = s->sig.connect([s](int) { ++s->handlers; }, pick(rng));
            s->sig(2);
            c.disconnect();
            break;
        }
        case 5:
            pick(rng).after(ms(rng.below(4)), [s] { ++s->ops; });
            break;
        case 6: {
            xd::waitable_queue w("w", pick(rng));
            w.async([s] { ++s->ops; });
            if (rng.chance(2)) {
                w.wait_for_one();
            }
            break;
        }
        default:
            break;
    }
    const auto next = rng.next();
    if (rng.chance(40)) {
        pick(rng).after(ms(1), [next] { storm(next); });
    } else {
        pick(rng).async([next] { storm(next); });
    }
}

void
populate(Rng& rng)
{
    auto* s = state();
    for (int i = 0, n = rng.range(0, 3); i < n; ++i) {
        s->queues.push_back(rng.chance(2) ? serial("s", low(rng)) : parallel("p", low(rng)));
    }
    if (rng.chance(3)) {
        s->sig.connect(s->sig_chained);
    }
    const int kinds = rng.range(0, 7);
    for (int k = 0; k < kinds; ++k) {
        auto& g = globals(rng);
        switch (rng.below(16)) {
            case 0:
                g.queues.push_back(pick(rng));
                for (int i = 0, n = rng.range(0, 10); i < n; ++i) {
                    g.queues.back().async([s] { ++s->ops; });
                }
                break;
            case 1:
            case 2:
            case 3: {
                const int n = rng.range(1, 4);
                for (int i = 0; i < n; ++i) {
                    const auto seed = rng.next();
                    pick(rng).async([seed] { storm(seed); });
                }
                break;
            }
            case 4:
                // blocked forever
                if (may_block()) {
                    pick(rng).async([s] {
                        ++s->ops;
                        s->never.pass();
                    });
                }
                break;
            case 5:
                // waiting for a group does not occupy a thread, else it does
                if (const auto how = rng.below(3); may_block(2 == how ? 2 : 1)) {
                    if (0 == how) {
                        s->pending.async([s] { s->never.pass(); }, parallel("b"));
                    }
                    parallel("b").async([s, how] {
                        ++s->ops;
                        if (0 == how) {
                            s->pending.wait();
                        } else if (1 == how) {
                            s->bar.wait();
                        } else {
                            static auto* w = new xd::waitable_queue("w", parallel("b"));
                            w->async([s] { s->never.pass(); });
                            w->wait_for_all();
                        }
                    });
                }
                break;
            case 6:
            case 7: {
                // timers
                xd::timer t(ms(rng.range(1, 3)), pick(rng));
                const auto spin = static_cast<long>(rng.below(500));
                t.handler([s, spin] {
                    ++s->handlers;
                    spin_us(spin);
                });
                t.resume(ms(rng.below(3)));
                if (rng.chance(2)) {
                    g.timers.push_back(t);
                }
                break;
            }
            case 8: {
                // a notifier which is always ready
                int fds[2];
                if (0 == ::socketpair(AF_UNIX, SOCK_STREAM, 0, fds)) {
                    auto n = std::make_unique<xd::socket_notifier>(fds[0], rng.chance(2) ? xd::notifier_type::READ : xd::notifier_type::WRITE, pick(rng));
                    if (rng.chance(2)) {
                        (void)!::write(fds[1], "x", 1);
                    }
                    n->handler([s](xd::socket_t, xd::notifier_type) { ++s->handlers; });
                    n->resume();
                    if (rng.chance(2)) {
                        g.notifiers.push_back(std::move(n));
                    } else if (rng.chance(2)) {
                        n.release();
                    }
                }
                break;
            }
            case 9:
            case 10: {
                // connections of a signal which outlives them
                const auto spin = static_cast<long>(rng.below(300));
                auto c = s->sig.connect(
                  [s, spin](int) {
                      ++s->handlers;
                      spin_us(spin);
                  },
                  pick(rng),
                  rng.chance(2) ? xd::notification_mode::single_updates : xd::notification_mode::batch_updates);
                switch (rng.below(4)) {
                    case 0:
                        g.connections.push_back(c);
                        break;
                    case 1:
                        g.scoped.emplace_back(c);
                        break;
                    case 2:
                        g.manager += c;
                        break;
                    default:
                        break;
                }
                break;
            }
            case 11: {
                // a signal which ends, with pending and active handlers
                g.sigs.emplace_back(new xd::signal<void(int)>);
                auto& sig = *g.sigs.back();
                const auto spin = static_cast<long>(rng.below(300));
                auto c = sig.connect(
                  [s, spin](int) {
                      ++s->handlers;
                      spin_us(spin);
                  },
                  pick(rng));
                if (rng.chance(2)) {
                    g.connections.push_back(c);
                }
                for (int i = 0, n = rng.range(0, 20); i < n; ++i) {
                    sig(i);
                }
                break;
            }
            case 12: {
                g.waitables.emplace_back(new xd::waitable_queue("w", pick(rng)));
                for (int i = 0, n = rng.range(0, 20); i < n; ++i) {
                    g.waitables.back()->async([s] {
                        ++s->ops;
                        spin_us(20);
                    });
                }
                break;
            }
            case 13: {
                g.groups.emplace_back();
                for (int i = 0, n = rng.range(0, 10); i < n; ++i) {
                    g.groups.back().async([s] { ++s->ops; }, pick(rng));
                }
                g.groups.back().notify([s] { ++s->ops; }, pick(rng));
                break;
            }
            case 14: {
                g.barriers.push_back(std::make_shared<xd::barrier_operation>());
                pick(rng).async(g.barriers.back());
                g.operations.push_back(std::make_shared<FnOp>([s] { ++s->ops; }));
                pick(rng).async(g.operations.back());
                pick(rng).after(ms(rng.below(5)), g.operations.back());
                pick(rng).after(ms(100000), g.operations.back());
                break;
            }
            default: {
                // threads of the application which do not stop either
                const auto seed = rng.next();
                std::thread([s, seed] {
                    Rng x(seed);
                    for (;;) {
                        ++s->ops;
                        pick(x).async([s] { ++s->ops; });
                        s->sig(1);
                        sleep_us(static_cast<long>(x.below(300)));
                    }
                }).detach();
                break;
            }
        }
    }
}

// calls leave() from various places, does not return but for mode 0
void
end(Rng& rng, int mode)
{
    switch (mode) {
        case 0:
        case 1:
            return;
        case 2:
            pick_end(rng).async([] { leave(); });
            break;
        case 3: {
            static auto* t = new xd::timer(ms(1), pick_end(rng));
            t->handler([] { leave(); });
            t->resume();
            break;
        }
        case 4: {
            static auto* sig = new xd::signal<void(int)>;
            auto& g = globals(rng);
            auto c = sig->connect([](int) { leave(); }, pick_end(rng), rng.chance(2) ? xd::notification_mode::single_updates : xd::notification_mode::batch_updates);
            switch (rng.below(3)) {
                case 0:
                    g.scoped.emplace_back(c);
                    break;
                case 1:
                    g.manager += c;
                    break;
                default:
                    break;
            }
            (*sig)(1);
            break;
        }
        case 5:
            // the signal itself ends while one of its handlers is active
            {
                auto& g = globals(rng);
                g.sigs.emplace_back(new xd::signal<void(int)>);
                g.sigs.back()->connect([](int) { leave(); }, pick_end(rng));
                (*g.sigs.back())(1);
            }
            break;
        case 6:
            std::thread([] { leave(); }).detach();
            break;
        case 7: {
            int fds[2];
            if (0 != ::pipe(fds)) {
                leave();
            }
            (void)!::write(fds[1], "x", 1);
            auto& g = globals(rng);
            g.notifiers.emplace_back(new xd::socket_notifier(fds[0], xd::notifier_type::READ, pick_end(rng)));
            g.notifiers.back()->handler([](xd::socket_t, xd::notifier_type) { leave(); });
            g.notifiers.back()->resume();
            break;
        }
        case 8:
            xd::main_queue().async([] { leave(); });
            break;
        case 9: {
            static auto* g = new xd::group;
            g->async([] {}, pick_end(rng));
            g->notify([] { leave(); }, pick_end(rng));
            break;
        }
        default:
            pick_end(rng).after(ms(rng.below(4)), [] { leave(); });
            break;
    }
}

int
child(int argc, char** argv, uint64_t seed, int mode)
{
    Rng rng(seed);
    auto* s = state();
    s->status = rng.chance(2) ? 0 : rng.range(1, 60);
    s->report = 3;
#if defined(VH_QT)
    static auto* app = new QCoreApplication(argc, argv);
    (void)app;
#endif
    (void)argc;
    (void)argv;
    populate(rng);
    sleep_us(static_cast<long>(rng.below(4) ? rng.below(3000) : rng.below(20000)));
    end(rng, mode);
    if (0 == mode) {
        const auto text = str(s->ops.load(), " ", s->handlers.load());
        (void)!::write(s->report, text.data(), text.size());
        return s->status;
    }
    if (1 == mode) {
        leave();
    }
    // where the main thread is meanwhile
    switch (8 == mode ? 0 : rng.below(5)) {
        case 0:
            xd::exec();
            break;
        case 1:
            if (may_block()) {
                xd::group g;
                g.async([s] { s->never.pass(); }, parallel("b"));
                g.wait();
            }
            break;
        case 2:
            s->bar.wait();
            break;
        case 3:
            for (;;) {
                storm(rng.next());
                sleep_us(100);
            }
            break;
        default:
            break;
    }
    for (;;) {
        ::pause();
    }
}

} // namespace

// ---- the parent -------------------------------------------------------------------

static uint64_t
cpu_ms(pid_t pid)
{
    char path[64];
    char buf[2048];
    snprintf(path, sizeof(path), "/proc/%d/stat", static_cast<int>(pid));
    const int fd = ::open(path, O_RDONLY);
    if (fd < 0) {
        return 0;
    }
    const auto n = ::read(fd, buf, sizeof(buf) - 1);
    ::close(fd);
    buf[n > 0 ? n : 0] = 0;
    const char* p = strrchr(buf, ')');
    unsigned long ut = 0;
    unsigned long st = 0;
    if (p) {
        sscanf(p + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
    }
    return (ut + st) * 10;
}

static void
exits_mode(Rng& rng, const std::vector<int>& modes)
{
    Log log(64);
    const int children = scaled(4);
    for (int i = 0; i < children && !any_violation(); ++i) {
        const auto seed = rng.next() >> 8;
        const int mode = modes[rng.below(modes.size())];
        int expected = 0;
        {
            // as the child does
            Rng x(seed);
            expected = x.chance(2) ? 0 : x.range(1, 60);
        }
        int report[2];
        if (0 != ::pipe(report)) {
            return;
        }
        ::fcntl(report[0], F_SETFD, FD_CLOEXEC);
        ::fcntl(report[1], F_SETFD, FD_CLOEXEC);
        const auto env_seed = str("VH_EXIT_CHILD=", seed);
        const auto env_mode = str("VH_EXIT_MODE=", mode);
        const auto env_backend = str("VH_EXIT_BACKEND=", opt.backend);
        std::vector<char*> envs;
        for (char** e = environ; *e; ++e) {
            envs.push_back(*e);
        }
        for (const auto* e : { &env_seed, &env_mode, &env_backend }) {
            envs.push_back(const_cast<char*>(e->c_str()));
        }
        envs.push_back(nullptr);
        char name[] = "exit_child";
        char* argv[] = { name, nullptr };
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_adddup2(&fa, report[1], 3);
        pid_t pid = -1;
        const int rc = ::posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, argv, envs.data());
        posix_spawn_file_actions_destroy(&fa);
        ::close(report[1]);
        if (0 != rc) {
            ::close(report[0]);
            continue;
        }
        const auto start = now_ns();
        int st = 0;
        bool ended = false;
        const uint64_t limit_s = 60;
        while (now_ns() - start < limit_s * 1000000000ULL) {
            const auto r = ::waitpid(pid, &st, WNOHANG);
            if (r == pid) {
                ended = true;
                break;
            }
            sleep_us(500);
        }
        const auto what = str("child seed=", seed, " mode=", mode);
        if (!ended) {
            const auto cpu = cpu_ms(pid);
            char buf[64];
            ::fcntl(report[0], F_SETFL, O_NONBLOCK);
            const bool left = ::read(report[0], buf, sizeof(buf)) > 0;
            ::kill(pid, SIGKILL);
            ::waitpid(pid, &st, 0);
            if (left) {
                violation("exit-hangs", str(what, " did not end after calling exit(), consumed ", cpu, " ms of processor time"));
            } else {
                // whether operations get to execute is none of the questions asked here
                vh::stat("children_not_reaching_exit");
                vh::sample(str(what, " did not call exit()"));
            }
        } else {
            char buf[64];
            const auto n = ::read(report[0], buf, sizeof(buf) - 1);
            buf[n > 0 ? n : 0] = 0;
            long ops = 0;
            long handlers = 0;
            sscanf(buf, "%ld %ld", &ops, &handlers);
            log.add(static_cast<uint32_t>(mode), ops, handlers);
            vh::stat("child_operations", ops);
            vh::stat("child_handlers", handlers);
            vh::stat("children");
            if (WIFSIGNALED(st)) {
                violation("exit-crash", str(what, " ended by signal ", WTERMSIG(st)));
            } else if (WEXITSTATUS(st) != expected) {
                violation("exit-status", str(what, " ended with status ", WEXITSTATUS(st), " instead of ", expected));
            } else if (n <= 0) {
                violation("exit-early", str(what, " ended before it called exit()"));
            }
        }
        ::close(report[0]);
    }
    trace(log);
}

static void
exit_main(Rng& rng, int)
{
    exits_mode(rng, { 0, 1 });
}

static void
exit_elsewhere(Rng& rng, int)
{
    exits_mode(rng, { 2, 2, 6, 8, 9, 10 });
}

static void
exit_handler(Rng& rng, int)
{
    exits_mode(rng, { 3, 4, 4, 5, 5, 7 });
}

int
main(int argc, char** argv)
{
    if (const char* seed = child_seed()) {
        const char* mode = ::getenv("VH_EXIT_MODE");
        const char* be = ::getenv("VH_EXIT_BACKEND");
        opt.backend = be ? be : "naive";
        return child(argc, argv, strtoull(seed, nullptr, 10), mode ? atoi(mode) : 0);
    }
    opt.interrupts = false;
    return run_main(argc,
                    argv,
                    {
                      { "exit_main", exit_main },
                      { "exit_elsewhere", exit_elsewhere },
                      { "exit_handler", exit_handler },
                    });
}
