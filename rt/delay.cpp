// Delay-injection runtime. Compiled without any instrumentation.
// vh_delay_site() is invoked from compiler-inserted callbacks (clang
// trace-pc-guard edges in the asan/tsan flavours, gcc -fsanitize=thread access
// callbacks in the chaos flavour) and perturbs the schedule as configured by
//   VH_DELAY=<mode>:<seed>[:<budget_ms>]
// mode 0 none, 1 uniform, 2 hot sites, 3 slow threads, 4 few very hot sites
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define NOI __attribute__((no_sanitize("address", "thread", "undefined"), noinline))

extern "C" {

struct vh_delay_stats
{
    volatile uint64_t events;
    volatile uint64_t delays;
    volatile uint64_t delayed_us;
    volatile uint64_t spurious_cas;
    volatile uint64_t spurious_wake;
    volatile uint64_t shrunk_waits;
};
vh_delay_stats vh_dstats;
unsigned char vh_site_seen[1 << 16];
unsigned char vh_site_delayed[1 << 16];

static int s_mode = -1;
static uint64_t s_seed = 1;
static int64_t s_budget_us = 6000000;
static int64_t s_used_us = 0;

static __thread uint64_t t_rng = 0;
static __thread uint32_t t_events = 0;
static __thread uint32_t t_id = 0;
static __thread int t_in = 0;
static __thread int64_t t_used = 0;
static uint32_t s_next_id = 0;
int vh_delay_off = 0;

NOI static uint64_t
mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

NOI static void
init()
{
    const char* e = getenv("VH_DELAY");
    int mode = 0;
    if (e) {
        mode = atoi(e);
        const char* c = strchr(e, ':');
        if (c) {
            s_seed = strtoull(c + 1, nullptr, 10);
            c = strchr(c + 1, ':');
            if (c) {
                s_budget_us = atoll(c + 1) * 1000;
            }
        }
    }
    __atomic_store_n(&s_mode, mode, __ATOMIC_RELEASE);
}

NOI uint64_t
vh_rt_rand()
{
    if (0 == t_rng) {
        t_id = __atomic_add_fetch(&s_next_id, 1, __ATOMIC_RELAXED);
        t_rng = mix(s_seed * 1000003 + t_id) | 1;
    }
    t_rng ^= t_rng << 13;
    t_rng ^= t_rng >> 7;
    t_rng ^= t_rng << 17;
    return t_rng;
}

NOI static void
nap(uint32_t us, uint32_t slot)
{
    const int64_t used = __atomic_add_fetch(&s_used_us, us, __ATOMIC_RELAXED);
    if (used > s_budget_us || t_used > s_budget_us / 3) {
        return;
    }
    t_used += us;
    const int e = errno;
    struct timespec ts = { 0, (long)us * 1000 };
    syscall(SYS_nanosleep, &ts, nullptr);
    errno = e;
    vh_site_delayed[slot] = 1;
    __atomic_add_fetch(&vh_dstats.delays, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&vh_dstats.delayed_us, us, __ATOMIC_RELAXED);
}

NOI void
vh_delay_site(uint64_t site)
{
    int mode = __atomic_load_n(&s_mode, __ATOMIC_ACQUIRE);
    if (mode <= 0 || vh_delay_off) {
        if (mode < 0) {
            init();
        } else {
            return;
        }
        mode = s_mode;
    }
    if (t_in) {
        return;
    }
    t_in = 1;
    const uint64_t h = mix(site ^ (s_seed << 17));
    const uint32_t slot = (uint32_t)(mix(site) & 0xffff);
    vh_site_seen[slot] = 1;
    if (0 == (++t_events & 0xff)) {
        __atomic_add_fetch(&vh_dstats.events, 256, __ATOMIC_RELAXED);
    }
    const uint64_t r = vh_rt_rand();
    switch (mode) {
        case 1:
            if (0 == (r & 0x7ff)) {
                nap(50 + (uint32_t)((r >> 20) % 450), slot);
            } else if (1 == (r & 0x7f)) {
                const int e = errno;
                syscall(SYS_sched_yield);
                errno = e;
            }
            break;
        case 2:
            if (0 == h % 24 && 0 == (r & 3)) {
                nap(200 + (uint32_t)((r >> 20) % 2800), slot);
            }
            break;
        case 3:
            if (0 == (mix(t_id ^ (s_seed << 9) ^ (uint64_t)(t_events >> 9)) & 3) && 0 == (r & 31)) {
                nap(100 + (uint32_t)((r >> 20) % 700), slot);
            }
            break;
        case 4:
            if (0 == h % 120 && 0 == (r & 1)) {
                nap(3000 + (uint32_t)((r >> 20) % 12000), slot);
            }
            break;
        default:
            break;
    }
    t_in = 0;
}

// clang -fsanitize-coverage=trace-pc-guard
NOI void
__sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    static uint32_t n = 0;
    if (start == stop || *start) {
        return;
    }
    for (uint32_t* x = start; x < stop; ++x) {
        *x = ++n;
    }
}

NOI void
__sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
    vh_delay_site(*guard);
}
}
