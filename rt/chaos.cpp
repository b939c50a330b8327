// Own implementation of the callbacks gcc -fsanitize=thread emits: every shared
// access and atomic operation of the library becomes a preemption point, weak
// compare-exchange may fail spuriously, condition waits may wake spuriously and
// long timed waits (thread idle expiry) can be shortened.
// GENERATED PARTS are macro expansions; compiled without instrumentation.
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

extern "C" {
struct vh_delay_stats
{
    volatile uint64_t events, delays, delayed_us, spurious_cas, spurious_wake, shrunk_waits;
};
extern vh_delay_stats vh_dstats;
void vh_delay_site(uint64_t site);
uint64_t vh_rt_rand();
extern int vh_delay_off;

static __thread uint64_t t_ctx = 0;
static int s_weak = -1; // 1/n probability of spurious weak CAS failure
static int s_wake = 0;  // 1/n probability of spurious condition wakeup
static int s_idle = 0;  // ms to which waits longer than 5s get shortened

static void chaos_init()
{
    const char* e = getenv("VH_WEAK");
    const char* k = getenv("VH_WAKE");
    const char* i = getenv("VH_IDLE_MS");
    s_wake = k ? atoi(k) : 0;
    s_idle = i ? atoi(i) : 0;
    __atomic_store_n(&s_weak, e ? atoi(e) : 0, __ATOMIC_RELEASE);
}
static inline int weak_cfg()
{
    if (__atomic_load_n(&s_weak, __ATOMIC_ACQUIRE) < 0) chaos_init();
    return s_weak;
}
#define SITE() vh_delay_site((uint64_t)(uintptr_t)__builtin_return_address(0) ^ (t_ctx << 20))

void __tsan_init() {}
void __tsan_func_entry(void* pc) { t_ctx = (t_ctx << 7) ^ ((uint64_t)(uintptr_t)pc & 0xffffff); (void)t_ctx; t_ctx = (uint64_t)(uintptr_t)pc & 0xffffff; }
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*, unsigned long) { SITE(); }
void __tsan_write_range(void*, unsigned long) { SITE(); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); SITE(); }
void __tsan_atomic_signal_fence(int) {}

void __tsan_read1(void*) { SITE(); }
void __tsan_write1(void*) { SITE(); }
void __tsan_unaligned_read1(void*) { SITE(); }
void __tsan_unaligned_write1(void*) { SITE(); }
void __tsan_volatile_read1(void*) { SITE(); }
void __tsan_volatile_write1(void*) { SITE(); }
void __tsan_unaligned_volatile_read1(void*) { SITE(); }
void __tsan_unaligned_volatile_write1(void*) { SITE(); }
void __tsan_read_write1(void*) { SITE(); }
void __tsan_unaligned_read_write1(void*) { SITE(); }
void __tsan_read2(void*) { SITE(); }
void __tsan_write2(void*) { SITE(); }
void __tsan_unaligned_read2(void*) { SITE(); }
void __tsan_unaligned_write2(void*) { SITE(); }
void __tsan_volatile_read2(void*) { SITE(); }
void __tsan_volatile_write2(void*) { SITE(); }
void __tsan_unaligned_volatile_read2(void*) { SITE(); }
void __tsan_unaligned_volatile_write2(void*) { SITE(); }
void __tsan_read_write2(void*) { SITE(); }
void __tsan_unaligned_read_write2(void*) { SITE(); }
void __tsan_read4(void*) { SITE(); }
void __tsan_write4(void*) { SITE(); }
void __tsan_unaligned_read4(void*) { SITE(); }
void __tsan_unaligned_write4(void*) { SITE(); }
void __tsan_volatile_read4(void*) { SITE(); }
void __tsan_volatile_write4(void*) { SITE(); }
void __tsan_unaligned_volatile_read4(void*) { SITE(); }
void __tsan_unaligned_volatile_write4(void*) { SITE(); }
void __tsan_read_write4(void*) { SITE(); }
void __tsan_unaligned_read_write4(void*) { SITE(); }
void __tsan_read8(void*) { SITE(); }
void __tsan_write8(void*) { SITE(); }
void __tsan_unaligned_read8(void*) { SITE(); }
void __tsan_unaligned_write8(void*) { SITE(); }
void __tsan_volatile_read8(void*) { SITE(); }
void __tsan_volatile_write8(void*) { SITE(); }
void __tsan_unaligned_volatile_read8(void*) { SITE(); }
void __tsan_unaligned_volatile_write8(void*) { SITE(); }
void __tsan_read_write8(void*) { SITE(); }
void __tsan_unaligned_read_write8(void*) { SITE(); }
void __tsan_read16(void*) { SITE(); }
void __tsan_write16(void*) { SITE(); }
void __tsan_unaligned_read16(void*) { SITE(); }
void __tsan_unaligned_write16(void*) { SITE(); }
void __tsan_volatile_read16(void*) { SITE(); }
void __tsan_volatile_write16(void*) { SITE(); }
void __tsan_unaligned_volatile_read16(void*) { SITE(); }
void __tsan_unaligned_volatile_write16(void*) { SITE(); }
void __tsan_read_write16(void*) { SITE(); }
void __tsan_unaligned_read_write16(void*) { SITE(); }
uint8_t __tsan_atomic8_load(const volatile uint8_t* a, int) { SITE(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic8_store(volatile uint8_t* a, uint8_t v, int) { SITE(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); SITE(); }
uint8_t __tsan_atomic8_exchange(volatile uint8_t* a, uint8_t v, int) { SITE(); uint8_t r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint8_t __tsan_atomic8_fetch_add(volatile uint8_t* a, uint8_t v, int) { SITE(); uint8_t r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint8_t __tsan_atomic8_fetch_sub(volatile uint8_t* a, uint8_t v, int) { SITE(); uint8_t r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint8_t __tsan_atomic8_fetch_and(volatile uint8_t* a, uint8_t v, int) { SITE(); uint8_t r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint8_t __tsan_atomic8_fetch_or(volatile uint8_t* a, uint8_t v, int) { SITE(); uint8_t r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint8_t __tsan_atomic8_fetch_xor(volatile uint8_t* a, uint8_t v, int) { SITE(); uint8_t r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint8_t __tsan_atomic8_fetch_nand(volatile uint8_t* a, uint8_t v, int) { SITE(); uint8_t r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
int __tsan_atomic8_compare_exchange_strong(volatile uint8_t* a, uint8_t* c, uint8_t v, int, int) { SITE(); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); SITE(); return r; }
int __tsan_atomic8_compare_exchange_weak(volatile uint8_t* a, uint8_t* c, uint8_t v, int, int) {
    SITE();
    const int w = weak_cfg();
    if (w > 0 && 0 == vh_rt_rand() % (uint64_t)w) {
        *c = __atomic_load_n(a, __ATOMIC_SEQ_CST);
        __atomic_add_fetch(&vh_dstats.spurious_cas, 1, __ATOMIC_RELAXED);
        return 0;
    }
    int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    SITE();
    return r;
}
uint8_t __tsan_atomic8_compare_exchange_val(volatile uint8_t* a, uint8_t c, uint8_t v, int, int) { SITE(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); SITE(); return c; }
uint16_t __tsan_atomic16_load(const volatile uint16_t* a, int) { SITE(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic16_store(volatile uint16_t* a, uint16_t v, int) { SITE(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); SITE(); }
uint16_t __tsan_atomic16_exchange(volatile uint16_t* a, uint16_t v, int) { SITE(); uint16_t r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint16_t __tsan_atomic16_fetch_add(volatile uint16_t* a, uint16_t v, int) { SITE(); uint16_t r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint16_t __tsan_atomic16_fetch_sub(volatile uint16_t* a, uint16_t v, int) { SITE(); uint16_t r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint16_t __tsan_atomic16_fetch_and(volatile uint16_t* a, uint16_t v, int) { SITE(); uint16_t r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint16_t __tsan_atomic16_fetch_or(volatile uint16_t* a, uint16_t v, int) { SITE(); uint16_t r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint16_t __tsan_atomic16_fetch_xor(volatile uint16_t* a, uint16_t v, int) { SITE(); uint16_t r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint16_t __tsan_atomic16_fetch_nand(volatile uint16_t* a, uint16_t v, int) { SITE(); uint16_t r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
int __tsan_atomic16_compare_exchange_strong(volatile uint16_t* a, uint16_t* c, uint16_t v, int, int) { SITE(); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); SITE(); return r; }
int __tsan_atomic16_compare_exchange_weak(volatile uint16_t* a, uint16_t* c, uint16_t v, int, int) {
    SITE();
    const int w = weak_cfg();
    if (w > 0 && 0 == vh_rt_rand() % (uint64_t)w) {
        *c = __atomic_load_n(a, __ATOMIC_SEQ_CST);
        __atomic_add_fetch(&vh_dstats.spurious_cas, 1, __ATOMIC_RELAXED);
        return 0;
    }
    int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    SITE();
    return r;
}
uint16_t __tsan_atomic16_compare_exchange_val(volatile uint16_t* a, uint16_t c, uint16_t v, int, int) { SITE(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); SITE(); return c; }
uint32_t __tsan_atomic32_load(const volatile uint32_t* a, int) { SITE(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic32_store(volatile uint32_t* a, uint32_t v, int) { SITE(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); SITE(); }
uint32_t __tsan_atomic32_exchange(volatile uint32_t* a, uint32_t v, int) { SITE(); uint32_t r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint32_t __tsan_atomic32_fetch_add(volatile uint32_t* a, uint32_t v, int) { SITE(); uint32_t r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint32_t __tsan_atomic32_fetch_sub(volatile uint32_t* a, uint32_t v, int) { SITE(); uint32_t r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint32_t __tsan_atomic32_fetch_and(volatile uint32_t* a, uint32_t v, int) { SITE(); uint32_t r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint32_t __tsan_atomic32_fetch_or(volatile uint32_t* a, uint32_t v, int) { SITE(); uint32_t r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint32_t __tsan_atomic32_fetch_xor(volatile uint32_t* a, uint32_t v, int) { SITE(); uint32_t r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint32_t __tsan_atomic32_fetch_nand(volatile uint32_t* a, uint32_t v, int) { SITE(); uint32_t r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
int __tsan_atomic32_compare_exchange_strong(volatile uint32_t* a, uint32_t* c, uint32_t v, int, int) { SITE(); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); SITE(); return r; }
int __tsan_atomic32_compare_exchange_weak(volatile uint32_t* a, uint32_t* c, uint32_t v, int, int) {
    SITE();
    const int w = weak_cfg();
    if (w > 0 && 0 == vh_rt_rand() % (uint64_t)w) {
        *c = __atomic_load_n(a, __ATOMIC_SEQ_CST);
        __atomic_add_fetch(&vh_dstats.spurious_cas, 1, __ATOMIC_RELAXED);
        return 0;
    }
    int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    SITE();
    return r;
}
uint32_t __tsan_atomic32_compare_exchange_val(volatile uint32_t* a, uint32_t c, uint32_t v, int, int) { SITE(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); SITE(); return c; }
uint64_t __tsan_atomic64_load(const volatile uint64_t* a, int) { SITE(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic64_store(volatile uint64_t* a, uint64_t v, int) { SITE(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); SITE(); }
uint64_t __tsan_atomic64_exchange(volatile uint64_t* a, uint64_t v, int) { SITE(); uint64_t r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint64_t __tsan_atomic64_fetch_add(volatile uint64_t* a, uint64_t v, int) { SITE(); uint64_t r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint64_t __tsan_atomic64_fetch_sub(volatile uint64_t* a, uint64_t v, int) { SITE(); uint64_t r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint64_t __tsan_atomic64_fetch_and(volatile uint64_t* a, uint64_t v, int) { SITE(); uint64_t r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint64_t __tsan_atomic64_fetch_or(volatile uint64_t* a, uint64_t v, int) { SITE(); uint64_t r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint64_t __tsan_atomic64_fetch_xor(volatile uint64_t* a, uint64_t v, int) { SITE(); uint64_t r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
uint64_t __tsan_atomic64_fetch_nand(volatile uint64_t* a, uint64_t v, int) { SITE(); uint64_t r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); SITE(); return r; }
int __tsan_atomic64_compare_exchange_strong(volatile uint64_t* a, uint64_t* c, uint64_t v, int, int) { SITE(); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); SITE(); return r; }
int __tsan_atomic64_compare_exchange_weak(volatile uint64_t* a, uint64_t* c, uint64_t v, int, int) {
    SITE();
    const int w = weak_cfg();
    if (w > 0 && 0 == vh_rt_rand() % (uint64_t)w) {
        *c = __atomic_load_n(a, __ATOMIC_SEQ_CST);
        __atomic_add_fetch(&vh_dstats.spurious_cas, 1, __ATOMIC_RELAXED);
        return 0;
    }
    int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    SITE();
    return r;
}
uint64_t __tsan_atomic64_compare_exchange_val(volatile uint64_t* a, uint64_t c, uint64_t v, int, int) { SITE(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); SITE(); return c; }

// ---- pthread interposition -------------------------------------------------
typedef int (*cw_t)(pthread_cond_t*, pthread_mutex_t*);
typedef int (*ccw_t)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
typedef int (*cg_t)(clockid_t, struct timespec*);
static __thread int64_t t_skew_ns = 0;

__attribute__((visibility("default"))) int
pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static cw_t real = (cw_t)dlsym(RTLD_NEXT, "pthread_cond_wait");
    weak_cfg();
    SITE();
    if (s_wake > 0 && 0 == vh_rt_rand() % (uint64_t)s_wake) {
        __atomic_add_fetch(&vh_dstats.spurious_wake, 1, __ATOMIC_RELAXED);
        pthread_mutex_unlock(m);
        sched_yield();
        pthread_mutex_lock(m);
        return 0;
    }
    return real(c, m);
}

__attribute__((visibility("default"))) int
clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    static cg_t real = (cg_t)dlsym(RTLD_NEXT, "clock_gettime");
    const int r = real(id, ts);
    if (0 == r && t_skew_ns && CLOCK_MONOTONIC == id) {
        const int64_t n = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec + t_skew_ns;
        ts->tv_sec = n / 1000000000LL;
        ts->tv_nsec = n % 1000000000LL;
    }
    return r;
}

__attribute__((visibility("default"))) int
pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* abs)
{
    static ccw_t real = (ccw_t)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    static cg_t real_cg = (cg_t)dlsym(RTLD_NEXT, "clock_gettime");
    weak_cfg();
    SITE();
    if (CLOCK_MONOTONIC != id) {
        return real(c, m, id, abs);
    }
    if (s_wake > 0 && 0 == vh_rt_rand() % (uint64_t)s_wake) {
        __atomic_add_fetch(&vh_dstats.spurious_wake, 1, __ATOMIC_RELAXED);
        pthread_mutex_unlock(m);
        sched_yield();
        pthread_mutex_lock(m);
        return 0;
    }
    struct timespec now;
    real_cg(CLOCK_MONOTONIC, &now);
    const int64_t n = (int64_t)now.tv_sec * 1000000000LL + now.tv_nsec;
    const int64_t kMaxSec = 9000000000LL;
    int64_t target = abs->tv_sec >= kMaxSec ? INT64_MAX - 1000000000LL : (int64_t)abs->tv_sec * 1000000000LL + abs->tv_nsec - t_skew_ns;
    const int64_t remaining = target - n;
    int64_t skew_after = 0;
    if (s_idle > 0 && remaining > 5000000000LL && remaining < 100000000000LL) {
        target = n + (int64_t)s_idle * 1000000LL;
        skew_after = remaining - (int64_t)s_idle * 1000000LL;
        __atomic_add_fetch(&vh_dstats.shrunk_waits, 1, __ATOMIC_RELAXED);
    }
    struct timespec t2;
    t2.tv_sec = target / 1000000000LL;
    t2.tv_nsec = target % 1000000000LL;
    const int r = real(c, m, id, &t2);
    if (ETIMEDOUT == r) {
        t_skew_ns += skew_after;
    }
    return r;
}

// timeouts of the poll() of a notifier which is quiet
typedef int (*poll_t)(struct pollfd*, nfds_t, int);
typedef int (*select_t)(int, fd_set*, fd_set*, fd_set*, struct timeval*);
__attribute__((visibility("default"))) int
poll(struct pollfd* fds, nfds_t n, int timeout)
{
    static poll_t real = (poll_t)dlsym(RTLD_NEXT, "poll");
    weak_cfg();
    if (s_idle <= 0 || timeout <= 1000 || timeout > 100000) {
        return real(fds, n, timeout);
    }
    SITE();
    const int r = real(fds, n, s_idle);
    if (0 == r) {
        t_skew_ns += (int64_t)(timeout - s_idle) * 1000000LL;
        __atomic_add_fetch(&vh_dstats.shrunk_waits, 1, __ATOMIC_RELAXED);
    }
    return r;
}
__attribute__((visibility("default"))) int
select(int n, fd_set* rd, fd_set* wr, fd_set* ex, struct timeval* tv)
{
    static select_t real = (select_t)dlsym(RTLD_NEXT, "select");
    weak_cfg();
    if (s_idle <= 0 || !tv || tv->tv_sec < 1 || tv->tv_sec > 100) {
        return real(n, rd, wr, ex, tv);
    }
    SITE();
    struct timeval shorter = { 0, s_idle * 1000 };
    const int r = real(n, rd, wr, ex, &shorter);
    if (0 == r) {
        t_skew_ns += (int64_t)tv->tv_sec * 1000000000LL;
        __atomic_add_fetch(&vh_dstats.shrunk_waits, 1, __ATOMIC_RELAXED);
    }
    return r;
}

typedef int (*mx_t)(pthread_mutex_t*);
__attribute__((visibility("default"))) int
pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    static mx_t real = (mx_t)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    SITE();
    return real(m);
}
__attribute__((visibility("default"))) int
pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    static mx_t real = (mx_t)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    const int r = real(m);
    SITE();
    return r;
}
}
