// Building blocks of workloads shared by several drivers.
#pragma once

#include "vh.h"

#include <algorithm>

namespace vh {
namespace xd = xdispatch;

inline int
scaled(int n)
{
    return std::max(1, n * opt.scale / 100);
}

inline xd::queue_priority
prio(Rng& rng)
{
    static const xd::queue_priority p[] = { xd::queue_priority::DEFAULT,
                                            xd::queue_priority::USER_INTERACTIVE,
                                            xd::queue_priority::USER_INITIATED,
                                            xd::queue_priority::UTILITY,
                                            xd::queue_priority::BACKGROUND };
    return p[rng.below(5)];
}

// keeps some threads of the pool busy with unrelated work
class Noise
{
public:
    explicit Noise(Rng& rng)
      : m_shared(std::make_shared<Shared>())
    {
        const int n = rng.chance(2) ? 0 : rng.range(1, 6);
        for (int i = 0; i < n; ++i) {
            start(m_shared, prio(rng), static_cast<long>(rng.below(400)), 100);
        }
    }
    ~Noise()
    {
        m_shared->stop = true;
        const auto s = m_shared;
        must([s] { return 0 == s->running; }, "background work to end");
    }

private:
    struct Shared
    {
        std::atomic<bool> stop{ false };
        std::atomic<int> running{ 0 };
    };
    // bounded: operations of a higher priority may starve others for as long
    // as they saturate the pool
    static void start(const std::shared_ptr<Shared>& s, xd::queue_priority p, long us, int left)
    {
        ++s->running;
        auto q = parallel("noise", p);
        q.async([s, p, us, left] {
            spin_us(us);
            if (!s->stop && left > 0) {
                if (us % 2) {
                    sleep_us(us);
                }
                start(s, p, us, left - 1);
            }
            --s->running;
        });
    }
    std::shared_ptr<Shared> m_shared;
};

// a custom operation, queued through the operation_ptr interface
class FnOp : public xd::operation
{
public:
    explicit FnOp(const std::function<void()>& f)
      : m_f(f)
    {}
    void operator()() override { m_f(); }

private:
    std::function<void()> m_f;
};

// runs n threads that start together
inline void
run_threads(int n, const std::function<void(int)>& f)
{
    std::atomic<int> ready{ 0 };
    std::atomic<bool> go{ false };
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i) {
        ts.emplace_back([&, i] {
            ++ready;
            while (!go.load()) {
                std::this_thread::yield();
            }
            f(i);
        });
    }
    while (ready.load() < n) {
        sleep_us(20);
    }
    go = true;
    for (auto& t : ts) {
        t.join();
    }
}

// random pause: nothing, a spin or a sleep
inline void
jitter(Rng& rng, long max_us)
{
    switch (rng.below(4)) {
        case 0:
            spin_us(static_cast<long>(rng.below(static_cast<uint64_t>(max_us) + 1)));
            break;
        case 1:
            sleep_us(static_cast<long>(rng.below(static_cast<uint64_t>(max_us) + 1)));
            break;
        default:
            break;
    }
}

} // namespace vh
