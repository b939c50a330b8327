// Recorder and checker for histories of a FIFO executing one operation at once.
#pragma once

#include "util.h"

#include <map>

namespace vh {

enum Kind
{
    SUB_BEGIN = 1,
    SUB_END,
    EXEC_BEGIN,
    EXEC_END,
    CALL,
    RET,
};

struct SerialCase
{
    explicit SerialCase(size_t cap)
      : log(cap)
    {}
    Log log;
    std::atomic<int> active{ 0 };
    std::atomic<int> next_id{ 0 };
    std::atomic<long> submitted{ 0 };
    std::atomic<long> executed{ 0 };
    std::atomic<int> overlaps{ 0 };
    long plain = 0;

    void run(int id, long us)
    {
        log.add(EXEC_BEGIN, id);
        if (0 != active.fetch_add(1, std::memory_order_relaxed)) {
            overlaps.fetch_add(1, std::memory_order_relaxed);
        }
        const long before = plain;
        if (us > 0) {
            spin_us(us);
        }
        plain = before + 1;
        active.fetch_sub(1, std::memory_order_relaxed);
        log.add(EXEC_END, id);
    }
    void done() { executed.fetch_add(1, std::memory_order_release); }
};

// checks the recorded history against the sequential specification of a FIFO
inline void
check_serial(const Log& log, long total, const char* what)
{
    std::map<int64_t, size_t> sub_begin;
    std::map<int64_t, size_t> sub_end;
    std::map<int64_t, size_t> exec;
    std::vector<int64_t> order;
    int64_t open = -1;
    for (size_t i = 0; i < log.size(); ++i) {
        const auto& r = log[i];
        switch (r.kind) {
            case SUB_BEGIN:
                sub_begin[r.a] = i;
                break;
            case SUB_END:
                sub_end[r.a] = i;
                break;
            case EXEC_BEGIN:
                if (open >= 0) {
                    violation(str(what, ":overlap"),
                              str("operation ", r.a, " began while operation ", open, " of the same serial queue was executing: ", log.around(i)));
                    return;
                }
                open = r.a;
                if (!exec.emplace(r.a, i).second) {
                    violation(str(what, ":twice"), str("operation ", r.a, " executed twice: ", log.around(i)));
                    return;
                }
                order.push_back(r.a);
                break;
            case EXEC_END:
                if (open != r.a) {
                    violation(str(what, ":overlap"), str("operation ", r.a, " ended while ", open, " was executing: ", log.around(i)));
                    return;
                }
                open = -1;
                break;
            default:
                break;
        }
    }
    if (static_cast<long>(order.size()) != total) {
        violation(str(what, ":count"), str(order.size(), " executions of ", total, " operations"));
        return;
    }
    // real time order: whoever was completely submitted before another one
    // started to be submitted also executes first
    size_t max_begin = 0;
    int64_t max_id = -1;
    for (const auto id : order) {
        const auto e = sub_end.find(id);
        const auto b = sub_begin.find(id);
        if (b == sub_begin.end()) {
            continue;
        }
        if (e != sub_end.end() && max_id >= 0 && e->second < max_begin) {
            violation(str(what, ":order"),
                      str("operation ", id, " was queued before ", max_id, " but executed after it: ", log.around(exec[id]), " // submitted ", log.around(e->second, 4)));
            return;
        }
        if (b->second > max_begin || max_id < 0) {
            max_begin = b->second;
            max_id = id;
        }
    }
}

} // namespace vh
