/**
 * Monitoring side of the stand-ins: delay injection and counters.
 * The engine never sees this header; only the stand-ins and the harness do.
 */
#pragma once

#include <atomic>
#include <cstddef>
#include <cstdint>

namespace standin {

/// delay injection -----------------------------------------------------------
/// probability (per 65536) that a noise point does something; 0 = off
extern std::atomic<std::uint32_t> noise_rate;
extern std::atomic<std::uint64_t> noise_seed;
extern std::atomic<std::uint64_t> noise_fired;
/// when true a fired noise point may really sleep (tens of microseconds)
extern std::atomic<bool> noise_sleep;

void noise_slow();
std::uint64_t thread_rand();

inline void noise() {
    if (noise_rate.load(std::memory_order_relaxed) != 0) { noise_slow(); }
}

/// index counters --------------------------------------------------------------
extern std::atomic<std::uint64_t> idx_gets;
extern std::atomic<std::uint64_t> idx_puts;
extern std::atomic<std::uint64_t> idx_dup_puts;
extern std::atomic<std::uint64_t> idx_removes;
extern std::atomic<std::uint64_t> idx_splits;
extern std::atomic<std::uint64_t> idx_leaf_removals;
extern std::atomic<std::uint64_t> idx_scans;
extern std::atomic<std::uint64_t> idx_open_tokens;
extern std::atomic<std::uint64_t> idx_open_iscans;
/// number of entries alive in all trees
extern std::atomic<std::int64_t> idx_entries;
/// keys per leaf before it splits (2..15)
extern std::atomic<std::size_t> leaf_capacity;

/// > 0: memory obtained by the calling thread is not the engine's (see harness/alloc.cpp)
extern thread_local int uncounted;
struct uncounted_scope {
    uncounted_scope() { ++uncounted; }
    ~uncounted_scope() { --uncounted; }
    uncounted_scope(uncounted_scope const&) = delete;
    uncounted_scope& operator=(uncounted_scope const&) = delete;
};

/// basic block hook (plain variant) ---------------------------------------------
/// average number of engine basic blocks between injected delays, 0 = off
extern std::atomic<std::uint32_t> bb_noise_period;
/// distinct engine basic blocks reached so far
std::uint64_t cov_count();

/// places in the middle of an engine call where the calling thread stops (plain variant):
/// the thread arms itself, runs the call, and after `blocks` engine basic blocks waits until
/// somebody releases it (or a bound expires, so that a lock held by it cannot block for ever).
struct pause_ctl {
    std::atomic<int> paused{0};
    std::atomic<int> release{0};
    std::atomic<std::uint64_t> site{0}; ///< engine block the thread stopped at
};
void pause_arm(pause_ctl* ctl, std::uint64_t blocks); ///< calling thread
/// disarms the calling thread; number of engine blocks run since pause_arm
std::uint64_t pause_disarm();
extern std::atomic<std::uint64_t> pauses_taken;

} // namespace standin
