#include "monitor.h"

#include <sched.h>
#include <time.h>

namespace standin {

std::atomic<std::uint32_t> noise_rate{0};
std::atomic<std::uint64_t> noise_seed{1};
std::atomic<std::uint64_t> noise_fired{0};
std::atomic<bool> noise_sleep{false};

thread_local int uncounted{0};
std::atomic<std::uint64_t> idx_gets{0};
std::atomic<std::uint64_t> idx_puts{0};
std::atomic<std::uint64_t> idx_dup_puts{0};
std::atomic<std::uint64_t> idx_removes{0};
std::atomic<std::uint64_t> idx_splits{0};
std::atomic<std::uint64_t> idx_leaf_removals{0};
std::atomic<std::uint64_t> idx_scans{0};
std::atomic<std::uint64_t> idx_open_tokens{0};
std::atomic<std::uint64_t> idx_open_iscans{0};
std::atomic<std::int64_t> idx_entries{0};
std::atomic<std::size_t> leaf_capacity{15};

static std::atomic<std::uint64_t> thread_no{0};

std::uint64_t thread_rand() {
    thread_local std::uint64_t s = 0;
    if (s == 0) {
        s = noise_seed.load(std::memory_order_relaxed) * 0x9e3779b97f4a7c15ULL +
            (thread_no.fetch_add(1, std::memory_order_relaxed) + 1) * 0xbf58476d1ce4e5b9ULL;
        if (s == 0) { s = 1; }
    }
    s ^= s << 13U;
    s ^= s >> 7U;
    s ^= s << 17U;
    return s;
}

void noise_slow() {
    auto r = thread_rand();
    if ((r & 0xffffU) >= noise_rate.load(std::memory_order_relaxed)) { return; }
    noise_fired.fetch_add(1, std::memory_order_relaxed);
    auto k = (r >> 16U) & 0xfU;
    if (k < 8) {
        sched_yield();
    } else if (k < 12 || !noise_sleep.load(std::memory_order_relaxed)) {
        for (volatile int i = 0; i < static_cast<int>((r >> 24U) & 0x3ffU); i = i + 1) {}
    } else {
        timespec ts{0, static_cast<long>(1000 + ((r >> 24U) & 0xffffU))}; // up to 66 us
        nanosleep(&ts, nullptr);
    }
}

} // namespace standin

// basic block hook (engine objects of the plain variant are compiled with trace-pc):
// counts the distinct blocks reached and is a place to inject delays.
namespace standin {
std::atomic<std::uint8_t> cov_map[1U << 17U];
std::atomic<std::uint32_t> bb_noise_period{0}; // average number of blocks between delays, 0 = off

std::atomic<std::uint64_t> pauses_taken{0};
static thread_local pause_ctl* tl_ctl = nullptr;
static thread_local std::int64_t tl_left = 0;
static thread_local std::uint64_t tl_run = 0;

void pause_arm(pause_ctl* ctl, std::uint64_t blocks) {
    tl_left = static_cast<std::int64_t>(blocks);
    tl_run = 0;
    ctl->release.store(0);
    ctl->paused.store(0);
    tl_ctl = ctl;
}

std::uint64_t pause_disarm() {
    tl_ctl = nullptr;
    return tl_run;
}

static void pause_here(std::uintptr_t pc) {
    auto* c = tl_ctl;
    c->site.store(pc);
    pauses_taken.fetch_add(1, std::memory_order_relaxed);
    c->paused.store(1);
    for (int i = 0; i < 4000 && c->release.load() == 0; ++i) { // at most about 0.3 s
        timespec ts{0, 20000};
        nanosleep(&ts, nullptr);
    }
    c->paused.store(2);
}

std::uint64_t cov_count() {
    std::uint64_t n{0};
    for (auto& c : cov_map) { n += c.load(std::memory_order_relaxed); }
    return n;
}
} // namespace standin

extern "C" __attribute__((no_sanitize("thread", "address", "undefined"))) void
__sanitizer_cov_trace_pc() {
    auto pc = reinterpret_cast<std::uintptr_t>(__builtin_return_address(0));
    auto& c = standin::cov_map[(pc ^ (pc >> 17U)) & 0x1ffffU];
    if (c.load(std::memory_order_relaxed) == 0) { c.store(1, std::memory_order_relaxed); }
    if (standin::tl_ctl != nullptr) {
        ++standin::tl_run;
        if (standin::tl_left > 0 && --standin::tl_left == 0) { standin::pause_here(pc); }
    }
    auto period = standin::bb_noise_period.load(std::memory_order_relaxed);
    if (period == 0) { return; }
    thread_local std::int64_t left = 0;
    if (--left > 0) { return; }
    auto r = standin::thread_rand();
    left = static_cast<std::int64_t>(1 + r % (2ULL * period));
    standin::noise_fired.fetch_add(1, std::memory_order_relaxed);
    auto k = (r >> 40U) & 0xfU;
    if (k < 10 || !standin::noise_sleep.load(std::memory_order_relaxed)) {
        sched_yield();
    } else {
        timespec ts{0, static_cast<long>(1000 + ((r >> 24U) & 0xffffU))};
        nanosleep(&ts, nullptr);
    }
}
