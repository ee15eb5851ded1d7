/**
 * Threads working against the engine at the same time, with delays inside of engine calls.
 */
#pragma once

#include <exception>
#include <thread>

#include "common.h"
#include "limestone_monitor.h"
#include "monitor.h"

namespace vh {

/// delays at random engine blocks and stand-in calls while this lives
class Noise {
public:
    explicit Noise(Rng& r) {
        static const std::vector<std::uint32_t> per{0, 20, 60, 200, 800};
        standin::noise_seed.store(r.next());
        standin::bb_noise_period.store(r.pick(per));
        standin::noise_rate.store(static_cast<std::uint32_t>(r.below(12000)));
        standin::noise_sleep.store(r.chance(60));
    }
    Noise(Noise const&) = delete;
    Noise& operator=(Noise const&) = delete;
    ~Noise() {
        standin::bb_noise_period.store(0);
        standin::noise_rate.store(0);
    }
};

/// runs f(0) .. f(n-1) in threads which start together
template<class F>
void par(std::size_t n, F f) {
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> ts;
    std::mutex m;
    std::exception_ptr ex;
    for (std::size_t i = 0; i < n; ++i) {
        ts.emplace_back([&, i] {
            ready.fetch_add(1);
            while (ready.load() < n) {}
            try {
                f(i);
            } catch (...) {
                std::lock_guard lk{m};
                if (!ex) { ex = std::current_exception(); }
            }
        });
    }
    for (auto& t : ts) { t.join(); }
    if (ex) { std::rethrow_exception(ex); }
}

/// waits until everything of the epochs up to now is durable
inline void wait_durable(std::string const& loc, std::string const& rp) {
    auto e = now_epoch();
    while (standin::disk_durable(loc) < e) {
        sleep_us(50);
        if (now_epoch() > e + 5000) { engine_failed("durable", "epochs pass but the log does not get durable " + rp); }
    }
}

} // namespace vh
