// small helpers for the demonstrations
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <thread>
#include <vector>

#include "shirakami/interface.h"

using namespace shirakami; // NOLINT

#define WANT(c)                                                                                  \
    do {                                                                                         \
        if (!(c)) {                                                                              \
            std::printf("line %d: not as it should be: %s\n", __LINE__, #c);                     \
            std::fflush(stdout);                                                                 \
            std::_Exit(1);                                                                       \
        }                                                                                        \
    } while (0)

using TT = transaction_options::transaction_type;

inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }

inline void up(std::string const& dir, int epoch_us = 2000,
               database_options::open_mode m = database_options::open_mode::CREATE) {
    database_options o(m, dir);
    o.set_epoch_time(static_cast<std::size_t>(epoch_us));
    if (init(o) != Status::OK) {
        std::printf("init failed\n");
        std::_Exit(3);
    }
}

inline Token in() {
    Token t{};
    while (enter(t) != Status::OK) { ms(1); }
    return t;
}

template<class F>
Status ready(F f) { // repeats while the transaction has to wait for its epoch
    for (;;) {
        auto s = f();
        if (s != Status::WARN_PREMATURE) { return s; }
        ms(1);
    }
}

inline Status fin_tx(Token t) { // commit with callback, waits for the answer
    std::atomic<int> n{0};
    std::atomic<int> st{0};
    commit(t, [&](Status s, reason_code, durability_marker_type) {
        st = static_cast<int>(s);
        ++n;
    });
    for (int i = 0; n == 0 && i < 20000; ++i) { ms(1); }
    if (n == 0) {
        std::printf("no answer to commit\n");
        std::_Exit(1);
    }
    return static_cast<Status>(st.load());
}

inline void put(Token t, Storage s, std::string const& k, std::string const& v) {
    for (;;) {
        tx_begin({t, TT::SHORT});
        if (upsert(t, s, k, v) == Status::OK && commit(t) == Status::OK) { return; }
        ms(1);
    }
}

/// all keys of the range in one scan of the running transaction
inline std::string scan_all(Token t, Storage s) {
    ScanHandle h{};
    auto rc = ready([&] { return open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, h); });
    if (rc != Status::OK) { return rc == Status::WARN_NOT_FOUND ? "" : "?"; }
    std::string out;
    for (;;) {
        std::string k;
        rc = read_key_from_scan(t, h, k);
        if (rc == Status::OK) { out += k + " "; }
        rc = next(t, h);
        if (rc != Status::OK) { break; }
    }
    close_scan(t, h);
    return out;
}
