/**
 * Shared parts of all drivers: random numbers, result collection, engine control, progress
 * supervision.
 */
#pragma once

#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include "shirakami/interface.h"

namespace vh {

using namespace shirakami;

class Rng {
public:
    explicit Rng(std::uint64_t s) : s_(s * 0x9e3779b97f4a7c15ULL + 0x2545f4914f6cdd1dULL) {}
    std::uint64_t next() { // splitmix64
        std::uint64_t z = (s_ += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27U)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31U);
    }
    std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
    std::int64_t range(std::int64_t a, std::int64_t b) { // inclusive
        return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a + 1)));
    }
    bool chance(unsigned percent) { return below(100) < percent; }
    template<class T>
    T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    /// index drawn with the given weights
    std::size_t weighted(std::vector<unsigned> const& w) {
        std::uint64_t sum = 0;
        for (auto x : w) { sum += x; }
        auto r = below(sum);
        for (std::size_t i = 0; i < w.size(); ++i) {
            if (r < w[i]) { return i; }
            r -= w[i];
        }
        return w.size() - 1;
    }

private:
    std::uint64_t s_;
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    Rng r(a ^ (b * 0xd1342543de82ef95ULL + 0x632be59bd9b4e019ULL));
    return r.next();
}

inline std::uint64_t hash_str(std::string_view s, std::uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
    return h;
}

std::string esc(std::string_view s);   ///< printable form of a key / value
std::string jesc(std::string_view s);  ///< JSON string contents

/// options given on the command line
struct Args {
    std::string driver;
    std::uint64_t seed{1};
    std::uint64_t cases{1000};
    std::string out;
    std::string status; ///< file telling which case is running
    std::string dir;    ///< scratch name space
    std::map<std::string, std::string> opt;
    std::string get(std::string const& k, std::string const& d) const {
        auto i = opt.find(k);
        return i == opt.end() ? d : i->second;
    }
    std::int64_t num(std::string const& k, std::int64_t d) const {
        auto i = opt.find(k);
        return i == opt.end() ? d : std::stoll(i->second);
    }
};
extern Args args;

/// collected results of this process
struct Violation {
    std::string tag;    ///< class of the violation (used to attribute it to a property)
    std::string key;    ///< what identifies it (matched against the known findings)
    std::string text;   ///< description, includes the history
    std::string replay; ///< arguments reproducing the case
};

class Results {
public:
    void count(std::string const& name, std::uint64_t n = 1) {
        std::lock_guard lk{m_};
        counters_[name] += n;
    }
    void maxi(std::string const& name, std::uint64_t n) {
        std::lock_guard lk{m_};
        auto& x = counters_["max_" + name];
        if (n > x) { x = n; }
    }
    void eval(std::uint64_t n = 1) { evals_ += n; }
    /// signature of a non-trivial evaluated case
    void distinct(std::uint64_t h) {
        std::lock_guard lk{m_};
        if (sigs_.size() < 400000) { sigs_.insert(h); }
    }
    void sample(std::string const& s) {
        std::lock_guard lk{m_};
        if (samples_.size() < 3) { samples_.push_back(s); }
    }
    bool want_sample() {
        std::lock_guard lk{m_};
        return samples_.size() < 3;
    }
    /// returns false when the same key was reported often enough
    bool violation(std::string const& tag, std::string const& key, std::string const& text,
                   std::string const& replay = "");
    std::size_t violations() {
        std::lock_guard lk{m_};
        return vs_.size();
    }
    void inconclusive(std::string const& why) { count("inconclusive_" + why); }
    void write(std::string const& path, bool complete);

private:
    std::mutex m_;
    std::map<std::string, std::uint64_t> counters_;
    std::atomic<std::uint64_t> evals_{0};
    std::unordered_set<std::uint64_t> sigs_;
    std::vector<std::string> samples_;
    std::vector<Violation> vs_;
    std::map<std::string, int> per_key_;
};
extern Results res;

/// raised when the harness itself cannot continue (never a verdict)
struct HarnessError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

/// raised after a violation which leaves the engine unusable: the process ends with what it has
struct Stop : std::runtime_error {
    using std::runtime_error::runtime_error;
};
/// the engine refused something it must be able to do; reported for every property
[[noreturn]] void engine_failed(std::string const& key, std::string const& text);

/// progress supervision ---------------------------------------------------------------
/// text identifying the running case; kept in the status file for the parent
void set_case(std::string const& text);
void progress();
/// starts the thread which ends the process with exit code 77 if there is no progress
void start_supervisor(unsigned seconds);

/// engine ------------------------------------------------------------------------------
struct EngineCfg {
    std::size_t epoch_us{300};
    bool iscan{false};
    std::size_t resolvers{2};
    std::size_t restore_threads{0};
    std::size_t leaf_cap{15};
    bool bypass{false};
    bool bypass_root{false};
    bool occ_buffer{true};
    bool rtx_mutex{true};
    bool reduce_gc{false};
    bool fast_shutdown{false};
    bool detail_log{false};
    std::string str() const;
};
EngineCfg random_cfg(Rng& r);
/// scratch directory below args.dir (created lazily, removed by the parent)
std::string fresh_location();
Status start_engine(EngineCfg const& c, std::string const& location,
                    database_options::open_mode m = database_options::open_mode::CREATE);
void stop_engine(bool force = true);
bool engine_running();

/// asks a transaction just begun for its id: never seen before since the engine was started
std::string fresh_tx_id(Token tok);
/// a transaction just begun or committed shows no abort reason
void no_abort_reason(Token tok, char const* when);
std::uint64_t now_epoch();
/// waits until the engine's epoch advanced by n (bounded); false: it did not
bool wait_epochs(std::uint64_t n);
/// the same, but for a bounded time: somebody stopped may hold the epoch back
bool try_epochs(std::uint64_t n, std::uint64_t us);
void sleep_us(std::uint64_t us);
std::uint64_t wall_us();

/// global event counter: call/return order at the client boundary
std::uint64_t tick();

inline bool is_err(Status s) { return s > Status::OK; }
std::string sstr(Status s);

/// messages the engine logged at ERROR or above (location -> first text)
std::map<std::string, std::string> engine_errors();
void install_log_sink();

using Driver = void (*)();
std::map<std::string, Driver>& drivers();
struct Register {
    Register(char const* n, Driver d) { drivers()[n] = d; }
};

} // namespace vh
