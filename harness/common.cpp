#include "common.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <thread>
#include <unistd.h>

#include <glog/logging.h>

#include "limestone_monitor.h"
#include "monitor.h"

namespace vh {

Args args;
Results res;

std::string esc(std::string_view s) {
    std::string o;
    char b[8];
    if (s.size() > 80) {
        o = esc(s.substr(0, 24));
        return o + "..(len " + std::to_string(s.size()) + ")";
    }
    for (unsigned char c : s) {
        if (c >= 0x21 && c < 0x7f && c != '\\') {
            o += static_cast<char>(c);
        } else {
            snprintf(b, sizeof(b), "\\x%02x", c);
            o += b;
        }
    }
    return o;
}

std::string jesc(std::string_view s) {
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            snprintf(b, sizeof(b), "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o;
}

bool Results::violation(std::string const& tag, std::string const& key, std::string const& text,
                        std::string const& replay) {
    std::lock_guard lk{m_};
    counters_["violations_seen"]++;
    auto& n = per_key_[tag + "|" + key];
    if (++n > 2 || vs_.size() > 60) { return false; }
    vs_.push_back({tag, key, text, replay});
    return true;
}

void Results::write(std::string const& path, bool complete) {
    std::lock_guard lk{m_};
    std::ofstream f(path);
    f << "{\"complete\":" << (complete ? "true" : "false") << ",\"evals\":" << evals_.load()
      << ",\"counters\":{";
    bool first = true;
    for (auto& c : counters_) {
        f << (first ? "" : ",") << '"' << jesc(c.first) << "\":" << c.second;
        first = false;
    }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : samples_) {
        f << (first ? "" : ",") << '"' << jesc(s) << '"';
        first = false;
    }
    f << "],\"violations\":[";
    first = true;
    for (auto& v : vs_) {
        f << (first ? "" : ",") << "{\"tag\":\"" << jesc(v.tag) << "\",\"key\":\"" << jesc(v.key)
          << "\",\"text\":\"" << jesc(v.text) << "\",\"replay\":\"" << jesc(v.replay) << "\"}";
        first = false;
    }
    f << "],\"engine_errors\":{";
    first = true;
    for (auto& e : engine_errors()) {
        f << (first ? "" : ",") << '"' << jesc(e.first) << "\":\"" << jesc(e.second) << '"';
        first = false;
    }
    f << "},\"sigs\":[";
    first = true;
    for (auto h : sigs_) {
        f << (first ? "" : ",") << h;
        first = false;
    }
    f << "]}\n";
    if (!f) {
        fprintf(stderr, "cannot write %s\n", path.c_str());
        _exit(2);
    }
}

// ---------------------------------------------------------------------------------------
static std::atomic<std::uint64_t> progress_ctr{0};
static int status_fd = -1;
static std::mutex status_mtx;

void set_case(std::string const& text) {
    progress_ctr.fetch_add(1, std::memory_order_relaxed);
    if (status_fd < 0) {
        if (args.status.empty()) { return; }
        status_fd = open(args.status.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0600);
        if (status_fd < 0) { return; }
    }
    std::string s = text.substr(0, 400);
    s.resize(400, ' ');
    s += '\n';
    if (pwrite(status_fd, s.data(), s.size(), 0) < 0) { return; }
}

void engine_failed(std::string const& key, std::string const& text) {
    res.violation("stuck", key, text);
    throw Stop(key);
}

void progress() { progress_ctr.fetch_add(1, std::memory_order_relaxed); }

void start_supervisor(unsigned seconds) {
    std::thread([seconds] {
        std::uint64_t last = ~0ULL;
        unsigned idle = 0;
        for (;;) {
            timespec ts{0, 500000000};
            nanosleep(&ts, nullptr);
            auto n = progress_ctr.load();
            if (n != last) {
                last = n;
                idle = 0;
            } else if (++idle > seconds * 2) {
                fprintf(stderr, "VDRV-HANG no progress for %u s\n", seconds);
                res.write(args.out, false);
                _exit(77);
            }
        }
    }).detach();
}

// ---------------------------------------------------------------------------------------
std::string EngineCfg::str() const {
    std::string s = "epoch_us=" + std::to_string(epoch_us) + " iscan=" + std::to_string(iscan) +
                    " resolvers=" + std::to_string(resolvers) +
                    " restore_threads=" + std::to_string(restore_threads) +
                    " leaf=" + std::to_string(leaf_cap) + " bypass=" + std::to_string(bypass) +
                    "/" + std::to_string(bypass_root) + " occbuf=" + std::to_string(occ_buffer) +
                    " rtxmtx=" + std::to_string(rtx_mutex) +
                    " reducegc=" + std::to_string(reduce_gc);
    return s;
}

EngineCfg random_cfg(Rng& r) {
    EngineCfg c;
    static const std::vector<std::size_t> ep{100, 200, 400, 1000};
    c.epoch_us = r.pick(ep);
    c.iscan = r.chance(50);
    c.resolvers = static_cast<std::size_t>(r.range(1, 3));
    static const std::vector<std::size_t> lc{2, 3, 4, 8, 15};
    c.leaf_cap = r.pick(lc);
    c.bypass = r.chance(12);
    c.bypass_root = r.chance(30);
    c.occ_buffer = r.chance(60);
    c.rtx_mutex = r.chance(60);
    c.reduce_gc = r.chance(25);
    return c;
}

static std::atomic<int> loc_ctr{0};
std::string fresh_location() {
    return args.dir + "/db" + std::to_string(loc_ctr.fetch_add(1));
}

static std::atomic<bool> running{false};
bool engine_running() { return running.load(); }

static void env_flag(char const* n, bool v) { setenv(n, v ? "1" : "0", 1); }

static std::mutex tx_ids_m;
static std::set<std::string> tx_ids;

Status start_engine(EngineCfg const& c, std::string const& location,
                    database_options::open_mode m) {
    env_flag("SHIRAKAMI_ENABLE_WAITING_BYPASS", c.bypass);
    env_flag("SHIRAKAMI_WAITING_BYPASS_TO_ROOT", c.bypass_root);
    env_flag("SHIRAKAMI_ENABLE_OCC_EPOCH_LOG_BUFFERING", c.occ_buffer);
    env_flag("SHIRAKAMI_RTX_DA_TERM_MUTEX", c.rtx_mutex);
    env_flag("SHIRAKAMI_REDUCE_GC", c.reduce_gc);
    env_flag("TSURUGI_FAST_SHUTDOWN", c.fast_shutdown);
    standin::leaf_capacity.store(c.leaf_cap);
    database_options o;
    o.set_open_mode(m);
    std::filesystem::path p{location};
    o.set_log_directory_path(p);
    o.set_epoch_time(c.epoch_us);
    o.set_waiting_resolver_threads(c.resolvers);
    o.set_iterator_based_scan(c.iscan);
    o.set_index_restore_threads(c.restore_threads);
    {
        std::lock_guard lk{tx_ids_m};
        tx_ids.clear();
    }
    auto rc = init(o);
    if (rc == Status::OK) { running.store(true); }
    return rc;
}

std::string fresh_tx_id(Token tok) {
    std::string id;
    auto rc = get_tx_id(tok, id);
    if (rc != Status::OK) {
        res.violation("txid", "get_tx_id:" + sstr(rc), "asking a transaction just begun for its id returned " + sstr(rc));
        return id;
    }
    if (id.size() != 20 || id.substr(0, 4) != "TID-" || id.find_first_not_of("0123456789abcdef", 4) != std::string::npos) {
        res.violation("txid", "form", "a transaction has id '" + esc(id) + "'");
    }
    res.count("ids_checked");
    std::lock_guard lk{tx_ids_m};
    if (!tx_ids.insert(id).second) { res.violation("txid", "twice", "two transactions got the id " + esc(id)); }
    return id;
}

void no_abort_reason(Token tok, char const* when) {
    auto ri = transaction_result_info(tok);
    res.count("quiet_results_checked");
    if (ri && (ri->get_reason_code() != reason_code::UNKNOWN || !ri->get_key().empty() || !ri->get_storage_name().empty())) {
        res.violation("reason", std::string("foreign:") + when,
                      std::string("a transaction just ") + when + " shows reason " +
                              std::string(to_string_view(ri->get_reason_code())) + " key '" + esc(ri->get_key()) + "' storage '" +
                              esc(ri->get_storage_name()) + "'");
    }
}

void stop_engine(bool force) {
    running.store(false);
    fin(force);
}

std::uint64_t now_epoch() { return standin::current_epoch.load(); }

bool try_epochs(std::uint64_t n, std::uint64_t us) {
    auto t = now_epoch() + n;
    auto t0 = wall_us();
    while (now_epoch() < t) {
        sleep_us(30);
        if (wall_us() - t0 > us) { return false; }
    }
    return true;
}

bool wait_epochs(std::uint64_t n) {
    auto t = now_epoch() + n;
    auto t0 = wall_us();
    while (now_epoch() < t) {
        sleep_us(30);
        if (wall_us() - t0 > 20000000) { return false; }
    }
    return true;
}

void sleep_us(std::uint64_t us) {
    timespec ts{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
    nanosleep(&ts, nullptr);
}

std::uint64_t wall_us() {
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<std::uint64_t>(ts.tv_sec) * 1000000ULL +
           static_cast<std::uint64_t>(ts.tv_nsec) / 1000ULL;
}

static std::atomic<std::uint64_t> ticks{1};
std::uint64_t tick() { return ticks.fetch_add(1); }

std::string sstr(Status s) {
    auto v = static_cast<int>(s);
    if (v < static_cast<int>(Status::WARN_ALREADY_EXISTS) ||
        v > static_cast<int>(Status::INTERNAL_WARN_PREMATURE)) {
        return "status(" + std::to_string(v) + ")";
    }
    return std::string(to_string_view(s));
}

// ---------------------------------------------------------------------------------------
namespace {
std::mutex ee_mtx;
std::map<std::string, std::string> ee;
class Sink : public google::LogSink {
public:
    void send(google::LogSeverity sev, const char* /*full*/, const char* base, int /*line*/,
              const struct ::tm* /*t*/, const char* msg, size_t len) override {
        if (sev < google::GLOG_ERROR) { return; }
        std::string m(msg, len);
        std::lock_guard lk{ee_mtx};
        if (ee.size() < 200) { ee.emplace(std::string(base) + ": " + m.substr(0, 160), m); }
    }
};
} // namespace

std::map<std::string, std::string> engine_errors() {
    std::lock_guard lk{ee_mtx};
    return ee;
}

void install_log_sink() {
    static auto* s = new Sink();
    google::AddLogSink(s);
}

std::map<std::string, Driver>& drivers() {
    static std::map<std::string, Driver> d;
    return d;
}

} // namespace vh
