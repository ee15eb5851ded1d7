// Hundreds of commits on a few keys within one epoch: versions in the log follow the commits.
#include "par.h"

#include <algorithm>

namespace vh {

namespace {

using TT = transaction_options::transaction_type;

void drive() {
    auto only = args.num("only", -1);
    for (std::uint64_t g = 0; g < args.cases; ++g) {
        if (only >= 0 && g != static_cast<std::uint64_t>(only)) { continue; }
        Rng r(mix(args.seed, g + 91));
        auto cfg = random_cfg(r);
        cfg.bypass = false;
        static const std::vector<std::size_t> ep{4000, 30000, 100000};
        cfg.epoch_us = r.pick(ep);
        auto rp = "logrun --seed " + std::to_string(args.seed) + " --cases " + std::to_string(g + 1) + " --only " + std::to_string(g);
        set_case(rp);
        auto loc = fresh_location();
        standin::discard_log.store(false);
        if (auto rc = start_engine(cfg, loc); rc != Status::OK) { engine_failed("init", "init " + sstr(rc)); }
        Storage st{};
        if (create_storage("run", st) != Status::OK) { engine_failed("create_storage", "no storage after a start"); }
        std::vector<Token> toks(static_cast<std::size_t>(r.range(1, 3)));
        for (auto& t : toks) {
            if (enter(t) != Status::OK) { engine_failed("enter", "no session after a start"); }
        }
        // one client, so the commits are ordered; an empty value is a deletion
        std::map<std::string, std::vector<std::string>> want;
        std::map<std::string, std::string> cur;
        auto nk = r.range(1, 3);
        auto n = r.range(300, 900);
        auto swap = static_cast<unsigned>(r.range(0, 30)); // how often another session goes on
        auto t = toks[0];
        std::uint64_t last = 0;
        std::uint64_t run = 0;
        std::uint64_t longest = 0;
        for (int i = 0; i < n; ++i) {
            progress();
            if (r.chance(swap)) { t = r.pick(toks); }
            auto s = tx_begin({t, TT::SHORT});
            if (s != Status::OK) { engine_failed("tx_begin:" + sstr(s), "tx_begin returned " + sstr(s)); }
            std::map<std::string, std::string> w;
            for (int k = 0; k < nk && s == Status::OK; ++k) {
                if (k > 0 && r.chance(60)) { continue; }
                auto key = "k" + std::to_string(k);
                bool del = r.chance(6) && !cur[key].empty();
                auto val = del ? "" : "v" + std::to_string(i);
                s = del ? delete_record(t, st, key) : upsert(t, st, key, val);
                if (s == Status::OK) { w[key] = val; }
            }
            if (s == Status::OK) { s = commit(t); }
            if (s != Status::OK) {
                if (!is_err(s)) { abort(t); }
                res.count("run_retries");
                continue;
            }
            for (auto& e : w) {
                cur[e.first] = e.second;
                want[e.first].push_back(e.second);
            }
            auto e = now_epoch();
            run = e == last ? run + 1 : 1;
            last = e;
            longest = std::max(longest, run);
        }
        std::size_t all = 0;
        for (auto& k : want) { all += k.second.size(); }
        for (int i = 0; i < 300; ++i) { // until everything is handed over
            progress();
            wait_epochs(2);
            auto es = standin::disk_entries(loc);
            if (std::count_if(es.begin(), es.end(), [&](auto const& e) { return e.storage == st; }) >= static_cast<std::ptrdiff_t>(all)) { break; }
        }
        for (auto x : toks) { leave(x); }
        stop_engine();
        std::map<std::string, std::vector<standin::log_entry>> got;
        for (auto& e : standin::disk_entries(loc)) {
            if (e.storage == st && (e.kind == standin::log_kind::ADD || e.kind == standin::log_kind::REMOVE)) { got[e.key].push_back(e); }
        }
        for (auto& k : want) {
            auto& v = got[k.first];
            std::stable_sort(v.begin(), v.end(), [](auto const& a, auto const& b) {
                return a.major != b.major ? a.major < b.major : a.minor < b.minor;
            });
            auto str = [](standin::log_entry const& e) {
                return (e.kind == standin::log_kind::REMOVE ? "removal" : e.value) + " version " + std::to_string(e.major) + "." + std::to_string(e.minor);
            };
            auto bad = [&](std::string const& key, std::string const& text) {
                res.violation("log", key, text + " key " + k.first + " of " + std::to_string(n) + " commits, " + rp + " [" + cfg.str() + "]", rp);
            };
            if (v.size() != k.second.size()) {
                bad("run_count", std::to_string(v.size()) + " log entries for " + std::to_string(k.second.size()) + " committed changes,");
                continue;
            }
            for (std::size_t i = 0; i < v.size(); ++i) {
                res.count("log_entries_checked");
                bool rm = v[i].kind == standin::log_kind::REMOVE;
                if (rm != k.second[i].empty() || (!rm && v[i].value != k.second[i])) {
                    bad("run_order", "by version change number " + std::to_string(i) + " is " + str(v[i]) + " but by commit it is " +
                                             (k.second[i].empty() ? "removal" : k.second[i]) + ",");
                    break;
                }
                if (i > 0 && v[i].major == v[i - 1].major && v[i].minor == v[i - 1].minor) {
                    bad("run_equal", str(v[i - 1]) + " and " + str(v[i]) + " have the same version,");
                    break;
                }
            }
        }
        res.eval();
        res.distinct(hash_str(rp, longest));
        if (longest > 256) { res.count("long_runs_within_an_epoch"); }
        if (res.want_sample()) { res.sample(rp + ": " + std::to_string(n) + " commits, at most " + std::to_string(longest) + " in one epoch"); }
        standin::disk_erase(loc);
    }
}

Register reg_logrun("logrun", drive);

} // namespace
} // namespace vh
