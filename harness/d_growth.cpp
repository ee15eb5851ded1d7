// Memory and index entries over rounds of the same work: what is dead must not pile up.
#include "par.h"

#include <algorithm>

#include "alloc.h"

namespace vh {

namespace {

using TT = transaction_options::transaction_type;

struct Client {
    Token tok{};
    Token tok2{};
    Rng r{1};
    std::size_t no{0};
    std::uint64_t n{0}; ///< units done
};

class Growth {
public:
    explicit Growth(std::string rp) : rp_(std::move(rp)) {}

    void up() {
        for (auto* n : {"a", "b"}) {
            Storage s{};
            if (create_storage(n, s) != Status::OK) { throw HarnessError("create_storage"); }
            st_.push_back(s);
        }
        Token t{};
        if (enter(t) != Status::OK) { throw HarnessError("enter"); }
        if (tx_begin({t}) != Status::OK) { throw HarnessError("begin"); }
        for (auto s : st_) {
            for (int i = 0; i < 64; ++i) { upsert(t, s, "k" + std::to_string(i), std::string(40, 'v')); }
        }
        if (commit(t) != Status::OK) { throw HarnessError("commit"); }
        leave(t);
        for (auto& q : seq_) {
            if (create_sequence(&q) != Status::OK) { throw HarnessError("create_sequence"); }
        }
    }

    // small steps -----------------------------------------------------------------------
    std::string key(Client& c) { return "k" + std::to_string(c.r.below(16) * 4 + c.no); } // each client has its own
    static std::string churn(Client& c, std::uint64_t i) { return "z" + std::to_string(c.no) + "_" + std::to_string(i); }
    std::string val(Client& c) { return std::string(20 + c.r.below(200), 'w'); }
    bool begin_long(Token t, std::vector<Storage> wp, transaction_options::read_area ra = {}) {
        if (tx_begin({t, TT::LONG, std::move(wp), std::move(ra)}) != Status::OK) { return false; }
        return started(t);
    }
    bool started(Token t) {
        for (std::uint64_t e = now_epoch();;) {
            std::string v;
            auto rc = search_key(t, st_[0], "nokey", v);
            if (rc != Status::WARN_PREMATURE) { return true; }
            if (now_epoch() > e + 2000) { engine_failed("premature", "a transaction never starts " + rp_); }
            sleep_us(30);
        }
    }
    Status end_long(Token t) {
        auto st = std::make_shared<std::atomic<int>>(1000000);
        commit(t, [st](Status rc, reason_code, durability_marker_type) { st->store(static_cast<int>(rc)); });
        while (st->load() == 1000000) { sleep_us(20); }
        ok_ += st->load() == 0 ? 1 : 0;
        return static_cast<Status>(st->load());
    }
    Status end_short(Token t) {
        auto rc = commit(t);
        ok_ += rc == Status::OK ? 1 : 0;
        return rc;
    }
    void scan_all(Token t, Storage s) {
        ScanHandle h{};
        if (open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, h) != Status::OK) { return; }
        std::string x;
        do {
            auto rc = read_key_from_scan(t, h, x);
            if (is_err(rc) || rc == Status::WARN_NOT_BEGIN) { return; }
            rc = read_value_from_scan(t, h, x);
            if (is_err(rc) || rc == Status::WARN_NOT_BEGIN) { return; }
        } while (next(t, h) == Status::OK);
        close_scan(t, h);
    }
    /// deletes surely
    void remove(Client& c, Storage s, std::string const& k) {
        for (int i = 0; i < 2000; ++i) {
            tx_begin({c.tok});
            auto rc = delete_record(c.tok, s, k);
            if (rc == Status::OK || rc == Status::WARN_NOT_FOUND) {
                if (end_short(c.tok) == Status::OK) { return; }
                continue;
            }
            abort(c.tok);
            sleep_us(50);
        }
        res.inconclusive("undeletable");
        ++left_;
    }

    // work ------------------------------------------------------------------------------
    static std::vector<std::string> const& modes() {
        static const std::vector<std::string> m{
                "short_update", "short_churn", "short_insert_abort", "short_read", "short_conflict", "short_own", "long_update",
                "long_churn", "long_abort", "long_read", "long_overtake", "long_unused_area", "long_read_area", "read_only",
                "sessions", "states", "sequences", "leave_open", "storages", "long_insert_conflict", "short_upsert_churn"};
        return m;
    }
    void unit(std::string const& m, Client& c) {
        if (spread_ && !wait_epochs(1)) { engine_failed("epoch", "time stands still " + rp_); }
        auto i = c.n++;
        auto t = c.tok;
        auto a = st_[0];
        auto b = st_[1];
        std::string v;
        if (m == "short_update") {
            tx_begin({t});
            update(t, a, key(c), val(c));
            upsert(t, b, key(c), val(c));
            end_short(t);
        } else if (m == "short_churn") {
            auto k = churn(c, i % 40);
            tx_begin({t});
            insert(t, a, k, val(c));
            end_short(t);
            remove(c, a, k);
        } else if (m == "short_upsert_churn") {
            auto k = churn(c, i);
            tx_begin({t});
            upsert(t, a, k, val(c));
            end_short(t);
            remove(c, a, k);
        } else if (m == "short_insert_abort") {
            tx_begin({t});
            insert(t, a, churn(c, i), val(c));
            upsert(t, b, churn(c, i), val(c));
            update(t, a, key(c), val(c));
            delete_record(t, b, key(c));
            abort(t);
            ++ok_;
        } else if (m == "short_read") {
            tx_begin({t});
            search_key(t, a, key(c), v);
            exist_key(t, a, "none");
            scan_all(t, b);
            end_short(t);
        } else if (m == "short_conflict") {
            tx_begin({t});
            search_key(t, a, "k" + std::to_string(c.no), v);
            tx_begin({c.tok2});
            upsert(c.tok2, a, "k" + std::to_string(c.no), val(c));
            end_short(c.tok2);
            insert(t, b, churn(c, i), val(c));
            update(t, b, key(c), val(c));
            if (commit(t) == Status::OK) {
                remove(c, b, churn(c, i));
            } else {
                ++ok_;
            }
        } else if (m == "short_own") {
            tx_begin({t});
            auto k = churn(c, i);
            insert(t, a, k, val(c));
            update(t, a, k, val(c));
            upsert(t, a, k, val(c));
            search_key(t, a, k, v);
            delete_record(t, a, k);
            upsert(t, a, key(c), val(c));
            upsert(t, a, key(c), val(c));
            end_short(t);
            remove(c, a, k);
        } else if (m == "long_update") {
            begin_long(t, {a, b});
            update(t, a, key(c), val(c));
            upsert(t, b, key(c), val(c));
            end_long(t);
        } else if (m == "long_churn") {
            auto k = churn(c, i % 40);
            begin_long(t, {a});
            insert(t, a, k, val(c));
            end_long(t);
            begin_long(t, {a});
            delete_record(t, a, k);
            end_long(t);
        } else if (m == "long_abort") {
            begin_long(t, {a});
            insert(t, a, churn(c, i), val(c));
            update(t, a, key(c), val(c));
            abort(t);
            ++ok_;
        } else if (m == "long_read") {
            begin_long(t, {});
            search_key(t, a, key(c), v);
            scan_all(t, b);
            end_long(t);
        } else if (m == "long_overtake") {
            begin_long(t, {a});
            begin_long(c.tok2, {b});
            search_key(c.tok2, a, key(c), v);
            scan_all(c.tok2, a);
            upsert(c.tok2, b, key(c), val(c));
            upsert(t, a, key(c), val(c));
            end_long(t);
            end_long(c.tok2);
        } else if (m == "long_insert_conflict") {
            auto k = churn(c, i);
            begin_long(t, {a});
            begin_long(c.tok2, {a});
            insert(c.tok2, a, k, val(c));
            insert(t, a, k, val(c));
            end_long(t);
            end_long(c.tok2);
            remove(c, a, k);
        } else if (m == "long_unused_area") {
            begin_long(t, {a, b});
            search_key(t, a, key(c), v);
            end_long(t);
        } else if (m == "long_read_area") {
            begin_long(t, {a}, transaction_options::read_area({a}, {b}));
            search_key(t, a, key(c), v);
            upsert(t, a, key(c), v);
            if (c.r.chance(30)) {
                search_key(t, b, key(c), v); // refused, the transaction ends
                ++ok_;
            } else {
                end_long(t);
            }
        } else if (m == "read_only") {
            tx_begin({t, TT::READ_ONLY});
            started(t);
            search_key(t, a, key(c), v);
            scan_all(t, b);
            if (c.r.chance(50)) {
                end_short(t);
            } else {
                abort(t);
                ++ok_;
            }
        } else if (m == "sessions") {
            Token x{};
            if (enter(x) == Status::OK) {
                tx_begin({x});
                search_key(x, a, key(c), v);
                end_short(x);
                leave(x);
            }
        } else if (m == "leave_open") {
            Token x{};
            if (enter(x) == Status::OK) {
                switch (c.r.below(3)) {
                    case 0: tx_begin({x}); break;
                    case 1: begin_long(x, {a}); break;
                    default: begin_long(x, {}); break;
                }
                search_key(x, b, key(c), v);
                scan_all(x, b);
                upsert(x, a, churn(c, i), val(c));
                leave(x);
                ++ok_;
            }
        } else if (m == "states") {
            switch (c.r.below(3)) {
                case 0: tx_begin({t}); break;
                case 1: begin_long(t, {a}); break;
                default:
                    tx_begin({t, TT::READ_ONLY});
                    started(t);
                    break;
            }
            TxStateHandle h{};
            auto rc = acquire_tx_state_handle(t, h);
            TxState s;
            check_tx_state(h, s);
            if (c.r.chance(50)) {
                abort(t);
                ++ok_;
            } else {
                end_long(t);
            }
            if (rc == Status::OK) { release_tx_state_handle(h); }
        } else if (m == "sequences") {
            tx_begin({t});
            update_sequence(t, seq_[c.no % 4], static_cast<SequenceVersion>(i + 1), static_cast<SequenceValue>(c.r.below(100)));
            if (c.r.chance(20)) {
                abort(t);
            } else {
                end_short(t);
            }
        } else if (m == "storages") {
            Storage x{};
            if (create_storage("tmp" + std::to_string(c.no), x) == Status::OK) {
                tx_begin({t});
                upsert(t, x, "one", val(c));
                upsert(t, x, "two", val(c));
                end_short(t);
                delete_storage(x);
            }
        } else {
            throw HarnessError("mode " + m);
        }
    }

    /// one round of the same work
    void round(std::string const& m, std::vector<Client>& cs, std::size_t units) {
        if (hold_ == 1 && tx_begin({view_, TT::READ_ONLY}) != Status::OK) { throw HarnessError("begin"); }
        if (hold_ == 1) { started(view_); }
        if (hold_ == 2) { begin_long(view_, {}); }
        work(m, cs, units);
        if (hold_ == 1) { end_short(view_); }
        if (hold_ == 2) { end_long(view_); }
        progress();
    }
    void work(std::string const& m, std::vector<Client>& cs, std::size_t units) {
        if (cs.size() == 1) {
            for (std::size_t i = 0; i < units; ++i) { unit(m, cs[0]); }
        } else {
            par(cs.size(), [&](std::size_t t) {
                for (std::size_t i = 0; i < units / cs.size(); ++i) { unit(m, cs[t]); }
            });
        }
    }

    struct Seen {
        std::int64_t bytes{}, blocks{}, entries{};
    };
    /// smallest use within a bounded number of epochs without any client at work
    Seen quiet(Seen const* below) {
        Seen best{INT64_MAX, INT64_MAX, INT64_MAX};
        for (int i = 0; i < 60; ++i) {
            if (!wait_epochs(8)) { engine_failed("epoch", "time stands still " + rp_); }
            progress();
            auto m = mem_in_use();
            best.bytes = std::min(best.bytes, m.bytes);
            best.blocks = std::min(best.blocks, m.blocks);
            best.entries = std::min(best.entries, standin::idx_entries.load());
            if (below != nullptr && i >= 2 && best.bytes <= below->bytes && best.entries <= below->entries) { break; }
            if (below == nullptr && i >= 12) { break; }
        }
        return best;
    }

    void run(std::string const& m, Rng& r) {
        std::vector<Client> cs(r.chance(60) ? 1 : 3);
        for (std::size_t i = 0; i < cs.size(); ++i) {
            cs[i].no = i;
            cs[i].r = Rng(r.next());
            if (enter(cs[i].tok) != Status::OK || enter(cs[i].tok2) != Status::OK) { throw HarnessError("enter"); }
        }
        bool slow = m.rfind("long", 0) == 0 || m == "read_only" || m == "leave_open" || m == "states";
        std::size_t units = slow ? 120 : 400;
        if (m == "storages") { units = 60; }
        spread_ = !slow && r.chance(50);
        if (spread_) { units = 90; }
        // an older transaction stays open during each round
        if (enter(view_) != Status::OK) { throw HarnessError("enter"); }
        if (r.chance(50)) { hold_ = slow || r.chance(70) ? 1 : 2; } // a long one could make others wait
        auto clean = standin::idx_entries.load();
        units *= static_cast<std::size_t>(args.num("scale", 1));
        for (int i = 0; i < 3; ++i) { round(m, cs, units); }
        auto s0 = quiet(nullptr);
        std::vector<Seen> seen{s0};
        auto ok0 = ok_.load();
        const std::size_t rounds = 4;
        for (std::size_t i = 0; i < rounds; ++i) {
            round(m, cs, units);
            Seen goal = s0;
            goal.bytes += 2000;
            goal.entries += 2;
            seen.push_back(quiet(&goal));
        }
        auto work = units * rounds;
        // the second largest step counts for all: buffers which double once are not a leak; bytes
        // without more blocks are buffers which grow now and then, so most rounds must show them
        auto growth = [&seen](auto f, bool most = false) {
            std::vector<std::int64_t> d;
            for (std::size_t i = 1; i < seen.size(); ++i) { d.push_back(f(seen[i]) - f(seen[i - 1])); }
            std::sort(d.begin(), d.end());
            return std::min(f(seen.back()) - f(seen.front()), d[most ? 1 : d.size() - 2] * static_cast<std::int64_t>(d.size()));
        };
        auto grown = growth([](Seen const& s) { return static_cast<std::int64_t>(s.bytes); }, true);
        auto grown_blocks = growth([](Seen const& s) { return static_cast<std::int64_t>(s.blocks); });
        auto grown_entries = growth([](Seen const& s) { return static_cast<std::int64_t>(s.entries); });
        res.eval();
        res.count("rounds", rounds);
        res.count("units", work);
        res.count("mode_" + m);
        res.count("transactions_ended", ok_.load() - ok0);
        std::string text = m + " clients=" + std::to_string(cs.size()) + " units=" + std::to_string(units) + " per round" + (spread_ ? ", one per epoch" : "") + (hold_ == 1 ? ", snapshot open" : hold_ == 2 ? ", long transaction open" : "") + "; index entries at first " + std::to_string(clean) + "; bytes/blocks/index entries in use";
        for (auto& s : seen) { text += " " + std::to_string(s.bytes) + "/" + std::to_string(s.blocks) + "/" + std::to_string(s.entries); }
        res.sample(text);
        res.distinct(mix(hash_str(m), hash_str(rp_)));
        // growth in proportion to the work done; a constant amount (buffers) is fine
        if (grown > static_cast<std::int64_t>(work) * 12 + 6000 ||
            (grown_blocks > static_cast<std::int64_t>(work) / 3 + 60)) {
            res.violation("growth", m, "memory in use grows with every round " + text + " " + rp_, rp_);
        }
        if (grown_entries > static_cast<std::int64_t>(work) / 20 + 20) {
            res.violation("growth", m + "_index", "dead index entries pile up " + text + " " + rp_, rp_);
        }
        // no mode leaves records behind, so the index gets as small as it was
        if (seen.back().entries > clean + 12 + left_.load()) {
            res.violation("growth", m + "_index_rest", "index entries of removed records stay " + text + " " + rp_, rp_);
        }
        if (hold_ != 0) { res.count("rounds_with_open_view", rounds); }
        leave(view_);
        if (ok_.load() == ok0) { throw HarnessError("no work done in mode " + m); }
        for (auto& c : cs) {
            leave(c.tok);
            leave(c.tok2);
        }
    }

private:
    std::string rp_;
    std::vector<Storage> st_;
    SequenceId seq_[4]{};
    std::atomic<std::uint64_t> ok_{0};
    std::atomic<std::int64_t> left_{0}; ///< records which could not be removed
    Token view_{};
    int hold_{0};        ///< kind of transaction open during a round
    bool spread_{false}; ///< units in different epochs
};

void drive() {
    auto only = args.get("mode", "");
    auto const& ms = Growth::modes();
    for (std::uint64_t i = 0; i < args.cases; ++i) {
        auto seed = mix(args.seed, i);
        Rng r(seed);
        auto cfg = random_cfg(r);
        cfg.bypass = false;
        if (cfg.epoch_us > 400) { cfg.epoch_us = 400; }
        auto m = ms[(i + args.seed) % ms.size()];
        if (!only.empty()) { m = only; }
        auto rp = "--seed " + std::to_string(args.seed) + " case " + std::to_string(i) + " " + cfg.str();
        set_case("growth " + m + " " + rp);
        auto loc = fresh_location();
        standin::discard_log.store(true);
        if (start_engine(cfg, loc) != Status::OK) { throw HarnessError("init"); }
        {
            Growth g(rp);
            g.up();
            g.run(m, r);
        }
        stop_engine();
        standin::disk_erase(loc);
    }
}

Register reg_growth("growth", drive);

} // namespace
} // namespace vh
