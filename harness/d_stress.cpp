// Free running clients over self-describing values: conservation, owned keys, held snapshots, order of snapshots.
#include "par.h"

#include <algorithm>
#include <memory>

namespace vh {

namespace {

using TT = transaction_options::transaction_type;

/// value telling which storage and key it belongs to, with a checksum over everything
std::string make_value(char st, std::string_view key, std::uint64_t seq, std::int64_t amount, std::size_t fill) {
    std::string v(1, st);
    auto n8 = [&v](std::uint64_t x) { v.append(reinterpret_cast<char const*>(&x), 8); };
    n8(key.size());
    v += key;
    n8(seq);
    n8(static_cast<std::uint64_t>(amount));
    n8(fill);
    Rng r(seq * 31 + fill);
    while (fill > 0) {
        auto x = r.next();
        auto k = std::min<std::size_t>(fill, 8);
        v.append(reinterpret_cast<char const*>(&x), k);
        fill -= k;
    }
    n8(hash_str(v));
    return v;
}

struct Val {
    std::uint64_t seq{0}; ///< 0: absent
    std::int64_t amount{0};
    bool operator==(Val const& o) const { return seq == o.seq && amount == o.amount; }
    bool operator!=(Val const& o) const { return !(*this == o); }
};

/// empty string if the value is one that was made for this storage and key
std::string parse(char st, std::string_view key, std::string const& v, Val& out) {
    if (v.size() < 41) { return "too short"; }
    std::uint64_t sum{};
    memcpy(&sum, v.data() + v.size() - 8, 8);
    if (sum != hash_str(std::string_view(v).substr(0, v.size() - 8))) { return "checksum"; }
    if (v[0] != st) { return "value of another storage"; }
    std::uint64_t kl{};
    memcpy(&kl, v.data() + 1, 8);
    if (kl > v.size() || std::string_view(v).substr(9, kl) != key) { return "value of another key"; }
    memcpy(&out.seq, v.data() + 9 + kl, 8);
    memcpy(&out.amount, v.data() + 17 + kl, 8);
    return {};
}

using Snap = std::map<std::string, Val>;

/// one read-only transaction for the order of snapshots
struct Shot {
    std::uint64_t call{}, ret{};
    Snap pairs;
};

/// one transfer
struct Move {
    std::uint64_t seq{};
    TT k{};
    std::size_t i{}, j{};
    std::int64_t n{};
    std::uint64_t was_i{}, was_j{};
    std::uint64_t begun{}, call{}, ret{};
    Status rc{};
};

struct Owned {
    Snap model;
};

class Stress {
public:
    Stress(Rng& r, std::string rp) : r_(r), rp_(std::move(rp)) {}

    void up(std::size_t threads) {
        threads_ = threads;
        Token t{};
        if (enter(t) != Status::OK) { throw HarnessError("enter"); }
        if (create_storage("bank", bank_) != Status::OK || create_storage("owned", owned_) != Status::OK || create_storage("pairs", pairs_) != Status::OK ||
            create_storage("probe", probe_) != Status::OK) {
            throw HarnessError("create_storage");
        }
        accounts_ = static_cast<std::size_t>(r_.range(2, 24));
        tx_begin({t});
        for (std::size_t i = 0; i < accounts_; ++i) {
            upsert(t, bank_, acc(i), make_value('B', acc(i), ++seq_, 100, r_.below(60)));
        }
        for (std::size_t i = 0; i < threads; ++i) {
            for (auto& k : pair_keys(i)) { upsert(t, pairs_, k, make_value('P', k, 1, 0, 3)); }
        }
        if (commit(t) != Status::OK) { throw HarnessError("setup"); }
        leave(t);
        own_.assign(threads, {});
        // snapshots taken from here on include the setup
        if (!wait_epochs(10)) { engine_failed("epoch", "time stands still " + rp_); }
    }

    static std::string acc(std::size_t i) { return "acc" + std::to_string(i / 10) + std::to_string(i % 10); }
    static std::vector<std::string> pair_keys(std::size_t t) {
        return {"a" + std::to_string(t), "m" + std::to_string(t), "z" + std::to_string(t)};
    }
    static std::string own_key(std::size_t t, std::size_t i) {
        // neighbours in the index belong to different owners
        return "o" + std::to_string(i) + "_" + std::to_string(t) + (i % 3 == 0 ? std::string(30, 'x') : "");
    }

    void fail(std::string const& tag, std::string const& key, std::string const& text) {
        res.violation(tag, key, text + " " + rp_, rp_);
        bad_.store(true);
    }
    bool bad() const { return bad_.load(); }

    struct Tx {
        Token t{};
        TT k{};
        bool over{false}; ///< ended by the engine
        std::string log;
    };

    bool begin(Tx& x, TT k, std::vector<Storage> wp = {}) {
        x.k = k;
        x.over = false;
        x.log.clear();
        if (auto rc = tx_begin({x.t, k, std::move(wp)}); rc != Status::OK) {
            fail("stuck", "tx_begin", "tx_begin " + sstr(rc));
            return false;
        }
        if (k == TT::SHORT) { return true; }
        for (auto e = now_epoch();;) {
            std::string v;
            auto rc = search_key(x.t, probe_, "nokey", v);
            if (rc != Status::WARN_PREMATURE) { break; }
            if (now_epoch() > e + 2000) { engine_failed("premature", "a transaction never starts " + rp_); }
            sleep_us(20);
        }
        return true;
    }
    Status end(Tx& x) {
        if (x.over) { return Status::ERR_CC; }
        if (x.k == TT::LONG) {
            auto st = std::make_shared<std::atomic<int>>(1000000);
            commit(x.t, [st](Status rc, reason_code, durability_marker_type) { st->store(static_cast<int>(rc)); });
            while (st->load() == 1000000) { sleep_us(10); }
            return static_cast<Status>(st->load());
        }
        return commit(x.t);
    }
    void drop(Tx& x) {
        if (!x.over) { abort(x.t); }
    }
    char mark(Storage s) const { return s == bank_ ? 'B' : s == owned_ ? 'O' : 'P'; }

    /// false: transaction over or the value could not be read now
    bool get(Tx& x, Storage s, std::string const& k, Val& out) {
        std::string v;
        auto rc = search_key(x.t, s, k, v);
        out = {};
        res_reads_.fetch_add(1, std::memory_order_relaxed);
        if (rc == Status::OK) {
            if (auto e = parse(mark(s), k, v, out); !e.empty()) {
                fail("torn", "search:" + e, "search_key of " + esc(k) + " gave " + esc(v) + ": " + e);
                return false;
            }
            return true;
        }
        if (rc == Status::WARN_NOT_FOUND) { return true; }
        if (is_err(rc)) {
            x.over = true;
        } else if (rc != Status::WARN_CONCURRENT_INSERT && rc != Status::WARN_CONCURRENT_UPDATE && rc != Status::WARN_CONFLICT_ON_WRITE_PRESERVE) {
            fail("stuck", "search:" + sstr(rc), "search_key answered " + sstr(rc));
        }
        return false;
    }
    /// complete contents of the storage; false: not available
    bool scan(Tx& x, Storage s, Snap& out) {
        out.clear();
        ScanHandle h{};
        auto rc = open_scan(x.t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
        if (rc == Status::WARN_NOT_FOUND) { return true; }
        if (rc != Status::OK) {
            if (is_err(rc)) { x.over = true; }
            return false;
        }
        std::string last;
        bool first = true;
        bool full = true;
        for (;;) {
            std::string k;
            std::string v;
            rc = read_key_from_scan(x.t, h, k);
            auto rc2 = rc == Status::OK ? read_value_from_scan(x.t, h, v) : rc;
            if (is_err(rc) || is_err(rc2)) {
                x.over = true;
                return false;
            }
            if (rc == Status::OK && rc2 == Status::OK) {
                Val a;
                if (auto e = parse(mark(s), k, v, a); !e.empty()) {
                    fail("torn", "scan:" + e, "scan at " + esc(k) + " gave " + esc(v) + ": " + e);
                    return false;
                }
                if (!first && k <= last) { fail("torn", "scan_order", "scan gave " + esc(k) + " after " + esc(last)); }
                first = false;
                last = k;
                out[k] = a;
                res_reads_.fetch_add(1, std::memory_order_relaxed);
            } else if (rc != Status::WARN_NOT_FOUND && rc2 != Status::WARN_NOT_FOUND) {
                full = false;
            }
            rc = next(x.t, h);
            if (rc == Status::WARN_SCAN_LIMIT) { break; }
            if (rc != Status::OK) {
                if (is_err(rc)) { x.over = true; }
                return false;
            }
        }
        close_scan(x.t, h);
        return full;
    }
    Status put(Tx& x, Storage s, std::string const& k, Val const& a, std::size_t fill, int how) {
        auto v = make_value(mark(s), k, a.seq, a.amount, fill);
        auto rc = how == 0 ? upsert(x.t, s, k, v) : how == 1 ? update(x.t, s, k, v) : insert(x.t, s, k, v);
        if (is_err(rc)) { x.over = true; }
        return rc;
    }
    static std::size_t fill(Rng& r) {
        static const std::vector<std::size_t> f{0, 1, 7, 30, 64, 200, 1000, 5000};
        return r.pick(f);
    }

    // clients ---------------------------------------------------------------------------
    void transfer(Tx& x, Rng& r) {
        auto k = r.chance(75) ? TT::SHORT : TT::LONG;
        if (!begin(x, k, k == TT::LONG ? std::vector<Storage>{bank_} : std::vector<Storage>{})) { return; }
        auto i = r.below(accounts_);
        auto j = r.below(accounts_);
        if (i == j) { j = (i + 1) % accounts_; }
        Val a;
        Val b;
        if (!get(x, bank_, acc(i), a) || !get(x, bank_, acc(j), b)) { return drop(x); }
        if (a.seq == 0 || b.seq == 0) {
            // some account is moved by deletion and insertion below; a committed reader sees all
            return drop(x);
        }
        auto n = r.range(1, 20);
        auto s = next_seq();
        Move mv{s, k, i, j, n, a.seq, b.seq, tick(), 0, 0, Status::ERR_CC};
        a.amount -= n;
        b.amount += n;
        a.seq = b.seq = s;
        if (put(x, bank_, acc(i), a, fill(r), static_cast<int>(r.below(2))) != Status::OK) { return drop(x); }
        if (put(x, bank_, acc(j), b, fill(r), static_cast<int>(r.below(2))) != Status::OK) { return drop(x); }
        if (r.chance(10)) {
            drop(x);
            res.count("aborted_by_user");
            return;
        }
        mv.call = tick();
        auto rc = end(x);
        mv.ret = tick();
        mv.rc = rc;
        {
            std::lock_guard lk{moves_mtx_};
            moves_.push_back(mv);
        }
        res.count(rc == Status::OK ? "transfers" : "aborted");
    }
    /// transfers of which only one side is in the view
    std::string halves(Snap const& s) {
        std::lock_guard lk{moves_mtx_};
        std::map<std::uint64_t, Move const*> by;
        for (auto& m : moves_) { by[m.seq] = &m; }
        std::map<std::uint64_t, std::set<std::size_t>> in; // transfer -> accounts which include it
        for (std::size_t i = 0; i < accounts_; ++i) {
            auto e = s.find(acc(i));
            for (auto q = e == s.end() ? 0 : e->second.seq; by.count(q) != 0;) {
                in[q].insert(i);
                q = by[q]->i == i ? by[q]->was_i : by[q]->was_j;
            }
        }
        std::string t;
        for (auto& m : moves_) {
            auto f = in.find(m.seq);
            bool half = f != in.end() && f->second.size() == 1;
            if (!half && !(m.rc == Status::OK && f == in.end() && m.ret > 0)) { continue; }
            if (!half && t.size() > 6000) { continue; }
            t += std::string("\n") + (half ? "half of " : "after: ") + (m.k == TT::LONG ? "long " : "short ") + std::to_string(m.seq) + ": " + acc(m.i) + "(" + std::to_string(m.was_i) + ") -> " + acc(m.j) + "(" +
                 std::to_string(m.was_j) + ") " + std::to_string(m.n) + " at " + std::to_string(m.begun) + ".." + std::to_string(m.call) + "-" + std::to_string(m.ret) + " " + sstr(m.rc);
        }
        return t;
    }

    /// the whole balance is conserved in every committed view
    void audit(Tx& x, Rng& r) {
        auto k = static_cast<TT>(r.below(3));
        auto begun = tick();
        if (!begin(x, k)) { return; }
        Snap s;
        bool by_scan = r.chance(60);
        bool ok = by_scan ? scan(x, bank_, s) : point_all(x, s);
        if (!ok) { return drop(x); }
        std::int64_t sum = 0;
        for (auto& e : s) { sum += e.second.amount; }
        auto call = tick();
        auto rc = end(x);
        if (rc != Status::OK) { return; }
        res.count("audits");
        res.count(k == TT::SHORT ? "audits_short" : k == TT::LONG ? "audits_long" : "audits_read_only");
        if (sum != static_cast<std::int64_t>(accounts_) * 100 || s.size() != accounts_) {
            std::string t;
            for (auto& e : s) { t += " " + e.first + "=" + std::to_string(e.second.amount) + "(" + std::to_string(e.second.seq) + ")"; }
            fail("snap", std::string("conservation_") + (k == TT::SHORT ? "short" : k == TT::LONG ? "long" : "read_only"),
                 "a committed reader saw " + std::to_string(sum) + " instead of " + std::to_string(accounts_ * 100) +  (by_scan ? " by a scan" : " by reads") + " in" + t + " at " + std::to_string(begun) + ".." + std::to_string(call) + "-" + std::to_string(tick()) + halves(s));
        }
        h_.fetch_add(mix(sum_hash(s), static_cast<std::uint64_t>(k)), std::memory_order_relaxed);
        res.distinct(sum_hash(s));
    }
    static std::uint64_t sum_hash(Snap const& s) {
        std::uint64_t h = 7;
        for (auto& e : s) { h = mix(h, e.second.seq); }
        return h;
    }
    bool point_all(Tx& x, Snap& s) {
        for (std::size_t i = 0; i < accounts_; ++i) {
            Val a;
            if (!get(x, bank_, acc(i), a)) { return false; }
            if (a.seq != 0) { s[acc(i)] = a; }
        }
        return true;
    }

    /// keys only this client writes: every answer is known exactly
    void own(Tx& x, Rng& r, std::size_t t) {
        auto k = r.chance(75) ? TT::SHORT : TT::LONG;
        if (!begin(x, k, k == TT::LONG ? std::vector<Storage>{owned_} : std::vector<Storage>{})) { return; }
        auto model = own_[t].model;
        auto n = r.range(1, 5);
        for (int i = 0; i < n && !x.over; ++i) {
            auto key = own_key(t, r.below(6));
            bool there = model.count(key) != 0;
            Val a{next_seq(), 0};
            Status rc{};
            Status want{};
            std::string what;
            switch (r.below(5)) {
                case 0: {
                    Val b;
                    what = "search_key";
                    if (!get(x, owned_, key, b)) { continue; }
                    auto w = there ? model[key] : Val{};
                    if (b != w) {
                        fail("lost", std::string("own_read_") + (k == TT::SHORT ? "short" : "long"),
                             "the only writer of " + esc(key) + " reads " + std::to_string(b.seq) + " instead of " + std::to_string(w.seq));
                    }
                    res.count("own_reads");
                    continue;
                }
                case 1:
                    what = "insert";
                    rc = put(x, owned_, key, a, fill(r), 2);
                    want = there ? Status::WARN_ALREADY_EXISTS : Status::OK;
                    break;
                case 2:
                    what = "update";
                    rc = put(x, owned_, key, a, fill(r), 1);
                    want = there ? Status::OK : Status::WARN_NOT_FOUND;
                    break;
                case 3:
                    what = "upsert";
                    if (k == TT::LONG) {
                        // a long transaction which did not read may be ordered before earlier ones
                        Val b;
                        if (!get(x, owned_, key, b)) { continue; }
                    }
                    rc = put(x, owned_, key, a, fill(r), 0);
                    break;
                default:
                    what = "delete";
                    rc = delete_record(x.t, owned_, key);
                    if (is_err(rc)) { x.over = true; }
                    want = there ? Status::OK : Status::WARN_NOT_FOUND;
                    if (rc == Status::WARN_CANCEL_PREVIOUS_INSERT || rc == Status::WARN_CANCEL_PREVIOUS_UPSERT) {
                        // mixed with an earlier write of this transaction: leave it at that
                        return drop(x);
                    }
                    break;
            }
            if (x.over) { break; }
            if (rc == Status::WARN_CONFLICT_ON_WRITE_PRESERVE || rc == Status::WARN_CONCURRENT_INSERT || rc == Status::WARN_CONCURRENT_UPDATE) { continue; }
            if (rc != want) {
                fail("lost", "own_" + what + ":" + sstr(rc), "the only writer of " + esc(key) + " gets " + sstr(rc) + " from " + what + " instead of " + sstr(want));
                return drop(x);
            }
            if (rc == Status::OK) {
                if (what == "delete") {
                    model.erase(key);
                } else {
                    model[key] = a;
                }
            }
        }
        if (!x.over && r.chance(10)) { return drop(x); }
        auto rc = end(x);
        if (rc == Status::OK) {
            own_[t].model = std::move(model);
            res.count("own_committed");
        } else {
            res.count("aborted");
        }
    }

    /// three keys always written together with the same number
    void pair(Tx& x, Rng& r, std::size_t t) {
        auto k = r.chance(70) ? TT::SHORT : TT::LONG;
        if (!begin(x, k, k == TT::LONG ? std::vector<Storage>{pairs_} : std::vector<Storage>{})) { return; }
        auto s = next_seq();
        for (auto& key : pair_keys(t)) {
            if (put(x, pairs_, key, {s, 0}, fill(r), 0) != Status::OK) { return drop(x); }
        }
        res.count(end(x) == Status::OK ? "pairs_committed" : "aborted");
    }

    void check_pairs(Snap const& s, std::string const& who) {
        if (auto t = pairs_differ(s); !t.empty()) { fail("snap", "pairs_" + who, t); }
    }
    std::string pairs_differ(Snap const& s) const {
        for (std::size_t t = 0; t < threads_; ++t) {
            std::set<std::uint64_t> seen;
            for (auto& k : pair_keys(t)) {
                auto i = s.find(k);
                seen.insert(i == s.end() ? 0 : i->second.seq);
            }
            if (seen.size() != 1 || *seen.begin() == 0) {
                std::string txt;
                for (auto& k : pair_keys(t)) {
                    auto i = s.find(k);
                    txt += " " + k + "=" + std::to_string(i == s.end() ? 0 : i->second.seq);
                }
                return "keys always written together differ:" + txt;
            }
        }
        return {};
    }

    /// read-only transaction over everything, for the order of snapshots
    void shot(Tx& x, Rng& /*r*/, std::vector<Shot>& out) {
        Shot s;
        s.call = tick();
        if (auto rc = tx_begin({x.t, TT::READ_ONLY}); rc != Status::OK) { return fail("stuck", "tx_begin", "tx_begin " + sstr(rc)); }
        x.k = TT::READ_ONLY;
        x.over = false;
        for (auto e = now_epoch();;) {
            std::string v;
            if (search_key(x.t, probe_, "nokey", v) != Status::WARN_PREMATURE) { break; }
            if (now_epoch() > e + 2000) { engine_failed("premature", "a transaction never starts " + rp_); }
            sleep_us(20);
        }
        // before this point the snapshot of a later one may still be older
        s.ret = tick();
        bool ok = scan(x, pairs_, s.pairs);
        if (!ok) {
            drop(x);
            return;
        }
        check_pairs(s.pairs, "read_only");
        end(x);
        res.count("snapshots");
        out.push_back(std::move(s));
    }

    /// a view held over many epochs never changes
    void hold(Tx& x, Rng& r) {
        auto k = r.chance(50) ? TT::READ_ONLY : TT::LONG;
        if (!begin(x, k)) { return; }
        std::map<Storage, Snap> all;
        for (auto s : {bank_, owned_, pairs_}) {
            if (!scan(x, s, all[s])) { return drop(x); }
        }
        auto name = k == TT::LONG ? std::string("long") : std::string("read_only");
        // what a long transaction read counts if it commits
        std::vector<std::pair<std::string, std::string>> wrong;
        if (auto t = pairs_differ(all[pairs_]); !t.empty()) { wrong.emplace_back("pairs_" + name + "_held", t); }
        auto rounds = r.range(2, 12);
        for (int i = 0; i < rounds && !bad(); ++i) {
            if (!wait_epochs(static_cast<std::uint64_t>(r.range(1, 6)))) { engine_failed("epoch", "time stands still " + rp_); }
            auto s = r.pick(std::vector<Storage>{bank_, owned_, pairs_});
            if (r.chance(40)) {
                Snap n;
                if (!scan(x, s, n)) { return drop(x); }
                if (auto t = changes(all[s], n, s); !t.empty()) { wrong.emplace_back("held_" + name + "_scan", t); }
            } else {
                for (int j = 0; j < 4; ++j) {
                    auto key = s == bank_ ? acc(r.below(accounts_)) : s == owned_ ? own_key(r.below(threads_), r.below(6)) : pair_keys(r.below(threads_))[r.below(3)];
                    Val a;
                    if (!get(x, s, key, a)) { return drop(x); }
                    auto w = all[s].count(key) != 0 ? all[s][key] : Val{};
                    if (a != w) {
                        wrong.emplace_back("held_" + name + "_read", "a held transaction first saw " + std::to_string(w.seq) + " and now " + std::to_string(a.seq) + " at " + esc(key));
                    }
                }
            }
            res.count("held_rereads");
        }
        bool counts = k == TT::READ_ONLY;
        if (k == TT::LONG || r.chance(50)) {
            auto rc = end(x);
            counts = counts || rc == Status::OK;
            res.count(rc == Status::OK ? "held_" + name + "_committed" : "aborted");
        } else {
            drop(x);
        }
        if (counts && !wrong.empty()) { fail("snap", wrong[0].first, wrong[0].second); }
    }
    std::string changes(Snap const& a, Snap const& b, Storage s) const {
        if (a == b) { return {}; }
        std::string t;
        for (auto& e : a) {
            auto i = b.find(e.first);
            if (i == b.end() || i->second != e.second) { t += " " + esc(e.first) + ":" + std::to_string(e.second.seq) + "->" + std::to_string(i == b.end() ? 0 : i->second.seq); }
        }
        for (auto& e : b) {
            if (a.count(e.first) == 0) { t += " " + esc(e.first) + ":0->" + std::to_string(e.second.seq); }
        }
        return std::string("a held transaction sees storage ") + mark(s) + " change:" + t;
    }

    /// a later snapshot is never older
    void check_order(std::vector<Shot>& v) {
        std::sort(v.begin(), v.end(), [](Shot const& a, Shot const& b) { return a.ret < b.ret; });
        std::vector<Shot*> byc;
        for (auto& s : v) { byc.push_back(&s); }
        std::sort(byc.begin(), byc.end(), [](Shot* a, Shot* b) { return a->call < b->call; });
        std::map<std::string, std::pair<std::uint64_t, std::uint64_t>> hi; // key -> number, position
        std::size_t i = 0;
        for (auto* b : byc) {
            for (; i < v.size() && v[i].ret < b->call; ++i) {
                for (auto& e : v[i].pairs) {
                    auto& h = hi[e.first];
                    if (pos(e.second.seq) >= h.second) { h = {e.second.seq, pos(e.second.seq)}; }
                }
            }
            for (auto& e : b->pairs) {
                auto h = hi.find(e.first);
                if (h == hi.end()) { continue; }
                res.count("order_comparisons");
                if (pos(e.second.seq) < h->second.second) {
                    fail("order", "snapshot_back", "a read-only transaction begun later sees an older value of " + e.first + ": " + std::to_string(e.second.seq) + " after " +
                                                           std::to_string(h->second.first));
                    return;
                }
            }
        }
    }
    /// numbers of one owner grow with its commits
    static std::uint64_t pos(std::uint64_t seq) { return seq; }

    void round(std::size_t ops) {
        std::vector<std::uint64_t> seeds;
        for (std::size_t t = 0; t < threads_; ++t) { seeds.push_back(r_.next()); }
        auto holders = r_.below(3);
        auto heavy = r_.below(4);
        bool bank_only = args.get("focus", "") == "bank" || r_.chance(15);
        std::vector<std::vector<Shot>> shots(threads_);
        h_.store(0);
        {
            Noise noise(r_);
            par(threads_, [&](std::size_t t) {
                Rng r(seeds[t]);
                Tx x;
                if (enter(x.t) != Status::OK) { throw HarnessError("enter"); }
                for (std::size_t i = 0; i < ops && !bad(); ++i) {
                    if (t < holders && t + 1 < threads_) {
                        if (i % 8 == 0) {
                            hold(x, r);
                        } else if (i % 8 == 4) {
                            shot(x, r, shots[t]);
                        } else {
                            audit(x, r);
                        }
                    } else {
                        auto what = bank_only ? r.weighted({10, 6, 0, 0, 0, 1}) : r.weighted({heavy == 0 ? 10U : 3U, 2, heavy == 1 ? 12U : 4U, heavy == 2 ? 10U : 3U, 1, heavy == 3 ? 2U : 0U});
                        switch (what) {
                            case 0: transfer(x, r); break;
                            case 1: audit(x, r); break;
                            case 2: own(x, r, t); break;
                            case 3: pair(x, r, t); break;
                            case 4: shot(x, r, shots[t]); break;
                            default: hold(x, r); break;
                        }
                    }
                    progress();
                }
                leave(x.t);
            });
        }
        std::vector<Shot> all;
        for (auto& s : shots) { std::move(s.begin(), s.end(), std::back_inserter(all)); }
        check_order(all);
        final_check();
        res.eval();
        res.distinct(h_.load());
    }

    /// what a fresh short transaction sees now
    void final_check() {
        if (bad()) { return; }
        for (int i = 0; i < 100; ++i) {
            Tx x;
            if (enter(x.t) != Status::OK) { throw HarnessError("enter"); }
            begin(x, TT::SHORT);
            Snap b;
            Snap o;
            Snap p;
            bool ok = scan(x, bank_, b) && scan(x, owned_, o) && scan(x, pairs_, p);
            ok = end(x) == Status::OK && ok;
            leave(x.t);
            if (!ok) {
                sleep_us(200);
                continue;
            }
            Snap want;
            for (auto& m : own_) { want.insert(m.model.begin(), m.model.end()); }
            if (want != o) {
                std::string t;
                for (auto& e : want) {
                    if (o.count(e.first) == 0 || o[e.first] != e.second) { t += " " + esc(e.first) + " is " + std::to_string(o.count(e.first) != 0 ? o[e.first].seq : 0) + " not " + std::to_string(e.second.seq); }
                }
                for (auto& e : o) {
                    if (want.count(e.first) == 0) { t += " " + esc(e.first) + " is " + std::to_string(e.second.seq) + " not gone"; }
                }
                fail("lost", "own_final", "after all clients ended:" + t);
            }
            check_pairs(p, "final");
            std::int64_t sum = 0;
            for (auto& e : b) { sum += e.second.amount; }
            if (sum != static_cast<std::int64_t>(accounts_) * 100) { fail("snap", "conservation_final", "balance " + std::to_string(sum)); }
            res.count("final_checks");
            return;
        }
        fail("stuck", "final", "the contents cannot be read although no client is active");
    }
    void counts() { res.count("values_checked", res_reads_.exchange(0)); }

private:
    std::uint64_t next_seq() { return seq_.fetch_add(1) + 1; }

    Rng& r_;
    std::string rp_;
    Storage bank_{}, owned_{}, pairs_{};
    Storage probe_{}; ///< never written: reading it orders nothing
    std::size_t accounts_{0};
    std::size_t threads_{0};
    std::atomic<std::uint64_t> seq_{10};
    std::atomic<std::uint64_t> res_reads_{0};
    std::atomic<std::uint64_t> h_{0};
    std::atomic<bool> bad_{false};
    std::vector<Owned> own_;
    std::mutex moves_mtx_;
    std::vector<Move> moves_;
};

void drive() {
    auto per = static_cast<std::uint64_t>(args.num("per", 4));
    auto only = args.num("only", -1);
    auto groups = (args.cases + per - 1) / per;
    for (std::uint64_t g = 0; g < groups; ++g) {
        if (only >= 0 && g != static_cast<std::uint64_t>(only)) { continue; }
        Rng r(mix(args.seed, g));
        auto cfg = random_cfg(r);
        cfg.bypass = false;
        auto rp = "--seed " + std::to_string(args.seed) + " --only " + std::to_string(g) + " " + cfg.str();
        set_case("stress " + rp);
        auto loc = fresh_location();
        standin::discard_log.store(true);
        if (start_engine(cfg, loc) != Status::OK) { throw HarnessError("init"); }
        {
            Stress w(r, rp);
            w.up(static_cast<std::size_t>(r.range(2, 8)));
            for (std::uint64_t i = 0; i < per && !w.bad(); ++i) { w.round(static_cast<std::size_t>(args.num("ops", 30))); }
            w.counts();
        }
        stop_engine();
        standin::disk_erase(loc);
    }
}

Register reg_stress("stress", drive);

} // namespace
} // namespace vh
