// Several threads working inside one transaction.
#include "par.h"

#include <algorithm>
#include <memory>

namespace vh {

namespace {

using TT = transaction_options::transaction_type;
using Map = std::map<std::string, std::string>;

enum K { SEARCH, EXIST, INSERT, UPDATE, UPSERT, DELETE };
char const* const names[] = {"search_key", "exist_key", "insert", "update", "upsert", "delete_record"};

struct Op {
    int thread{};
    K what{};
    std::string key, val; ///< val: written, or read
    Status rc{};
    std::uint64_t call{}, ret{};
    std::string str() const {
        return "T" + std::to_string(thread) + " " + names[what] + " " + key + (val.empty() ? "" : " " + val) + " -> " + sstr(rc) + " t" + std::to_string(call) +
               ".." + std::to_string(ret);
    }
};

/// what the transaction did to a key so far
struct Loc {
    char w{0}; ///< 0, I, U(pdate), P(upsert), D
    std::string v;
    bool operator<(Loc const& o) const { return std::tie(w, v) < std::tie(o.w, o.v); }
};
using State = std::map<std::string, Loc>;

/// all states after the operation if its answer fits, else none
std::vector<State> apply(State const& s, Op const& o, Map const& base) {
    auto b = base.find(o.key);
    bool bp = b != base.end();
    auto l = s.find(o.key);
    Loc x = l == s.end() ? Loc{} : l->second;
    bool present = x.w == 0 ? bp : x.w != 'D';
    auto val = x.w == 0 ? (bp ? b->second : std::string()) : x.v;
    auto same = [&](bool ok) { return ok ? std::vector<State>{s} : std::vector<State>{}; };
    auto put = [&](char w, std::string const& v) {
        State n = s;
        if (w == 0) {
            n.erase(o.key);
        } else {
            n[o.key] = Loc{w, v};
        }
        return n;
    };
    // the engine met its own half-finished insert and did nothing
    if (o.rc == Status::WARN_CONCURRENT_INSERT || o.rc == Status::WARN_CONCURRENT_UPDATE) { return same(true); }
    switch (o.what) {
        case SEARCH: return same(present ? (o.rc == Status::OK && o.val == val) : o.rc == Status::WARN_NOT_FOUND);
        case EXIST: return same(present ? o.rc == Status::OK : o.rc == Status::WARN_NOT_FOUND);
        case INSERT:
            if (present) {
                // an own upsert of a key that was absent counts as present
                return same(o.rc == Status::WARN_ALREADY_EXISTS);
            }
            if (o.rc != Status::OK) { return {}; }
            return {put(x.w == 'D' ? 'U' : 'I', o.val)};
        case UPDATE:
            if (!present) { return same(o.rc == Status::WARN_NOT_FOUND); }
            if (o.rc != Status::OK) { return {}; }
            return {put(x.w == 0 ? 'U' : x.w, o.val)};
        case UPSERT:
            if (o.rc != Status::OK) { return {}; }
            return {put(x.w == 0 ? 'P' : x.w == 'D' ? 'U' : x.w, o.val)};
        case DELETE:
            if (x.w == 'I') {
                if (o.rc == Status::WARN_CANCEL_PREVIOUS_INSERT) { return {put(0, ""), put('D', "")}; }
                return {};
            }
            if (x.w == 'P') {
                // an upsert is taken back, or what it found is deleted
                if (o.rc == Status::WARN_CANCEL_PREVIOUS_UPSERT || o.rc == Status::OK) { return {put(0, ""), put('D', "")}; }
                return {};
            }
            if (!present) { return same(o.rc == Status::WARN_NOT_FOUND); }
            if (o.rc != Status::OK) { return {}; }
            return {put('D', "")};
    }
    return {};
}

Map result(State const& s, Map const& base) {
    Map m = base;
    for (auto& x : s) {
        if (x.second.w == 'D') {
            m.erase(x.first);
        } else {
            m[x.first] = x.second.v;
        }
    }
    return m;
}

/// is there an order of the calls which explains the answers and the final contents
class Orders {
public:
    Orders(std::vector<Op> ops, Map const& base, Map const* final) : ops_(std::move(ops)), base_(base), final_(final) {}
    bool exists() {
        return go(0, {});
    }
    std::size_t visited() const { return seen_.size(); }

private:
    bool go(std::uint32_t done, State const& s) {
        if (done + 1 == (1U << ops_.size())) { return final_ == nullptr || result(s, base_) == *final_; }
        if (!seen_.insert({done, s}).second) { return false; }
        std::uint64_t first = ~0ULL; // earliest return of those not done
        for (std::size_t i = 0; i < ops_.size(); ++i) {
            if ((done >> i & 1U) == 0) { first = std::min(first, ops_[i].ret); }
        }
        for (std::size_t i = 0; i < ops_.size(); ++i) {
            if ((done >> i & 1U) != 0 || ops_[i].call > first) { continue; }
            for (auto& n : apply(s, ops_[i], base_)) {
                if (go(done | 1U << i, n)) { return true; }
            }
        }
        return false;
    }
    std::vector<Op> ops_;
    Map const& base_;
    Map const* final_; ///< null: not known
    std::set<std::pair<std::uint32_t, State>> seen_;
};

struct Item {
    std::string k, v;
};
struct Scan {
    int thread{};
    std::string lo, hi; ///< inclusive
    std::uint64_t call{}, ret{};
    bool complete{false};
    std::vector<Item> items;
};

class World {
public:
    World(Rng& r, std::string rp) : r_(r), rp_(std::move(rp)) {}
    void up() {
        if (enter(tok_) != Status::OK) { throw HarnessError("enter"); }
        if (enter(chk_) != Status::OK) { throw HarnessError("enter"); }
        if (get_storage("strand", st_) != Status::OK && create_storage("strand", st_) != Status::OK) { throw HarnessError("create_storage"); }
        if (get_storage("other", other_) != Status::OK && create_storage("other", other_) != Status::OK) { throw HarnessError("create_storage"); }
    }
    void down() {
        leave(tok_);
        leave(chk_);
    }
    void small();
    void bulk();
    void failing();
    void compare(std::string const& when) {
        Map m;
        if (!contents(m)) { return; }
        if (m != com_) { fail("contents:" + when, "contents differ " + diff(m)); }
    }
    bool bad_{false};
    std::string rp_;

private:
    void fail(std::string const& key, std::string const& text) {
        bad_ = true;
        std::string t = text + "\n";
        for (auto& l : log_) { t += "  " + l + "\n"; }
        res.violation("strand", key, t, rp_);
    }
    std::string diff(Map const& got) {
        std::string d;
        int n = 0;
        for (auto& x : got) {
            auto i = com_.find(x.first);
            if ((i == com_.end() || i->second != x.second) && n++ < 10) { d += " got " + x.first + "=" + x.second; }
        }
        for (auto& x : com_) {
            auto i = got.find(x.first);
            if ((i == got.end() || i->second != x.second) && n++ < 20) { d += " expected " + x.first + "=" + x.second; }
        }
        return d;
    }
    bool begin(TT k);
    Status end();
    bool contents(Map& out);
    void preload(int keys, unsigned percent);
    static bool tolerated(Status s) {
        return s == Status::ERR_CC; // short transactions meet the removal of dead index entries
    }

    Rng& r_;
    Token tok_{}, chk_{};
    Storage st_{};
    Storage other_{}; ///< not to be read by the transaction
    Map com_;
    std::vector<std::string> log_;
    std::uint64_t no_{0};
};

bool World::begin(TT k) {
    transaction_options o(tok_, k);
    if (k == TT::LONG) { o = transaction_options(tok_, k, {st_}); }
    auto rc = tx_begin(o);
    if (rc != Status::OK) {
        fail("tx_begin:" + sstr(rc), "cannot begin");
        return false;
    }
    if (k != TT::SHORT) {
        std::string v;
        for (int i = 0; search_key(tok_, st_, "zz", v) == Status::WARN_PREMATURE; ++i) {
            if (i > 20000) { engine_failed("premature", "a transaction never starts " + rp_); }
            sleep_us(50);
        }
    }
    return true;
}

Status World::end() {
    auto a = std::make_shared<std::atomic<int>>(-99999);
    commit(tok_, [a](Status s, reason_code, durability_marker_type) { a->store(static_cast<int>(s)); });
    for (int i = 0; a->load() == -99999; ++i) {
        sleep_us(20);
        if (i > 1000000) { engine_failed("commit", "a commit is not answered " + rp_); }
    }
    return static_cast<Status>(a->load());
}

bool World::contents(Map& out) {
    for (int tries = 0; tries < 500; ++tries) {
        out.clear();
        if (tx_begin({chk_, TT::SHORT}) != Status::OK) { throw HarnessError("tx_begin"); }
        ScanHandle h{};
        auto rc = open_scan(chk_, st_, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
        if (rc == Status::WARN_NOT_FOUND) {
            if (commit(chk_) == Status::OK) { return true; }
            continue;
        }
        while (rc == Status::OK) {
            std::string k;
            std::string v;
            rc = read_key_from_scan(chk_, h, k);
            if (rc == Status::OK) { rc = read_value_from_scan(chk_, h, v); }
            if (rc == Status::OK) {
                out[k] = v;
                rc = next(chk_, h);
            }
        }
        if (rc == Status::WARN_SCAN_LIMIT && commit(chk_) == Status::OK) { return true; }
        abort(chk_);
        wait_epochs(1);
    }
    fail("contents:unreadable", "the contents cannot be read");
    return false;
}

void World::preload(int keys, unsigned percent) {
    // brings the keys into a random state
    for (int tries = 0; tries < 500; ++tries) {
        auto m = com_;
        if (tx_begin({chk_, TT::SHORT}) != Status::OK) { throw HarnessError("tx_begin"); }
        Status rc = Status::OK;
        for (int i = 0; i < keys && !is_err(rc); ++i) {
            auto k = "k" + std::to_string(i);
            if (r_.chance(percent)) {
                auto v = "b" + std::to_string(++no_);
                rc = upsert(chk_, st_, k, v);
                m[k] = v;
            } else {
                rc = delete_record(chk_, st_, k);
                m.erase(k);
            }
        }
        if (!is_err(rc) && commit(chk_) == Status::OK) {
            com_ = m;
            return;
        }
        abort(chk_);
        wait_epochs(1);
    }
    throw HarnessError("preload");
}

void World::small() {
    log_.clear();
    auto keys = static_cast<int>(r_.range(1, 3));
    preload(keys, 50);
    if (r_.chance(30)) { wait_epochs(static_cast<std::uint64_t>(r_.range(1, 6))); } // let dead entries go
    auto kind = std::vector<TT>{TT::SHORT, TT::SHORT, TT::LONG, TT::LONG, TT::READ_ONLY}[r_.below(5)];
    if (kind == TT::READ_ONLY) { wait_epochs(12); }
    if (!begin(kind)) { return; }
    auto threads = static_cast<std::size_t>(r_.range(2, 4));
    auto per = static_cast<std::size_t>(threads == 4 ? 3 : r_.range(1, 4));
    std::vector<std::vector<Op>> plan(threads);
    for (std::size_t t = 0; t < threads; ++t) {
        auto n = r_.range(1, static_cast<std::int64_t>(per));
        for (int i = 0; i < n; ++i) {
            Op o;
            o.thread = static_cast<int>(t);
            o.what = kind == TT::READ_ONLY ? static_cast<K>(r_.below(2)) : static_cast<K>(r_.weighted({20, 8, 22, 14, 22, 18}));
            o.key = "k" + std::to_string(r_.below(static_cast<std::uint64_t>(keys)));
            if (o.what == INSERT || o.what == UPDATE || o.what == UPSERT) { o.val = "s" + std::to_string(++no_); }
            plan[t].push_back(o);
        }
    }
    std::vector<std::vector<Scan>> scans(threads);
    bool scanning = r_.chance(40);
    std::atomic<bool> ended{false};
    {
        Noise noise(r_);
        par(threads, [&](std::size_t t) {
            for (std::size_t i = 0; i < plan[t].size(); ++i) {
                auto& o = plan[t][i];
                std::string v;
                o.call = tick();
                switch (o.what) {
                    case SEARCH: o.rc = search_key(tok_, st_, o.key, v); break;
                    case EXIST: o.rc = exist_key(tok_, st_, o.key); break;
                    case INSERT: o.rc = insert(tok_, st_, o.key, o.val); break;
                    case UPDATE: o.rc = update(tok_, st_, o.key, o.val); break;
                    case UPSERT: o.rc = upsert(tok_, st_, o.key, o.val); break;
                    case DELETE: o.rc = delete_record(tok_, st_, o.key); break;
                }
                o.ret = tick();
                if (o.what == SEARCH && o.rc == Status::OK) { o.val = v; }
                if (is_err(o.rc)) { ended.store(true); }
                if (scanning && i == 0 && !ended.load()) {
                    Scan s;
                    s.thread = static_cast<int>(t);
                    s.call = tick();
                    ScanHandle h{};
                    auto rc = open_scan(tok_, st_, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
                    while (rc == Status::OK) {
                        Item it;
                        rc = read_key_from_scan(tok_, h, it.k);
                        if (rc == Status::OK) { rc = read_value_from_scan(tok_, h, it.v); }
                        if (rc == Status::OK) { s.items.push_back(it); }
                        if (rc == Status::WARN_NOT_FOUND || rc == Status::WARN_CONCURRENT_INSERT || rc == Status::WARN_CONCURRENT_UPDATE ||
                            rc == Status::OK) {
                            rc = next(tok_, h);
                        }
                    }
                    if (is_err(rc)) { ended.store(true); }
                    if (rc == Status::WARN_SCAN_LIMIT) {
                        s.complete = true;
                        close_scan(tok_, h);
                    }
                    s.ret = tick();
                    scans[t].push_back(s);
                }
            }
        });
    }
    std::vector<Op> all;
    std::uint64_t sig = static_cast<std::uint64_t>(kind) + 5;
    bool err = false;
    for (auto& p : plan) {
        for (auto& o : p) {
            log_.push_back(o.str());
            sig = hash_str(std::to_string(o.thread) + names[o.what] + o.key + sstr(o.rc), sig);
            err |= is_err(o.rc) || o.rc == Status::WARN_NOT_BEGIN;
            all.push_back(o);
        }
    }
    std::sort(all.begin(), all.end(), [](Op const& a, Op const& b) { return a.call < b.call; });
    bool overlap = false;
    for (std::size_t i = 1; i < all.size(); ++i) {
        overlap |= all[i].call < all[i - 1].ret && all[i].key == all[i - 1].key;
        sig = mix(sig, all[i].call < all[i - 1].ret ? 1 : 2);
    }
    for (auto& v : scans) {
        for (auto& s : v) {
            std::string t = "T" + std::to_string(s.thread) + " scan";
            for (auto& i : s.items) { t += " " + i.k + "=" + i.v; }
            log_.push_back(t + (s.complete ? "" : " incomplete"));
        }
    }
    for (auto& x : com_) { log_.push_back("before: " + x.first + "=" + x.second); }
    res.eval();
    if (overlap) {
        res.count("overlapping_calls_on_one_key");
        res.distinct(sig);
    }
    res.count(kind == TT::SHORT ? "short" : kind == TT::LONG ? "long" : "read_only");
    res.count("calls", all.size());
    if (err || ended.load()) {
        abort(tok_);
        bool fine = kind == TT::SHORT;
        for (auto& o : all) {
            if (is_err(o.rc) && !tolerated(o.rc)) { fine = false; }
        }
        if (!fine) { fail("aborted", "the transaction was aborted although nothing else runs"); }
        res.count("aborted_by_engine");
        compare("aborted");
        return;
    }
    // scans
    std::set<std::string> touched;
    std::map<std::string, std::set<std::string>> possible;
    for (auto& x : com_) { possible[x.first].insert(x.second); }
    for (auto& o : all) {
        if (o.what != SEARCH && o.what != EXIST) {
            touched.insert(o.key);
            if (!o.val.empty()) { possible[o.key].insert(o.val); }
        }
    }
    for (auto& v : scans) {
        for (auto& s : v) {
            res.count("scans");
            std::map<std::string, int> got;
            for (std::size_t i = 0; i < s.items.size(); ++i) {
                auto& it = s.items[i];
                if (i > 0 && !(s.items[i - 1].k < it.k)) { fail("scan:order", "a scan returns keys out of order"); }
                if (possible[it.k].count(it.v) == 0) { fail("scan:value", "a scan returns " + it.k + "=" + it.v + " which nobody wrote"); }
                ++got[it.k];
            }
            for (auto& x : com_) {
                if (s.complete && touched.count(x.first) == 0 && got[x.first] != 1) { fail("scan:missing", "a scan misses " + x.first); }
            }
        }
    }
    auto before = com_;
    if (r_.chance(25)) {
        auto rc = abort(tok_);
        if (rc != Status::OK) { fail("abort:" + sstr(rc), "cannot abort"); }
        log_.push_back("abort");
        res.count("user_aborts");
        compare("user_abort");
        Orders ord(all, before, nullptr);
        if (!ord.exists()) { fail("order:aborted", "no order of the calls explains their answers"); }
        return;
    }
    auto rc = end();
    log_.push_back("commit -> " + sstr(rc));
    if (rc != Status::OK) {
        if (!(kind == TT::SHORT && tolerated(rc))) { fail("commit:" + sstr(rc), "the transaction cannot commit although nothing else runs"); }
        res.count("aborted_by_engine");
        compare("failed_commit");
        return;
    }
    res.count("committed");
    Map now;
    if (!contents(now)) { return; }
    for (auto& x : now) { log_.push_back("after: " + x.first + "=" + x.second); }
    Orders ord(all, before, &now);
    if (!ord.exists()) { fail("order", "no order of the calls explains their answers and the contents after the commit"); }
    res.count("orders_searched", ord.visited());
    com_ = now;
}

/// many calls on keys of their own, shared index nodes and local sets
void World::bulk() {
    log_.clear();
    auto kind = r_.chance(50) ? TT::SHORT : TT::LONG;
    if (!begin(kind)) { return; }
    auto threads = static_cast<std::size_t>(r_.range(2, 6));
    auto n = static_cast<std::size_t>(r_.range(5, 40));
    std::vector<Map> mine(threads);
    std::vector<std::set<std::string>> gone(threads);
    std::vector<std::string> problem(threads);
    std::atomic<bool> ended{false};
    auto base = com_;
    {
        Noise noise(r_);
        std::vector<std::uint64_t> seeds;
        for (std::size_t t = 0; t < threads; ++t) { seeds.push_back(r_.next()); }
        par(threads, [&](std::size_t t) {
            Rng r(seeds[t]);
            for (std::size_t i = 0; i < n && !ended.load(); ++i) {
                auto k = "m" + std::to_string(i) + "-" + std::to_string(t);
                auto v = "t" + std::to_string(t) + "." + std::to_string(no_) + "." + std::to_string(i) + std::string(r.below(60), 'x');
                bool there = base.count(k) != 0;
                Status rc{};
                Status exp = Status::OK;
                auto x = r.below(100);
                if (x < 40) {
                    rc = upsert(tok_, st_, k, v);
                } else if (x < 65) {
                    rc = insert(tok_, st_, k, v);
                    exp = there ? Status::WARN_ALREADY_EXISTS : Status::OK;
                } else if (x < 75) {
                    rc = update(tok_, st_, k, v);
                    exp = there ? Status::OK : Status::WARN_NOT_FOUND;
                } else if (x < 92) {
                    rc = delete_record(tok_, st_, k);
                    exp = there ? Status::OK : Status::WARN_NOT_FOUND;
                    v.clear();
                } else {
                    std::string got;
                    rc = search_key(tok_, st_, k, got);
                    exp = there ? Status::OK : Status::WARN_NOT_FOUND;
                    if (rc == Status::OK && got != base[k]) { problem[t] = k + " read " + got; }
                    if (rc == exp) { continue; }
                }
                if (is_err(rc)) {
                    ended.store(true);
                    break;
                }
                if (rc == Status::WARN_NOT_BEGIN && ended.load()) { break; }
                if (rc != exp) {
                    problem[t] = k + " answered " + sstr(rc) + " instead of " + sstr(exp);
                    continue;
                }
                if (rc != Status::OK) { continue; }
                if (v.empty()) {
                    gone[t].insert(k);
                } else {
                    mine[t][k] = v;
                }
                std::string got;
                if (r.chance(30)) {
                    rc = search_key(tok_, st_, k, got);
                    if (is_err(rc)) {
                        ended.store(true);
                    } else if (rc != (v.empty() ? Status::WARN_NOT_FOUND : Status::OK) || (rc == Status::OK && got != v)) {
                        if (!ended.load()) { problem[t] = k + " own write read back as " + sstr(rc) + " " + got; }
                    }
                }
            }
        });
    }
    ++no_;
    res.eval();
    res.count("bulk");
    if (ended.load()) {
        abort(tok_);
        if (kind != TT::SHORT) { fail("bulk:aborted", "a long transaction was aborted although nothing else runs"); }
        res.count("aborted_by_engine");
        compare("bulk_aborted");
        return;
    }
    for (auto& p : problem) {
        if (!p.empty()) { fail("bulk:answer", p); }
    }
    if (r_.chance(20)) {
        abort(tok_);
        res.count("user_aborts");
        compare("bulk_user_abort");
        return;
    }
    auto rc = end();
    if (rc != Status::OK) {
        if (!(kind == TT::SHORT && tolerated(rc))) { fail("bulk:commit:" + sstr(rc), "the transaction cannot commit although nothing else runs"); }
        res.count("aborted_by_engine");
        compare("bulk_failed_commit");
        return;
    }
    res.count("committed");
    std::uint64_t sig = threads * 100 + n;
    for (std::size_t t = 0; t < threads; ++t) {
        for (auto& k : gone[t]) { com_.erase(k); }
        for (auto& x : mine[t]) { com_[x.first] = x.second; }
        sig = mix(sig, mine[t].size() * 64 + gone[t].size());
    }
    res.distinct(sig);
    compare("bulk");
    if (com_.size() > 150) {
        for (int tries = 0; tries < 100; ++tries) { // start over
            if (tx_begin({chk_, TT::SHORT}) != Status::OK) { throw HarnessError("tx_begin"); }
            for (auto& x : com_) { delete_record(chk_, st_, x.first); }
            if (commit(chk_) == Status::OK) {
                com_.clear();
                break;
            }
            abort(chk_);
            wait_epochs(1);
        }
    }
}

/// one call ends the transaction while other threads are inside of it
void World::failing() {
    log_.clear();
    auto kind = r_.chance(50) ? TT::SHORT : TT::LONG;
    log_.push_back(kind == TT::SHORT ? "SHORT" : "LONG");
    Token l{};
    if (kind == TT::SHORT) {
        // the other storage is preserved by somebody else
        if (enter(l) != Status::OK || tx_begin({l, TT::LONG, {other_}}) != Status::OK) { throw HarnessError("long"); }
        for (int i = 0; upsert(l, other_, "x", "y") == Status::WARN_PREMATURE; ++i) {
            if (i > 20000) { engine_failed("premature", "a transaction never starts " + rp_); }
            sleep_us(50);
        }
        if (!begin(kind)) { return; }
    } else {
        transaction_options o(tok_, kind, {st_}, transaction_options::read_area({st_}, {}));
        if (auto rc = tx_begin(o); rc != Status::OK) { return fail("tx_begin:" + sstr(rc), "cannot begin"); }
        std::string v;
        for (int i = 0; search_key(tok_, st_, "zz", v) == Status::WARN_PREMATURE; ++i) {
            if (i > 20000) { engine_failed("premature", "a transaction never starts " + rp_); }
            sleep_us(50);
        }
    }
    auto threads = static_cast<std::size_t>(r_.range(2, 5));
    auto bad = r_.below(threads);
    auto at = r_.below(6);
    std::vector<std::uint64_t> seeds;
    for (std::size_t t = 0; t < threads; ++t) { seeds.push_back(r_.next()); }
    std::vector<std::vector<std::string>> said(threads);
    std::atomic<int> errors{0};
    std::atomic<bool> reached{false};
    std::atomic<bool> wrong{false};
    auto base = com_;
    {
        Noise noise(r_);
        par(threads, [&](std::size_t t) {
            Rng r(seeds[t]);
            ScanHandle h{};
            bool open = false;
            for (std::size_t i = 0; i < 14; ++i) {
                Status rc{};
                std::string v;
                std::string what;
                if (t == bad && i == at) {
                    reached.store(true);
                    what = "forbidden read";
                    auto x = r.below(3);
                    ScanHandle g{};
                    rc = x == 0   ? search_key(tok_, other_, "x", v)
                         : x == 1 ? exist_key(tok_, other_, "x")
                                  : open_scan(tok_, other_, "", scan_endpoint::INF, "", scan_endpoint::INF, g);
                } else if (open) {
                    auto x = r.below(5);
                    what = x < 2 ? "next" : x == 2 ? "read_key_from_scan" : x == 3 ? "read_value_from_scan" : "close_scan";
                    rc = x < 2    ? next(tok_, h)
                         : x == 2 ? read_key_from_scan(tok_, h, v)
                         : x == 3 ? read_value_from_scan(tok_, h, v)
                                  : close_scan(tok_, h);
                    if (x == 4 || rc == Status::WARN_SCAN_LIMIT) { open = false; }
                } else {
                    auto x = r.below(4);
                    auto k = "k" + std::to_string(r.below(3));
                    what = x == 0 ? "open_scan" : x == 1 ? "search_key" : x == 2 ? "upsert" : "insert";
                    rc = x == 0   ? open_scan(tok_, st_, "", scan_endpoint::INF, "", scan_endpoint::INF, h)
                         : x == 1 ? search_key(tok_, st_, k, v)
                         : x == 2 ? upsert(tok_, st_, k, "lost")
                                  : insert(tok_, st_, k, "lost");
                    if (x == 0 && rc == Status::OK) { open = true; }
                }
                said[t].push_back("T" + std::to_string(t) + " " + what + " -> " + sstr(rc));
                if (is_err(rc)) { errors.fetch_add(1); }
                if (what == "forbidden read" && !is_err(rc) && rc != Status::WARN_NOT_BEGIN) { wrong.store(true); }
                if (is_err(rc) || rc == Status::WARN_NOT_BEGIN) { break; }
            }
        });
    }
    for (auto& s : said) {
        for (auto& x : s) { log_.push_back(x); }
    }
    res.eval();
    res.count("failing");
    if (wrong.load()) { fail("failing:answer", "a forbidden read was answered"); }
    if (reached.load() && errors.load() == 0) { fail("failing:no_error", "no thread was told that the transaction failed"); }
    std::string v;
    auto rc = search_key(tok_, st_, "k0", v);
    if (reached.load() && rc != Status::WARN_NOT_BEGIN) { fail("failing:alive:" + sstr(rc), "the transaction lives on after it failed"); }
    abort(tok_);
    if (l != nullptr) {
        abort(l);
        leave(l);
    }
    compare("failing");
}

void drive() {
    auto cases = static_cast<int>(args.cases);
    auto per = static_cast<int>(args.num("per", 30));
    auto only = args.num("only", -1);
    for (int g = 0; g * per < cases; ++g) {
        if (only >= 0 && only != g) { continue; }
        Rng r(mix(args.seed, static_cast<std::uint64_t>(g) + 1));
        auto cfg = random_cfg(r);
        cfg.bypass = cfg.bypass_root = false;
        auto rp = "strand --seed " + std::to_string(args.seed) + " --cases " + std::to_string((g + 1) * per) + " --per " + std::to_string(per) + " --only " +
                  std::to_string(g);
        auto loc = fresh_location();
        if (auto s = start_engine(cfg, loc); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s)); }
        World w(r, rp + " [" + cfg.str() + "]");
        w.up();
        for (int i = 0; i < per && !w.bad_; ++i) {
            set_case(rp + " case " + std::to_string(i) + " " + cfg.str());
            switch (r.weighted({60, 20, 20})) {
                case 0: w.small(); break;
                case 1: w.bulk(); break;
                default: w.failing(); break;
            }
        }
        w.down();
        if (!w.bad_ && r.chance(30)) {
            stop_engine(false);
            if (auto s = start_engine(cfg, loc, database_options::open_mode::RESTORE); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s)); }
            w.up();
            w.compare("restart");
            res.count("restarts");
            w.down();
        }
        stop_engine(true);
        if (res.want_sample()) { res.sample(rp); }
    }
}

Register reg("strand", drive);

} // namespace
} // namespace vh
