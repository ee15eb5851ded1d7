// Sessions claimed and given back by several clients, at and below capacity, with transactions of
// every kind and stage open when they are given back.
#include "par.h"

#include <memory>

namespace vh {

namespace {

using TT = transaction_options::transaction_type;

/// who holds which session
class Owners {
public:
    /// false: somebody else holds it
    bool take(Token t) {
        std::lock_guard lk{m_};
        return held_.insert(t).second;
    }
    /// before the session is given back
    void give(Token t) {
        std::lock_guard lk{m_};
        held_.erase(t);
    }
    std::size_t size() {
        std::lock_guard lk{m_};
        return held_.size();
    }
    void clear() {
        std::lock_guard lk{m_};
        held_.clear();
    }

private:
    std::mutex m_;
    std::set<Token> held_;
};

struct Answer {
    std::atomic<int> n{0};
    std::atomic<int> st{0};
};

/// a place for one session and its transaction; works on keys of its own
struct Slot {
    std::string prefix;
    Token tok{};
    bool began{false};
    TT kind{};
    bool common{false}; ///< it used the storage shared with other clients
    TxStateHandle tsh{undefined_handle};
    std::vector<ScanHandle> scans;
    std::map<std::string, std::string> cur;                ///< what the open transaction sees
    std::map<std::string, std::string> com;                ///< committed
    std::map<std::string, std::set<std::string>> may;      ///< other legal values ("" = absent)
    std::map<std::string, std::set<std::string>> hist;     ///< all committed values
    std::set<std::string> wrote;
};

struct Old {
    Token tok{};
    std::vector<ScanHandle> scans;
};

class Client {
public:
    Client(int no, std::uint64_t seed, Owners& o, Storage own, Storage common, bool full, std::string rp)
        : no_(no), r_(seed), own_(o), st_(own), common_(common), full_(full), rp_(std::move(rp)) {
        for (int i = 0; i < 3; ++i) {
            slots_[i].prefix = "c" + std::to_string(no) + "s" + std::to_string(i) + "-";
        }
    }
    /// keep: transactions and sessions stay open in the end
    void run(int steps, bool keep) {
        for (int i = 0; i < steps && !bad_; ++i) {
            progress();
            step();
        }
        if (!keep || bad_) { return close_down(false); }
        for (auto& s : slots_) { // others may wait for it
            if (s.began && s.kind == TT::LONG) { end_session(s); }
        }
    }
    void close_down(bool keep) {
        keep_ = keep;
        for (auto& s : slots_) {
            if (s.tok == nullptr) { continue; }
            if (keep && !s.began && !bad_) { begin(s); }
            if (bad_) {
                own_.give(s.tok);
                leave(s.tok);
            } else if (!keep || r_.chance(30)) {
                end_session(s);
            } else {
                keep_open(s);
            }
        }
    }
    bool bad() const { return bad_; }
    void keep_open(Slot& s);
    void after_restart(Storage own) { st_ = own; }
    void verify();
    std::uint64_t sig_{7};

private:
    void note(std::string const& s) {
        if (log_.size() > 400) { log_.erase(log_.begin(), log_.begin() + 200); }
        log_.push_back(s);
        sig_ = hash_str(s, sig_);
    }
    void fail(std::string const& key, std::string text) {
        bad_ = true;
        text += "\n";
        for (auto i = log_.size() > 50 ? log_.size() - 50 : 0; i < log_.size(); ++i) { text += "  " + log_[i] + "\n"; }
        res.violation("session", key, text, rp_);
    }
    std::string name(Slot& s) { return s.prefix.substr(0, s.prefix.size() - 1); }
    std::string value() { return "v" + std::to_string(no_) + "." + std::to_string(++val_); }
    void step();
    void start_session(Slot& s);
    void probe(Slot& s);
    void begin(Slot& s);
    void op(Slot& s);
    void finish(Slot& s);
    void end_session(Slot& s);
    void ended(Slot& s, bool committed);
    void aborted_by_engine(Slot& s, char const* what, Status rc) {
        note(name(s) + " " + what + " -> " + sstr(rc));
        res.count("aborted_by_engine");
        ended(s, false);
        check_state(s, s.tsh, false);
    }
    bool await(Slot& s, std::shared_ptr<Answer> const& a);
    void check_state(Slot& s, TxStateHandle h, bool committed);

    int no_;
    Rng r_;
    Owners& own_;
    Storage st_;
    Storage common_;
    bool full_;
    std::string rp_;
    Slot slots_[3];
    std::vector<std::string> log_;
    std::vector<Old> old_;
    bool bad_{false};
    bool keep_{false};
    int val_{0};
};

void Client::ended(Slot& s, bool committed) {
    if (committed) {
        for (auto& k : s.wrote) {
            auto i = s.cur.find(k);
            auto nv = i == s.cur.end() ? std::string() : i->second;
            auto j = s.com.find(k);
            auto ov = j == s.com.end() ? std::string() : j->second;
            s.hist[k].insert(nv);
            auto before = s.may[k];
            s.may[k].clear();
            // ordered before transactions it overtook, it may lie before what was there
            if (s.kind == TT::LONG && s.common) {
                s.may[k] = before;
                s.may[k].insert(ov);
            }
            if (nv.empty()) {
                s.com.erase(k);
            } else {
                s.com[k] = nv;
            }
        }
        res.count("committed");
    } else {
        res.count("aborted");
    }
    s.began = false;
    s.scans.clear();
    s.wrote.clear();
    s.common = false;
}

void Client::check_state(Slot& s, TxStateHandle h, bool committed) {
    if (h == undefined_handle) { return; }
    TxState st;
    auto rc = check_tx_state(h, st);
    note(name(s) + " check_tx_state -> " + sstr(rc) + " " + std::string(to_string_view(st.state_kind())));
    using K = TxState::StateKind;
    auto k = st.state_kind();
    if (rc != Status::OK) {
        fail("state:" + sstr(rc), "the state handle of an ended transaction is refused before its release");
    } else if (committed ? (k != K::WAITING_DURABLE && k != K::DURABLE) : k != K::ABORTED) {
        fail(std::string("state:") + (committed ? "committed" : "aborted") + "_is_" + std::string(to_string_view(k)),
             "the transaction of a session that was given back ended otherwise");
    }
    res.count("states_after_leave");
    rc = release_tx_state_handle(h);
    if (rc != Status::OK) { fail("release:" + sstr(rc), "the state handle cannot be released"); }
    s.tsh = undefined_handle;
}

void Client::start_session(Slot& s) {
    Token t{};
    auto rc = enter(t);
    note(name(s) + " enter -> " + sstr(rc) + " " + std::to_string(reinterpret_cast<std::uintptr_t>(t) % 1000003));
    if (rc == Status::OK) {
        if (!own_.take(t)) {
            fail("enter:held_by_another", "a session was handed out that another client still holds");
            return;
        }
        s.tok = t;
        res.count("entered");
        if (r_.chance(70)) { probe(s); }
        return;
    }
    if (rc != Status::ERR_SESSION_LIMIT) {
        fail("enter:" + sstr(rc), "unexpected answer");
    } else if (!full_) {
        fail("enter:limit_below_capacity", "the session limit is reported although most sessions are free");
    }
    res.count("limit_reported");
}

/// a session just handed out shows nothing of its former use
void Client::probe(Slot& s) {
    auto must = [&](char const* what, Status rc) {
        if (rc != Status::WARN_NOT_BEGIN) { fail(std::string("fresh:") + what + ":" + sstr(rc), "a new session does not look unused"); }
    };
    std::string v;
    TxStateHandle h{undefined_handle};
    switch (r_.below(7)) {
        case 0: must("search_key", search_key(s.tok, st_, s.prefix + "0", v)); break;
        case 1: must("upsert", upsert(s.tok, st_, s.prefix + "0", "lost")); break;
        case 2: must("commit", commit(s.tok)); break;
        case 3: must("abort", abort(s.tok)); break;
        case 4: must("get_tx_id", get_tx_id(s.tok, v)); break;
        case 5: must("acquire_tx_state_handle", acquire_tx_state_handle(s.tok, h)); break;
        default: must("insert", insert(s.tok, st_, s.prefix + "0", "lost")); break;
    }
    res.count("fresh_probes");
}

void Client::begin(Slot& s) {
    auto kind = TT::SHORT;
    bool ltx_open = false;
    for (auto& o : slots_) { ltx_open |= o.began && o.kind == TT::LONG; }
    auto x = r_.below(100);
    if (x < 40 && !ltx_open) {
        kind = TT::LONG;
    } else if (x > 80) {
        kind = TT::READ_ONLY;
    }
    transaction_options o(s.tok, kind);
    s.common = false;
    if (kind == TT::LONG) {
        std::vector<Storage> wp{st_};
        if (r_.chance(40)) {
            wp.push_back(common_);
            s.common = true;
        }
        o = transaction_options(s.tok, kind, wp);
    }
    auto rc = tx_begin(o);
    note(name(s) + " tx_begin " + (kind == TT::SHORT ? "SHORT" : kind == TT::LONG ? "LONG" : "READ_ONLY") + " -> " + sstr(rc));
    if (rc != Status::OK) {
        fail("tx_begin:" + sstr(rc), "a new session cannot begin a transaction");
        return;
    }
    s.began = true;
    s.kind = kind;
    s.cur = s.com;
    s.wrote.clear();
    fresh_tx_id(s.tok);
    auto ri = transaction_result_info(s.tok);
    no_abort_reason(s.tok, "begun");
    if (ri && (ri->get_reason_code() != reason_code::UNKNOWN || !ri->get_key().empty() || !ri->get_storage_name().empty())) { fail("fresh:result_info", "a transaction just begun shows an abort reason"); }
    if (r_.chance(50)) {
        rc = acquire_tx_state_handle(s.tok, s.tsh);
        if (rc != Status::OK) {
            fail("fresh:acquire_tx_state_handle:" + sstr(rc), "a transaction just begun has a state handle already");
            s.tsh = undefined_handle;
        }
    }
    // scans opened in this session by its former holder
    for (auto& q : old_) {
        if (q.tok != s.tok) { continue; }
        for (auto h : q.scans) {
            rc = close_scan(s.tok, h);
            res.count("old_scans_refused");
            if (rc != Status::WARN_INVALID_HANDLE) { fail("fresh:close_scan:" + sstr(rc), "a scan of the former session is still open"); }
        }
        q.scans.clear();
    }
    if (kind != TT::SHORT && r_.chance(70)) { wait_epochs(static_cast<std::uint64_t>(r_.range(1, 3))); }
    auto n = r_.below(5);
    for (std::size_t i = 0; i < n && s.began && !bad_; ++i) { op(s); }
}

void Client::op(Slot& s) {
    auto k = s.prefix + std::to_string(r_.below(4));
    auto have = s.cur.find(k);
    auto x = r_.below(100);
    if (s.kind == TT::READ_ONLY && x >= 30) { x = r_.below(55) < 40 ? 0 : 80; }
    if (x < 30) {
        std::string v;
        auto rc = search_key(s.tok, st_, k, v);
        if (is_err(rc)) { return aborted_by_engine(s, "search_key", rc); }
        note(name(s) + " search_key " + k + " -> " + sstr(rc) + " " + v);
        if (rc == Status::WARN_PREMATURE && s.kind != TT::SHORT) { return; }
        if (rc == Status::WARN_CONCURRENT_INSERT || rc == Status::WARN_CONCURRENT_UPDATE) { return; }
        if (rc == Status::WARN_NOT_FOUND) {
            v.clear();
        } else if (rc != Status::OK) {
            fail("search_key:" + sstr(rc), "unexpected answer");
            return;
        }
        res.count("reads");
        auto exp = have == s.cur.end() ? std::string() : have->second;
        if (s.kind == TT::READ_ONLY) {
            if (!v.empty() && s.hist[k].count(v) == 0) { fail("search_key:value", "read-only transaction reads " + v + " which was never committed"); }
        } else if (v != exp && (s.wrote.count(k) != 0 || s.may[k].count(v) == 0)) {
            fail("search_key:value", "reads '" + v + "' instead of '" + exp + "'");
        }
        return;
    }
    if (x >= 75) {
        ScanHandle h{};
        auto& st = r_.chance(30) ? common_ : st_;
        auto rc = open_scan(s.tok, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
        if (is_err(rc)) { return aborted_by_engine(s, "open_scan", rc); }
        note(name(s) + " open_scan -> " + sstr(rc));
        if (rc == Status::OK) {
            s.scans.push_back(h);
            if (st == common_) { s.common = true; }
            std::string v;
            rc = read_key_from_scan(s.tok, h, v);
            if (is_err(rc)) { return aborted_by_engine(s, "read_key_from_scan", rc); }
            if (r_.chance(30)) {
                rc = close_scan(s.tok, h);
                if (rc != Status::OK) { fail("close_scan:" + sstr(rc), "an open scan cannot be closed"); }
                s.scans.pop_back();
            }
        }
        return;
    }
    auto nv = value();
    Status rc{};
    if (x < 50) {
        rc = upsert(s.tok, st_, k, nv);
    } else if (x < 60) {
        rc = insert(s.tok, st_, k, nv);
    } else if (x < 68) {
        rc = update(s.tok, st_, k, nv);
    } else {
        rc = delete_record(s.tok, st_, k);
        nv.clear();
    }
    if (is_err(rc)) { return aborted_by_engine(s, "write", rc); }
    note(name(s) + (x < 50 ? " upsert " : x < 60 ? " insert " : x < 68 ? " update " : " delete ") + k + " " + nv + " -> " + sstr(rc));
    if (rc == Status::WARN_CANCEL_PREVIOUS_INSERT) {
        s.cur.erase(k);
        s.wrote.insert(k);
        return;
    }
    if (rc == Status::WARN_CANCEL_PREVIOUS_UPSERT) {
        // both are legal: nothing is written, or the record is deleted
        s.cur.erase(k);
        s.wrote.insert(k);
        auto i = s.com.find(k);
        if (i != s.com.end()) {
            auto a = abort(s.tok);
            note(name(s) + " abort -> " + sstr(a));
            ended(s, false);
            check_state(s, s.tsh, false);
        }
        return;
    }
    if (rc != Status::OK) { return; }
    s.wrote.insert(k);
    if (nv.empty()) {
        s.cur.erase(k);
    } else {
        s.cur[k] = nv;
    }
    res.count("writes");
}

bool Client::await(Slot& s, std::shared_ptr<Answer> const& a) {
    auto e = now_epoch();
    auto t0 = wall_us();
    while (a->n.load() == 0) {
        sleep_us(30);
        progress();
        if (wall_us() - t0 > 40000000 && now_epoch() > e + 2000) {
            fail("commit:no_answer", "a commit request is not answered");
            ended(s, false);
            return false;
        }
    }
    return true;
}

/// ends the transaction of the slot, the session stays
void Client::finish(Slot& s) {
    if (r_.chance(40)) {
        auto rc = abort(s.tok);
        note(name(s) + " abort -> " + sstr(rc));
        if (rc != Status::OK) { fail("abort:" + sstr(rc), "an open transaction cannot be aborted"); }
        ended(s, false);
        check_state(s, s.tsh, false);
        return;
    }
    for (int i = 0; i < 4000 && !bad_; ++i) {
        auto a = std::make_shared<Answer>();
        commit(s.tok, [a](Status st, reason_code, durability_marker_type) {
            a->st.store(static_cast<int>(st));
            a->n.fetch_add(1);
        });
        if (!await(s, a)) { return; }
        auto st = static_cast<Status>(a->st.load());
        note(name(s) + " commit -> " + sstr(st));
        if (st == Status::WARN_PREMATURE) {
            wait_epochs(1);
            continue;
        }
        if (st != Status::OK && !is_err(st)) {
            fail("commit:" + sstr(st), "unexpected answer");
            return;
        }
        ended(s, st == Status::OK);
        check_state(s, s.tsh, st == Status::OK);
        return;
    }
    if (!bad_) { fail("commit:premature", "a long transaction never becomes able to commit"); }
}

/// the engine is going to be stopped with this
void Client::keep_open(Slot& s) {
    res.count(!s.began ? "kept_idle" : s.kind == TT::SHORT ? "kept_short_open" : s.kind == TT::LONG ? "kept_long_open" : "kept_read_only_open");
    if (!s.began) { return; }
    if (s.kind == TT::LONG && r_.chance(30)) {
        auto a = std::make_shared<Answer>();
        commit(s.tok, [a](Status st, reason_code, durability_marker_type) {
            a->st.store(static_cast<int>(st));
            a->n.fetch_add(1);
        });
        note(name(s) + " commit requested, engine stops");
        // answered or not: its writes may be there
        for (auto& k : s.wrote) {
            auto i = s.cur.find(k);
            s.may[k].insert(i == s.cur.end() ? std::string() : i->second);
        }
        return;
    }
    ended(s, false);
}

/// gives the session back, with whatever is open
void Client::end_session(Slot& s) {
    std::shared_ptr<Answer> a;
    bool asked = false;
    if (s.began && s.kind == TT::LONG && !keep_ && r_.chance(40)) {
        a = std::make_shared<Answer>();
        commit(s.tok, [a](Status st, reason_code, durability_marker_type) {
            a->st.store(static_cast<int>(st));
            a->n.fetch_add(1);
        });
        asked = true;
        note(name(s) + " commit requested");
        res.count("left_with_commit_requested");
    } else if (s.began) {
        res.count(s.kind == TT::SHORT ? "left_with_short_open" : s.kind == TT::LONG ? "left_with_long_open" : "left_with_read_only_open");
    } else {
        res.count("left_idle");
    }
    old_.push_back({s.tok, s.scans});
    auto t = s.tok;
    own_.give(t);
    auto rc = leave(t);
    note(name(s) + " leave -> " + sstr(rc));
    s.tok = nullptr;
    if (rc != Status::OK) { fail("leave:" + sstr(rc), "a held session cannot be given back"); }
    if (!s.began) { return; }
    bool ok = false;
    if (asked) {
        if (!await(s, a)) { return; }
        auto st = static_cast<Status>(a->st.load());
        note(name(s) + " answer " + sstr(st));
        ok = st == Status::OK;
        if (a->n.load() != 1) { fail("commit:answers", "more than one answer"); }
    }
    ended(s, ok);
    check_state(s, s.tsh, ok);
    // the preserved storages are free again
}

void Client::step() {
    auto& s = slots_[r_.below(3)];
    if (s.tok == nullptr) { return start_session(s); }
    if (!s.began) {
        if (r_.chance(25)) { return end_session(s); }
        return begin(s);
    }
    switch (r_.weighted({40, 25, 35})) {
        case 0: return op(s);
        case 1: return finish(s);
        default: return end_session(s);
    }
}

/// nothing of transactions that ended with their session is left
void Client::verify() {
    if (bad_) { return; }
    note("verify");
    Token t{};
    if (enter(t) != Status::OK) { return fail("verify:enter", "no session although all were given back"); }
    for (int tries = 0;; ++tries) {
        std::string key;
        std::string text;
        auto rc = tx_begin({t, TT::SHORT});
        if (rc != Status::OK) { return fail("verify:tx_begin:" + sstr(rc), "no transaction can be begun"); }
        bool again = false;
        for (auto& s : slots_) {
            for (int i = 0; i < 4 && !again; ++i) {
                auto k = s.prefix + std::to_string(i);
                std::string v;
                rc = search_key(t, st_, k, v);
                if (is_err(rc) || (rc != Status::OK && rc != Status::WARN_NOT_FOUND)) {
                    again = true;
                    text = "search_key -> " + sstr(rc);
                    break;
                }
                auto c = s.com.find(k);
                auto exp = c == s.com.end() ? std::string() : c->second;
                if (v != exp && s.may[k].count(v) == 0) {
                    key = "verify:value";
                    text = k + " is '" + v + "' instead of '" + exp + "'";
                }
            }
        }
        if (!again) {
            auto nv = value();
            rc = upsert(t, st_, "end", nv);
            if (rc == Status::OK) { rc = insert(t, st_, "end" + nv, nv); }
            if (rc != Status::OK) {
                again = true;
                text = "write -> " + sstr(rc);
            } else {
                rc = commit(t);
                again = rc != Status::OK;
                text += " commit -> " + sstr(rc);
            }
        } else {
            abort(t);
        }
        if (!again) {
            if (!key.empty()) { fail(key, text); }
            break;
        }
        abort(t);
        if (tries > 200) {
            fail("verify:blocked", "all sessions were given back but the storage stays unusable: " + text);
            break;
        }
        wait_epochs(1);
    }
    // time goes on: read-only transactions get to see what is committed now, long ones can commit
    auto nv = value();
    for (int tries = 0; !bad_; ++tries) {
        transaction_options o(t, TT::LONG, {st_});
        auto rc = tx_begin(o);
        if (rc != Status::OK) { return fail("verify:tx_begin:" + sstr(rc), "no long transaction can be begun"); }
        for (int i = 0; i < 300 && (rc = upsert(t, st_, "end", nv)) == Status::WARN_PREMATURE; ++i) { wait_epochs(1); }
        auto a = std::make_shared<Answer>();
        commit(t, [a](Status st, reason_code, durability_marker_type) {
            a->st.store(static_cast<int>(st));
            a->n.fetch_add(1);
        });
        Slot dummy;
        if (!await(dummy, a)) { return; }
        auto st = static_cast<Status>(a->st.load());
        if (rc == Status::OK && st == Status::OK) { break; }
        if (rc == Status::WARN_PREMATURE || tries > 3) { return fail("verify:long:" + sstr(rc) + ":" + sstr(st), "a long transaction cannot commit although nothing else runs"); }
    }
    for (int tries = 0; !bad_; ++tries) {
        auto rc = tx_begin({t, TT::READ_ONLY});
        if (rc != Status::OK) { return fail("verify:tx_begin:" + sstr(rc), "no read-only transaction can be begun"); }
        std::string v;
        for (int i = 0; i < 300 && (rc = search_key(t, st_, "end", v)) == Status::WARN_PREMATURE; ++i) { wait_epochs(1); }
        commit(t);
        if (rc == Status::OK && v == nv) { break; }
        if (tries > 100) { return fail("verify:snapshot", "read-only transactions never see what was committed, last " + sstr(rc) + " " + v); }
        wait_epochs(1);
    }
    leave(t);
    res.count("contents_verified");
}

/// all sessions that can be had now
std::vector<Token> fill(std::string const& rp, std::size_t& n) {
    std::vector<Token> v;
    std::set<Token> d;
    for (;;) {
        Token t{};
        auto rc = enter(t);
        if (rc != Status::OK) {
            if (rc != Status::ERR_SESSION_LIMIT) { res.violation("session", "enter:" + sstr(rc), "unexpected answer at the limit", rp); }
            break;
        }
        if (!d.insert(t).second) {
            res.violation("session", "enter:twice", "one session handed out twice", rp);
            break;
        }
        v.push_back(t);
        if (v.size() > 100000) { throw HarnessError("no session limit"); }
    }
    n = v.size();
    return v;
}

void give_back(std::vector<Token> const& v, Rng& r, std::string const& rp) {
    for (auto t : v) {
        if (auto rc = leave(t); rc != Status::OK) { res.violation("session", "leave:" + sstr(rc), "a held session cannot be given back", rp); }
        if (r.chance(5)) {
            if (auto rc = leave(t); rc != Status::WARN_NOT_IN_A_SESSION) { res.violation("session", "leave_again:" + sstr(rc), "second leave", rp); }
            res.count("second_leaves");
        }
    }
}

void drive() {
    auto cases = static_cast<int>(args.cases);
    auto only = args.num("only", -1);
    std::size_t cap = 0;
    for (int i = 0; i < cases; ++i) {
        if (only >= 0 && i != only) { continue; }
        Rng r(mix(args.seed, static_cast<std::uint64_t>(i) + 1));
        auto cfg = random_cfg(r);
        cfg.bypass = cfg.bypass_root = false;
        auto rp = "session --seed " + std::to_string(args.seed) + " --cases " + std::to_string(i + 1) + " --only " + std::to_string(i);
        set_case(rp + " " + cfg.str());
        auto loc = fresh_location();
        if (auto s = start_engine(cfg, loc); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s)); }
        auto threads = static_cast<std::size_t>(r.range(2, 6));
        std::vector<Storage> st(threads + 1);
        for (std::size_t j = 0; j < st.size(); ++j) {
            if (create_storage("s" + std::to_string(j), st[j]) != Status::OK) { throw HarnessError("create_storage"); }
        }
        std::size_t n = 0;
        auto all = fill(rp, n);
        if (cap == 0) { cap = n; }
        auto same = [&](char const* when) {
            if (n != cap) { res.violation("session", std::string("capacity:") + when, "capacity is " + std::to_string(n) + " instead of " + std::to_string(cap), rp); }
            res.count("capacity_measured");
        };
        same("start");
        if (cap < 40) { throw HarnessError("capacity too small"); }
        if (r.chance(35)) { // a transaction in every session at once
            int rounds = r.range(1, 3);
            int kinds = r.range(0, 3); // 3: mixed
            for (int k = 0; k < rounds; ++k) {
                for (auto t : all) {
                    int kd = kinds == 3 ? static_cast<int>(r.below(3)) : kinds;
                    transaction_options o{t, kd == 0   ? transaction_options::transaction_type::SHORT
                                             : kd == 1 ? transaction_options::transaction_type::LONG
                                                       : transaction_options::transaction_type::READ_ONLY};
                    if (kd == 1) { o = transaction_options{t, transaction_options::transaction_type::LONG, {st[0]}}; }
                    if (auto rc = tx_begin(o); rc != Status::OK) {
                        res.violation("session", "begin_in_all:" + sstr(rc), "tx_begin with a transaction in every session returned " + sstr(rc), rp);
                        continue;
                    }
                    fresh_tx_id(t);
                    no_abort_reason(t, "begun");
                    if (kd == 0) {
                        auto rc = upsert(t, st[1], "all", "x");
                        if (rc != Status::OK) { res.violation("session", "upsert_in_all:" + sstr(rc), "upsert with a transaction in every session returned " + sstr(rc), rp); }
                    }
                    res.count("sessions_all_busy");
                }
                for (auto t : all) {
                    if (auto rc = abort(t); rc != Status::OK) {
                        res.violation("session", "abort_in_all:" + sstr(rc), "abort with a transaction in every session returned " + sstr(rc), rp);
                    }
                }
            }
        }
        bool full = r.chance(50);
        bool restart = r.chance(30);
        Owners own;
        std::vector<Token> fillers;
        if (full) {
            auto keep = n - r.below(2 * threads + 1);
            fillers.assign(all.begin(), all.begin() + static_cast<long>(keep));
            all.erase(all.begin(), all.begin() + static_cast<long>(keep));
            for (auto t : fillers) { own.take(t); }
        }
        give_back(all, r, rp);
        std::vector<std::unique_ptr<Client>> cs;
        for (std::size_t t = 0; t < threads; ++t) {
            cs.push_back(std::make_unique<Client>(static_cast<int>(t), r.next(), own, st[t], st[threads], full, rp + " [" + cfg.str() + "]"));
        }
        auto steps = static_cast<int>(r.range(6, 30));
        {
            Noise noise(r);
            par(threads, [&](std::size_t t) { cs[t]->run(steps, restart); });
        }
        bool bad = false;
        for (auto& c : cs) {
            if (restart) { c->close_down(true); }
        }
        for (auto& c : cs) { bad |= c->bad(); }
        if (!restart || bad) {
            give_back(fillers, r, rp);
        } else {
            // nothing is given back before the engine is stopped
            stop_engine(false);
            auto rc = start_engine(cfg, loc, database_options::open_mode::RESTORE);
            if (rc != Status::OK) { engine_failed("init:" + sstr(rc), "init returned " + sstr(rc) + " " + rp); }
            for (std::size_t j = 0; j < threads; ++j) {
                Storage x{};
                if (get_storage("s" + std::to_string(j), x) != Status::OK) {
                    res.violation("session", "restart:storage", "a storage is gone after the restart", rp);
                    bad = true;
                }
                cs[j]->after_restart(x);
            }
            res.count("restarts_with_open_transactions");
        }
        for (auto& c : cs) { c->verify(); }
        all = fill(rp, n);
        if (!bad) { same("end"); }
        give_back(all, r, rp);
        std::uint64_t sig = full ? 1 : 2;
        for (auto& c : cs) { sig = mix(sig, c->sig_); }
        res.eval();
        res.distinct(sig);
        res.count(full ? "cases_at_capacity" : "cases_below_capacity");
        if (res.want_sample()) { res.sample(rp + " [" + cfg.str() + "]"); }
        stop_engine(true);
    }
}

Register reg("session", drive);

} // namespace
} // namespace vh
