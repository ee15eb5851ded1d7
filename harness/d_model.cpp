// One client working through the whole interface: storages, options, records and sequences against
// a reference model, over clean restarts and crashes at any epoch.
#include <algorithm>
#include <cstring>

#include "litmus.h"

namespace vh {
namespace {

struct St {
    Storage id{};
    Storage opt_id{};
    std::string payload;
    std::map<std::string, std::string> recs;
    bool operator==(St const& o) const { return id == o.id && opt_id == o.opt_id && payload == o.payload && recs == o.recs; }
};

struct Model {
    std::map<std::string, St> st;
    std::map<SequenceId, std::pair<SequenceVersion, SequenceValue>> seq;
    bool operator==(Model const& o) const { return st == o.st && seq == o.seq; }
};

std::string show(Model const& m) {
    std::string t;
    for (auto& s : m.st) {
        t += " '" + esc(s.first) + "' id " + std::to_string(s.second.id) + " option " + std::to_string(s.second.opt_id) + "/" +
             esc(s.second.payload) + " {";
        for (auto& r : s.second.recs) { t += esc(r.first) + "=" + esc(r.second) + " "; }
        t += "}\n";
    }
    t += " sequences";
    for (auto& s : m.seq) {
        t += " " + std::to_string(s.first) + ":" + std::to_string(s.second.first) + "=" + std::to_string(s.second.second);
    }
    return t + "\n";
}

/// class of the first difference
char const* differs(Model const& a, Model const& b) {
    if (a.st.size() != b.st.size()) { return "ddl"; }
    for (auto i = a.st.begin(), j = b.st.begin(); i != a.st.end(); ++i, ++j) {
        if (i->first != j->first || i->second.id != j->second.id || i->second.opt_id != j->second.opt_id || i->second.payload != j->second.payload) {
            return "ddl";
        }
    }
    if (a.seq != b.seq) { return "seq"; }
    if (!(a.st == b.st)) { return "rec"; }
    return nullptr;
}

struct Past {
    Model m;
    std::uint64_t call{}, ret{}; ///< epochs of the operation which led to m
    std::string what;
    bool operator<(std::uint64_t e) const { return ret < e; }
};

class World {
public:
    World(Rng& r, std::string rp, std::string focus) : r_(r), rp_(std::move(rp)), focus_(std::move(focus)) {}

    void enter_all() {
        if (auto s = enter(tok_); s != Status::OK) { engine_failed("enter:" + sstr(s), "enter returned " + sstr(s)); }
    }
    void leave_all() { leave(tok_); }

    void fail(std::string const& tag, std::string const& key, std::string const& text) {
        std::string h;
        for (auto i = log_.size() > 60 ? log_.size() - 60 : 0; i < log_.size(); ++i) { h += " " + log_[i] + "\n"; }
        res.violation(tag, key, text + "\nlast calls:\n" + h + "model:\n" + show(m_), rp_);
    }
    void expect(char const* tag, std::string const& what, Status got, Status want) {
        res.count("answers_checked");
        if (got != want) { fail(tag, what + ":" + sstr(got) + "/" + sstr(want), what + " returned " + sstr(got) + ", expected " + sstr(want)); }
    }

    void op();
    void note(std::string const& s) {
        log_.push_back(s);
        if (log_.size() > 400) { log_.erase(log_.begin(), log_.begin() + 200); }
    }
    /// what the engine shows now
    bool actual(Model& a, bool after_restart, bool snapshot);
    void check_now(bool restart);
    void check_crash(std::uint64_t d);
    void begin_generation() {
        past_.clear();
        past_.push_back({m_, 0, 0, "start"});
    }
    Model m_;
    std::vector<Past> past_;
    std::set<Storage> dead_;
    std::set<std::string> names_;
    std::set<SequenceId> seqs_; ///< all ever seen
    std::map<SequenceId, std::set<SequenceVersion>> used_;
    std::uint64_t sig_{0};
    Token tok_{};

private:
    std::string name();
    std::string key();
    std::string val();
    Storage any_storage(std::string& n);
    void tx();
    void ddl();
    void seq();
    Rng& r_;
    std::string rp_;
    std::string focus_;
    std::vector<std::string> log_;
    std::uint64_t vn_{0};
    std::uint64_t eff_{0};
};

std::string World::name() {
    if (r_.chance(3)) { return ""; }
    if (r_.chance(3)) { return std::string(static_cast<std::size_t>(r_.range(30 * 1024 - 1, 30 * 1024 + 1)), 'n'); }
    if (r_.chance(5)) { return std::string("b\0x", 3) + static_cast<char>(r_.below(3)); }
    return std::string("st") + static_cast<char>('a' + r_.below(5));
}

std::string World::key() {
    auto x = r_.below(40);
    if (x == 0) { return ""; }
    if (x == 1) { return std::string(static_cast<std::size_t>(r_.range(30 * 1024 - 1, 30 * 1024 + 1)), 'K'); }
    if (x == 2) { return std::string("k\0", 2); }
    if (x == 3) { return std::string(1, '\0'); }
    if (x == 4) { return "k\xff\xff"; }
    if (x == 5) { return std::string(static_cast<std::size_t>(r_.range(7, 17)), 'p'); }
    return std::string("k") + static_cast<char>('0' + r_.below(7));
}

std::string World::val() {
    auto s = "v" + std::to_string(++vn_);
    auto x = r_.below(60);
    if (x == 0) { return ""; }
    if (x == 1) { return s + std::string(static_cast<std::size_t>(r_.range(1000, 70000)), 'V'); }
    if (x == 2) { return s + std::string("\0\n\xff", 3); }
    return s;
}

Storage World::any_storage(std::string& n) {
    if (m_.st.empty() || r_.chance(4)) {
        n.clear();
        if (!dead_.empty() && r_.chance(70)) { return r_.pick(std::vector<Storage>(dead_.begin(), dead_.end())); }
        return 0xabcd0000ULL + r_.below(3);
    }
    auto i = m_.st.begin();
    std::advance(i, r_.below(m_.st.size()));
    n = i->first;
    return i->second.id;
}

void World::ddl() {
    auto what = r_.weighted({30, 22, 12, 6, 12, 18});
    auto n = name();
    switch (what) {
        case 0: {
            storage_option o;
            Storage want = storage_id_undefined;
            auto x = r_.below(10);
            if (x < 4) {
                want = 7 + r_.below(4);
                o.id(want);
            } else if (x == 4) {
                want = (1ULL << 32U) + r_.below(3);
                o.id(want);
            }
            if (r_.chance(50)) {
                o.payload(r_.chance(85) ? "p" + std::to_string(++vn_) + std::string(r_.below(3), '\0')
                                        : std::string(static_cast<std::size_t>(r_.range(1, 40000)), 'P'));
            }
            Storage got{};
            note("create_storage '" + esc(n) + "' id " + std::to_string(want) + " payload " + esc(o.payload()));
            auto s = create_storage(n, got, o);
            note("  -> " + sstr(s) + " " + std::to_string(got));
            bool id_used = false;
            for (auto& e : m_.st) { id_used = id_used || e.second.id == want; }
            Status w = Status::OK;
            if (n.size() > 30 * 1024) {
                w = Status::WARN_INVALID_KEY_LENGTH;
            } else if (m_.st.count(n) != 0) {
                w = Status::WARN_ALREADY_EXISTS;
            } else if (want != storage_id_undefined && (want >> 32U) > 0) {
                w = Status::WARN_STORAGE_ID_DEPLETION;
            } else if (id_used) {
                w = Status::WARN_ALREADY_EXISTS;
            }
            expect("ddl", "create_storage", s, w);
            if (s != Status::OK) { return; }
            if (want != storage_id_undefined && got != want) { fail("ddl", "create_storage:id", "another id than asked for"); }
            for (auto& e : m_.st) {
                if (e.second.id == got) { fail("ddl", "create_storage:id_twice", "id of a living storage handed out again"); }
            }
            names_.insert(n);
            dead_.erase(got);
            St x2;
            x2.id = got;
            x2.opt_id = o.id();
            x2.payload = std::string(o.payload());
            m_.st[n] = x2;
            ++eff_;
            // nothing of an earlier storage may show
            Model a;
            if (actual(a, false, false) && !a.st[n].recs.empty()) {
                fail("ddl", "create_storage:old_data", "a new storage holds records:\n" + show(a));
            }
            return;
        }
        case 1: {
            std::string sn;
            auto id = any_storage(sn);
            note("delete_storage " + std::to_string(id));
            auto s = delete_storage(id);
            note("  -> " + sstr(s));
            expect("ddl", "delete_storage", s, sn.empty() && m_.st.count("") == 0 ? Status::WARN_INVALID_HANDLE : [&] {
                for (auto& e : m_.st) {
                    if (e.second.id == id) { return Status::OK; }
                }
                return Status::WARN_INVALID_HANDLE;
            }());
            if (s != Status::OK) { return; }
            for (auto i = m_.st.begin(); i != m_.st.end(); ++i) {
                if (i->second.id == id) {
                    m_.st.erase(i);
                    break;
                }
            }
            dead_.insert(id);
            ++eff_;
            return;
        }
        case 2: {
            Storage id{};
            auto s = get_storage(n, id);
            auto i = m_.st.find(n);
            expect("ddl", "get_storage", s,
                   n.size() > 30 * 1024 ? Status::WARN_INVALID_KEY_LENGTH
                                        : (i == m_.st.end() ? Status::WARN_NOT_FOUND : Status::OK));
            if (s == Status::OK && i != m_.st.end() && id != i->second.id) { fail("ddl", "get_storage:id", "wrong id for " + esc(n)); }
            return;
        }
        case 3: {
            std::vector<std::string> l;
            auto s = list_storage(l);
            expect("ddl", "list_storage", s, Status::OK);
            std::sort(l.begin(), l.end());
            std::vector<std::string> w;
            for (auto& e : m_.st) { w.push_back(e.first); }
            if (l != w) { fail("ddl", "list_storage:names", "listing differs from the model"); }
            return;
        }
        case 4: {
            std::string sn;
            auto id = any_storage(sn);
            storage_option o;
            auto s = storage_get_options(id, o);
            St const* x = nullptr;
            for (auto& e : m_.st) {
                if (e.second.id == id) { x = &e.second; }
            }
            expect("ddl", "storage_get_options", s, x == nullptr ? Status::WARN_NOT_FOUND : Status::OK);
            if (s == Status::OK && x != nullptr && (o.id() != x->opt_id || o.payload() != x->payload)) {
                fail("ddl", "storage_get_options:value", "options differ: " + std::to_string(o.id()) + " " + esc(o.payload()));
            }
            return;
        }
        default: {
            std::string sn;
            auto id = any_storage(sn);
            storage_option o;
            if (r_.chance(50)) { o.id(r_.below(20)); }
            o.payload(r_.chance(85) ? "o" + std::to_string(++vn_) : "");
            note("storage_set_options " + std::to_string(id) + " " + std::to_string(o.id()) + " " + esc(o.payload()));
            auto s = storage_set_options(id, o);
            note("  -> " + sstr(s));
            for (auto& e : m_.st) {
                if (e.second.id == id) {
                    expect("ddl", "storage_set_options", s, Status::OK);
                    e.second.opt_id = o.id();
                    e.second.payload = std::string(o.payload());
                    ++eff_;
                    return;
                }
            }
            expect("ddl", "storage_set_options", s, Status::WARN_NOT_FOUND);
        }
    }
}

void World::seq() {
    auto what = r_.weighted({25, 10, 40});
    if (what == 0) {
        if (m_.seq.size() >= 6) { return; }
        SequenceId id{};
        note("create_sequence");
        auto s = create_sequence(&id);
        note("  -> " + sstr(s) + " " + std::to_string(id));
        expect("seq", "create_sequence", s, Status::OK);
        if (s != Status::OK) { return; }
        if (m_.seq.count(id) != 0) { fail("seq", "create_sequence:id_twice", "id of a living sequence handed out again"); }
        m_.seq[id] = {0, 0};
        seqs_.insert(id);
        used_[id].clear();
        ++eff_;
        return;
    }
    SequenceId id = 9000;
    if (!seqs_.empty() && !r_.chance(5)) { id = r_.pick(std::vector<SequenceId>(seqs_.begin(), seqs_.end())); }
    auto i = m_.seq.find(id);
    if (what == 1) {
        note("delete_sequence " + std::to_string(id));
        auto s = delete_sequence(id);
        note("  -> " + sstr(s));
        expect("seq", "delete_sequence", s, i == m_.seq.end() ? Status::WARN_NOT_FOUND : Status::OK);
        if (i != m_.seq.end()) {
            m_.seq.erase(i);
            ++eff_;
        }
        return;
    }
    SequenceVersion v{};
    SequenceValue x{};
    auto s = read_sequence(id, &v, &x);
    note("read_sequence " + std::to_string(id) + " -> " + sstr(s) + " " + std::to_string(v) + "=" + std::to_string(x));
    expect("seq", "read_sequence", s, i == m_.seq.end() ? Status::WARN_NOT_FOUND : Status::OK);
    if (s == Status::OK && i != m_.seq.end() && std::make_pair(v, x) != i->second) {
        fail("seq", "read_sequence:value", "read " + std::to_string(v) + "=" + std::to_string(x));
    }
}

void World::tx() {
    enum Own { NONE, INS, UPD, UPS, DEL };
    auto k = r_.weighted({55, 30, 15});
    bool ltx = k == 1;
    bool rtx = k == 2;
    transaction_options::write_preserve_type wp;
    bool bad_wp = false;
    if (ltx) {
        for (auto& e : m_.st) {
            if (r_.chance(80)) { wp.push_back(e.second.id); }
        }
        if (r_.chance(4)) {
            wp.push_back(0xabcd0009ULL);
            bad_wp = true;
        }
    }
    if (rtx) { wait_epochs(3); }
    note(std::string("tx_begin ") + (ltx ? "LONG" : rtx ? "READ_ONLY" : "SHORT"));
    auto s = tx_begin({tok_,
                       ltx   ? transaction_options::transaction_type::LONG
                       : rtx ? transaction_options::transaction_type::READ_ONLY
                             : transaction_options::transaction_type::SHORT,
                       wp});
    note("  -> " + sstr(s));
    expect("status", "tx_begin", s, bad_wp ? Status::WARN_INVALID_ARGS : Status::OK);
    if (s != Status::OK) { return; }
    auto retry = [&](auto&& f) {
        Status x{};
        for (int i = 0; i < 200000; ++i) {
            x = f();
            if (x != Status::WARN_PREMATURE) { break; }
            sleep_us(50);
        }
        return x;
    };
    Model t = m_;
    std::map<std::pair<std::string, std::string>, Own> own;
    std::map<SequenceId, SequenceVersion> sq;
    auto n = r_.range(1, 7);
    bool ended = false;
    bool wrote = false;
    for (int i = 0; i < n && !ended; ++i) {
        if (!rtx && !seqs_.empty() && r_.chance(focus_ == "seq" ? 55 : 15)) {
            auto id = r_.pick(std::vector<SequenceId>(seqs_.begin(), seqs_.end()));
            auto& u = used_[id];
            SequenceVersion v{};
            auto cur = m_.seq.count(id) != 0 ? m_.seq[id].first : 0;
            for (;;) {
                v = r_.chance(80) ? cur + static_cast<SequenceVersion>(r_.range(1, 5)) : 1 + r_.below(cur + 5);
                if (r_.chance(1)) { v = (1ULL << 63U) + r_.below(1000); }
                if (u.count(v) == 0) { break; }
                cur = std::max<SequenceVersion>(cur, *u.rbegin());
            }
            auto x = static_cast<SequenceValue>(++vn_) * (r_.chance(50) ? 1 : -1);
            note(" update_sequence " + std::to_string(id) + " " + std::to_string(v) + "=" + std::to_string(x));
            s = update_sequence(tok_, id, v, x);
            note("  -> " + sstr(s));
            bool stale = sq.count(id) != 0 && sq[id] >= v;
            expect("seq", "update_sequence", s, stale ? Status::WARN_ALREADY_EXISTS : Status::OK);
            if (s == Status::OK) {
                u.insert(v);
                sq[id] = v;
                wrote = true;
                auto q = m_.seq.find(id);
                if (q != m_.seq.end() && q->second.first < v) { t.seq[id] = {v, x}; }
            }
            continue;
        }
        std::string sn;
        auto id = any_storage(sn);
        St* st = nullptr;
        for (auto& e : t.st) {
            if (e.second.id == id) { st = &e.second; }
        }
        auto key = this->key();
        auto long_key = key.size() > 30 * 1024;
        auto v = val();
        auto& o = own[{sn, key}];
        auto op = r_.weighted({22, 8, 18, 16, 20, 14, rtx || r_.chance(60) ? 12U : 0U});
        if (op == 5 && o == UPS) { op = 0; }
        static const char* on[] = {"search", "exist", "insert", "update", "upsert", "delete", "scan"};
        note(std::string(" ") + on[op] + " " + std::to_string(id) + " " + esc(key) + (op >= 2 && op <= 4 ? "=" + esc(v) : ""));
        bool present = st != nullptr && st->recs.count(key) != 0;
        bool declared = !ltx || std::find(wp.begin(), wp.end(), id) != wp.end();
        std::string got;
        Status w{};
        bool read = op < 2;
        switch (op) {
            case 0: s = retry([&] { return search_key(tok_, id, key, got); }); break;
            case 1: s = retry([&] { return exist_key(tok_, id, key); }); break;
            case 2: s = retry([&] { return insert(tok_, id, key, v); }); break;
            case 3: s = retry([&] { return update(tok_, id, key, v); }); break;
            case 4: s = retry([&] { return upsert(tok_, id, key, v); }); break;
            case 5: s = retry([&] { return delete_record(tok_, id, key); }); break;
            default: {
                ScanHandle h{};
                s = retry([&] { return open_scan(tok_, id, "", scan_endpoint::INF, "", scan_endpoint::INF, h); });
                std::map<std::string, std::string> all;
                auto s0 = s;
                while (s == Status::OK) {
                    std::string rk;
                    std::string rv;
                    auto a = read_key_from_scan(tok_, h, rk);
                    auto b = read_value_from_scan(tok_, h, rv);
                    if (a == Status::OK && b == Status::OK) {
                        all[rk] = rv;
                    } else if (is_err(a) || is_err(b)) {
                        s = is_err(a) ? a : b;
                        break;
                    }
                    s = next(tok_, h);
                }
                if (s0 == Status::OK && !is_err(s)) { close_scan(tok_, h); }
                note("  -> " + sstr(s0) + " " + std::to_string(all.size()));
                if (is_err(s)) {
                    ended = true;
                    break;
                }
                if (st == nullptr) {
                    expect("status", "open_scan:unknown_storage", s0, Status::WARN_STORAGE_NOT_FOUND);
                } else if (all != st->recs) {
                    fail("rec", "scan", "scan of '" + esc(sn) + "' returned " + std::to_string(all.size()) + " records, the model has " +
                                                std::to_string(st->recs.size()));
                }
                res.count("answers_checked");
                continue;
            }
        }
        note("  -> " + sstr(s) + " " + esc(got));
        if (is_err(s) || ended) {
            ended = true;
            break;
        }
        if (long_key) {
            // refused where given
            if (s == Status::OK) { fail("status", std::string(on[op]) + ":long_key", "a key above the limit was accepted"); }
            continue;
        }
        if (!read && rtx) {
            expect("status", std::string(on[op]) + ":read_only", s, Status::WARN_ILLEGAL_OPERATION);
            continue;
        }
        if (st == nullptr) {
            if (!read && ltx) {
                if (s != Status::WARN_STORAGE_NOT_FOUND && s != Status::WARN_WRITE_WITHOUT_WP) {
                    expect("status", std::string(on[op]) + ":unknown_storage", s, Status::WARN_STORAGE_NOT_FOUND);
                }
            } else {
                expect("status", std::string(on[op]) + ":unknown_storage", s, Status::WARN_STORAGE_NOT_FOUND);
            }
            continue;
        }
        if (!read && !declared) {
            expect("status", std::string(on[op]) + ":undeclared", s, Status::WARN_WRITE_WITHOUT_WP);
            continue;
        }
        switch (op) {
            case 0:
            case 1: w = present ? Status::OK : Status::WARN_NOT_FOUND; break;
            case 2: w = present ? Status::WARN_ALREADY_EXISTS : Status::OK; break;
            case 3: w = present ? Status::OK : Status::WARN_NOT_FOUND; break;
            case 4: w = Status::OK; break;
            default: w = o == INS ? Status::WARN_CANCEL_PREVIOUS_INSERT : (present ? Status::OK : Status::WARN_NOT_FOUND); break;
        }
        expect("rec", on[op], s, w);
        if (op == 0 && s == Status::OK && present && got != st->recs[key]) {
            fail("rec", "search:value", "search returned " + esc(got) + " instead of " + esc(st->recs[key]));
        }
        if (s != w) { continue; }
        if (s == Status::OK && op >= 2 && op <= 4) {
            st->recs[key] = v;
            wrote = true;
            if (op == 2) {
                o = o == DEL ? UPS : INS;
            } else if (op == 4) {
                o = o == INS ? INS : UPS;
            } else if (op == 3 && o == NONE) {
                o = UPD;
            }
        } else if (op == 5 && (s == Status::OK || s == Status::WARN_CANCEL_PREVIOUS_INSERT)) {
            st->recs.erase(key);
            wrote = true;
            o = s == Status::OK ? DEL : NONE;
        }
    }
    if (ended) {
        res.count("spurious_aborts");
        return;
    }
    if (r_.chance(15)) {
        note(" abort");
        s = abort(tok_);
        expect("status", "abort", s, Status::OK);
        res.count("user_aborts");
        return;
    }
    std::atomic<int> cb{0};
    Status cs{};
    for (int i = 0; i < 200000; ++i) {
        cb.store(0);
        commit(tok_, [&](Status x, reason_code, durability_marker_type) {
            cs = x;
            cb.fetch_add(1);
        });
        while (cb.load() == 0) { sleep_us(30); }
        if (cs != Status::WARN_PREMATURE) { break; }
        sleep_us(50);
    }
    note(" commit -> " + sstr(cs));
    if (cs != Status::OK) {
        res.count("spurious_aborts");
        return;
    }
    if (wrote) { ++eff_; }
    m_ = t;
    res.count("committed");
}

void World::op() {
    auto e = now_epoch();
    auto before = eff_;
    auto w = focus_ == "ddl" ? std::vector<unsigned>{40, 45, 5} : focus_ == "seq" ? std::vector<unsigned>{45, 5, 50} : std::vector<unsigned>{55, 25, 15};
    auto what = r_.weighted(w);
    if (what == 0) {
        tx();
    } else if (what == 1) {
        ddl();
    } else {
        seq();
    }
    if (eff_ != before) {
        past_.push_back({m_, e, now_epoch(), log_.empty() ? "" : log_.back()});
        sig_ = mix(sig_, hash_str(show(m_)));
    }
    if (r_.chance(12)) { wait_epochs(1); }
}

bool World::actual(Model& a, bool after_restart, bool snapshot) {
    char const* tag = after_restart ? "restart_ddl" : "ddl";
    std::vector<std::string> l;
    list_storage(l);
    std::map<std::string, int> n;
    for (auto& x : l) {
        if (++n[x] > 1) { fail(tag, "listed_twice", "name listed twice: " + esc(x)); }
        auto& s = a.st[x];
        auto rc = get_storage(x, s.id);
        if (rc != Status::OK) { fail(tag, "listed_not_found", "listed storage is not found: " + esc(x) + " " + sstr(rc)); }
        storage_option o;
        rc = storage_get_options(s.id, o);
        if (rc != Status::OK) { fail(tag, "no_options", "storage without options: " + esc(x) + " " + sstr(rc)); }
        s.opt_id = o.id();
        s.payload = std::string(o.payload());
    }
    for (auto& x : names_) {
        Storage id{};
        if (n.count(x) == 0 && get_storage(x, id) == Status::OK) { fail(tag, "found_not_listed", "storage found but not listed: " + esc(x)); }
    }
    for (auto id : seqs_) {
        SequenceVersion v{};
        SequenceValue x{};
        if (read_sequence(id, &v, &x) == Status::OK) { a.seq[id] = {v, x}; }
    }
    for (int k = 0; k < 300; ++k) {
        auto s = tx_begin({tok_, snapshot ? transaction_options::transaction_type::READ_ONLY : transaction_options::transaction_type::SHORT});
        if (s != Status::OK) { engine_failed("tx_begin:" + sstr(s), "tx_begin returned " + sstr(s)); }
        for (auto& e : a.st) {
            e.second.recs.clear();
            ScanHandle h{};
            for (;;) {
                s = open_scan(tok_, e.second.id, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
                if (s != Status::WARN_PREMATURE) { break; }
                sleep_us(50);
            }
            if (s == Status::WARN_NOT_FOUND) {
                s = Status::OK;
                continue;
            }
            while (s == Status::OK) {
                std::string rk;
                std::string rv;
                auto x = read_key_from_scan(tok_, h, rk);
                auto y = read_value_from_scan(tok_, h, rv);
                if (is_err(x) || is_err(y)) {
                    s = is_err(x) ? x : y;
                    break;
                }
                if (x == Status::OK && y == Status::OK) { e.second.recs[rk] = rv; }
                s = next(tok_, h);
            }
            if (is_err(s)) { break; }
            close_scan(tok_, h);
            s = Status::OK;
        }
        if (is_err(s)) { continue; }
        for (auto id : dead_) {
            bool alive = false;
            for (auto& e : a.st) { alive = alive || e.second.id == id; }
            if (alive) { continue; }
            std::string v;
            Status q{};
            for (;;) {
                q = search_key(tok_, id, "k0", v);
                if (q != Status::WARN_PREMATURE) { break; }
                sleep_us(50);
            }
            if (q != Status::WARN_STORAGE_NOT_FOUND) {
                fail(tag, std::string("dead_id_found") + (after_restart ? "_restart" : ""),
                     "the id " + std::to_string(id) + " of no living storage gives " + sstr(q) + " (not unknown)");
                dead_.erase(id);
                break;
            }
        }
        if (commit(tok_) == Status::OK) { return true; }
        wait_epochs(1);
    }
    return false;
}

void World::check_now(bool restart) {
    Model a;
    bool snap = r_.chance(30);
    if (snap) { wait_epochs(3); }
    if (!actual(a, restart, snap)) { engine_failed("read", "the database cannot be read by a lone transaction " + rp_); }
    res.eval();
    res.distinct(sig_);
    res.count(restart ? "clean_restarts" : "comparisons");
    if (auto const* d = differs(a, m_); d != nullptr) {
        fail(restart ? std::string("restart_") + d : d, std::string(restart ? "restart:" : "contents:") + d, "the engine shows\n" + show(a));
        m_ = a; // go on from here
    }
}

void World::check_crash(std::uint64_t d) {
    Model a;
    if (!actual(a, true, false)) { engine_failed("read", "the recovered database cannot be read by a lone transaction " + rp_); }
    res.eval();
    res.count("crashes");
    res.distinct(mix(sig_, d));
    std::string cand;
    char const* first = nullptr;
    std::size_t n = 0;
    bool found = false;
    for (std::size_t i = 0; i < past_.size(); ++i) {
        // everything that returned before the durable epoch ended must be there, nothing begun after it
        bool later_must = i + 1 < past_.size() && past_[i + 1].ret <= d;
        if (later_must || past_[i].call > d) { continue; }
        ++n;
        auto const* x = differs(a, past_[i].m);
        if (x == nullptr) {
            found = true;
            if (i + 1 < past_.size()) { res.count("crashes_losing_work"); }
        } else {
            first = x;
            cand += "candidate (after " + past_[i].what + ", epochs " + std::to_string(past_[i].call) + ".." + std::to_string(past_[i].ret) + ")\n" +
                    show(past_[i].m);
        }
    }
    res.maxi("crash_candidates", n);
    if (n == 0) { throw HarnessError("no candidate state"); }
    if (!found) {
        fail(std::string("crash_") + first, std::string("crash:") + first,
             "crash at durable epoch " + std::to_string(d) + ": the engine shows\n" + show(a) + cand);
    }
    m_ = a;
    for (auto& p : past_) { // ids which exist no more
        for (auto& e : p.m.st) { dead_.insert(e.second.id); }
    }
    for (auto& e : m_.st) { dead_.erase(e.second.id); }
    if (res.want_sample() && past_.size() > 6) { res.sample("crash at " + std::to_string(d) + " leaves\n" + show(a)); }
}

} // namespace

static void model_driver() {
    auto focus = args.get("focus", "mix");
    auto per = static_cast<std::uint64_t>(args.num("per", 8)); // generations per block
    std::uint64_t only = static_cast<std::uint64_t>(args.num("only", -1));
    std::uint64_t no = 0;
    for (std::uint64_t blk = 0; no < args.cases; ++blk) {
        if (only != ~0ULL && blk != only) {
            no += per;
            continue;
        }
        Rng r(mix(args.seed, blk));
        auto cfg = random_cfg(r);
        if (r.chance(30)) { cfg.epoch_us = 3000; }
        std::string rp = "model --focus " + focus + " --seed " + std::to_string(args.seed) + " --per " + std::to_string(per) + " --only " +
                         std::to_string(blk) + " --cases " + std::to_string((blk + 1) * per);
        set_case(rp + " # " + cfg.str());
        World w(r, rp + " # " + cfg.str(), focus);
        auto loc = fresh_location();
        auto up = [&](database_options::open_mode m) {
            cfg.restore_threads = r.chance(50) ? 0 : static_cast<std::size_t>(r.range(1, 4));
            cfg.iscan = r.chance(50);
            if (auto s = start_engine(cfg, loc, m); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s) + " " + rp); }
            w.enter_all();
        };
        up(database_options::open_mode::CREATE);
        w.begin_generation();
        for (std::uint64_t g = 0; g < per && no < args.cases; ++g, ++no) {
            auto n = r.range(5, 40);
            for (int i = 0; i < n; ++i) {
                w.op();
                progress();
            }
            w.check_now(false);
            auto how = r.weighted({45, 45, 10});
            if (how == 1) { // crash
                auto e = now_epoch();
                auto lim = e + 5000;
                while (standin::disk_durable(loc) < e) {
                    sleep_us(50);
                    if (now_epoch() > lim) { engine_failed("durable", "epochs pass but the log does not get durable " + rp); }
                }
                auto& p = w.past_[r.below(w.past_.size())];
                auto d = std::max<std::uint64_t>(p.call, 1) - 1 + r.below(p.ret - p.call + 2);
                if (r.chance(10)) { d = e; }
                if (p.call == 0) { d = w.past_.size() > 1 ? w.past_[1].call - (r.chance(50) ? 1 : 0) : e; }
                if (d > e) { d = e; }
                auto to = fresh_location();
                standin::disk_clone(loc, to, d);
                w.leave_all();
                stop_engine(r.chance(50));
                standin::disk_erase(loc);
                loc = to;
                w.note("crash at " + std::to_string(d));
                up(database_options::open_mode::RESTORE);
                w.check_crash(d);
            } else if (how == 0) {
                w.leave_all();
                stop_engine(false);
                w.note("clean restart");
                up(database_options::open_mode::RESTORE);
                w.check_now(true);
            } else {
                w.leave_all();
                stop_engine(r.chance(50));
                if (r.chance(50)) {
                    standin::disk_erase(loc);
                    loc = fresh_location();
                }
                w.note("fresh start");
                w.m_ = {};
                up(database_options::open_mode::CREATE);
                w.check_now(true);
                if (loc.empty()) { continue; }
                // what a fresh start leaves of an older log is not looked at again
                w.leave_all();
                stop_engine(true);
                standin::disk_erase(loc);
                loc = fresh_location();
                w.dead_.clear();
                w.seqs_.clear();
                up(database_options::open_mode::CREATE);
            }
            w.begin_generation();
            set_case(rp + " # generation " + std::to_string(g) + " " + cfg.str());
        }
        w.leave_all();
        stop_engine();
        standin::disk_erase(loc);
    }
}

static Register reg("model", model_driver);

} // namespace vh
