// Storages created, deleted, looked up and changed by several clients at the same time.
#include "par.h"

#include <algorithm>

namespace vh {

namespace {

enum class DT { CREATE, DELETE, GET, LIST, GETOPT, SETOPT };

struct StInfo {
    Storage id{};
    Storage opt{};
    std::string payload;
    bool operator==(StInfo const& o) const { return id == o.id && opt == o.opt && payload == o.payload; }
    bool operator<(StInfo const& o) const { return std::tie(id, opt, payload) < std::tie(o.id, o.opt, o.payload); }
};
using DState = std::map<std::string, StInfo>;

struct DOp {
    DT t{};
    std::size_t by{};
    std::string name;
    Storage id{storage_id_undefined}; ///< asked for / worked on
    Storage opt{};
    std::string payload;
    Status s{};
    Storage got{};
    std::vector<std::string> names;
    std::uint64_t c{}, r{};
    std::string str() const {
        static const char* const n[] = {"create", "delete", "get", "list", "get_options", "set_options"};
        std::string o = "[" + std::to_string(c) + "," + std::to_string(r) + "] client " + std::to_string(by) + " " +
                        n[static_cast<int>(t)];
        if (!name.empty()) { o += " '" + name + "'"; }
        if (t != DT::GET && t != DT::LIST) { o += " id " + (id == storage_id_undefined ? "-" : std::to_string(id)); }
        o += " -> " + sstr(s);
        if (s == Status::OK && (t == DT::CREATE || t == DT::GET)) { o += " " + std::to_string(got); }
        if (s == Status::OK && (t == DT::GETOPT || t == DT::SETOPT)) { o += " payload '" + payload + "' id " + std::to_string(opt); }
        for (auto& x : names) { o += " '" + x + "'"; }
        return o;
    }
};

/// may the answer be given in this state? changes the state
bool apply(DOp const& o, DState& st, std::set<Storage> const& used) {
    auto by_id = [&](Storage id) {
        for (auto i = st.begin(); i != st.end(); ++i) {
            if (i->second.id == id) { return i; }
        }
        return st.end();
    };
    switch (o.t) {
        case DT::CREATE: {
            bool taken = st.count(o.name) != 0 || (o.id != storage_id_undefined && by_id(o.id) != st.end());
            if (taken) { return o.s == Status::WARN_ALREADY_EXISTS; }
            if (o.s != Status::OK) { return false; }
            if (o.id != storage_id_undefined ? o.got != o.id : (by_id(o.got) != st.end() || used.count(o.got) != 0)) { return false; }
            st[o.name] = {o.got, o.id, o.payload};
            return true;
        }
        case DT::DELETE: {
            auto i = by_id(o.id);
            if (i == st.end()) { return o.s == Status::WARN_INVALID_HANDLE; }
            if (o.s != Status::OK) { return false; }
            st.erase(i);
            return true;
        }
        case DT::GET: {
            auto i = st.find(o.name);
            return i == st.end() ? o.s == Status::WARN_NOT_FOUND : o.s == Status::OK && o.got == i->second.id;
        }
        case DT::LIST: {
            if (o.s != Status::OK) { return false; }
            std::set<std::string> a(o.names.begin(), o.names.end());
            if (a.size() != o.names.size() || a.size() != st.size()) { return false; }
            return std::all_of(st.begin(), st.end(), [&](auto const& e) { return a.count(e.first) != 0; });
        }
        case DT::GETOPT: {
            if (o.s == Status::WARN_ILLEGAL_OPERATION) { return true; }
            auto i = by_id(o.id);
            if (i == st.end()) { return o.s == Status::WARN_NOT_FOUND; }
            return o.s == Status::OK && o.payload == i->second.payload && o.opt == i->second.opt;
        }
        case DT::SETOPT: {
            auto i = by_id(o.id);
            if (i == st.end()) { return o.s == Status::WARN_NOT_FOUND; }
            if (o.s != Status::OK) { return false; }
            i->second.opt = o.opt;
            i->second.payload = o.payload;
            return true;
        }
    }
    return false;
}

class DWorld {
public:
    DWorld(Rng& r, std::string rp) : r_(r), rp_(std::move(rp)) {}
    void up() {
        toks_.assign(4, nullptr);
        for (auto& t : toks_) {
            if (enter(t) != Status::OK) { engine_failed("enter", "no session after a start"); }
        }
    }
    void down(bool force) {
        for (auto t : toks_) { leave(t); }
        stop_engine(force);
    }
    void phase();
    /// everything as a lone client sees it must be what it was
    void same(std::string const& tag, std::string const& what);

private:
    struct Own {
        bool alive{false};
        std::string name;
        Storage id{};
        std::map<std::string, std::string> recs;
    };
    void fail(std::string const& tag, std::string const& key, std::string const& text) { res.violation(tag, key, text, rp_); }
    void run(DOp& o);
    bool linear(std::vector<DOp> const& ops, DState& end);
    std::vector<DOp> probe();
    void own_step(std::size_t i, Rng& r, std::vector<DOp>& out);
    Status read_all(Token t, Storage st, std::map<std::string, std::string>& out);

    Rng& r_;
    std::string rp_;
    std::vector<Token> toks_;
    DState st_;
    std::set<Storage> used_; ///< generated ids handed out so far
    Own own_[4];
    std::atomic<std::uint64_t> vn_{0};
};

void DWorld::run(DOp& o) {
    progress();
    o.c = tick();
    switch (o.t) {
        case DT::CREATE: {
            storage_option so;
            so.id(o.id);
            so.payload(o.payload);
            o.s = create_storage(o.name, o.got, so);
            break;
        }
        case DT::DELETE: o.s = delete_storage(o.id); break;
        case DT::GET: o.s = get_storage(o.name, o.got); break;
        case DT::LIST: o.s = list_storage(o.names); break;
        case DT::GETOPT: {
            storage_option so;
            o.s = storage_get_options(o.id, so);
            o.payload = std::string(so.payload());
            o.opt = so.id();
            break;
        }
        case DT::SETOPT: {
            storage_option so;
            so.id(o.opt);
            so.payload(o.payload);
            o.s = storage_set_options(o.id, so);
            break;
        }
    }
    o.r = tick();
}

/// is there an order of the calls, respecting which ended before others began, that explains them?
bool DWorld::linear(std::vector<DOp> const& ops, DState& end) {
    auto n = ops.size();
    std::set<std::pair<std::uint64_t, DState>> seen;
    std::uint64_t full = n == 64 ? ~0ULL : (1ULL << n) - 1;
    std::uint64_t tries = 0;
    std::function<bool(std::uint64_t, DState const&)> go = [&](std::uint64_t done, DState const& st) {
        if (done == full) {
            end = st;
            return true;
        }
        if (!seen.emplace(done, st).second) { return false; }
        if (++tries > 2000000) { throw HarnessError("search too large"); }
        std::uint64_t first = ~0ULL;
        for (std::size_t i = 0; i < n; ++i) {
            if ((done >> i & 1U) == 0) { first = std::min(first, ops[i].r); }
        }
        for (std::size_t i = 0; i < n; ++i) {
            if ((done >> i & 1U) != 0 || ops[i].c > first) { continue; }
            DState s2 = st;
            if (apply(ops[i], s2, used_) && go(done | 1ULL << i, s2)) { return true; }
        }
        return false;
    };
    return go(0, st_);
}

std::vector<DOp> DWorld::probe() {
    std::vector<DOp> v;
    DOp l;
    l.t = DT::LIST;
    l.by = 9;
    run(l);
    v.push_back(l);
    for (auto& n : l.names) {
        DOp g;
        g.t = DT::GET;
        g.by = 9;
        g.name = n;
        run(g);
        v.push_back(g);
        if (g.s != Status::OK) { continue; }
        DOp o;
        o.t = DT::GETOPT;
        o.by = 9;
        o.id = g.got;
        run(o);
        v.push_back(o);
    }
    return v;
}

Status DWorld::read_all(Token t, Storage st, std::map<std::string, std::string>& out) {
    out.clear();
    ScanHandle h{};
    auto s = open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
    if (s == Status::WARN_NOT_FOUND) { return Status::OK; }
    while (s == Status::OK) {
        std::string k;
        std::string v;
        s = read_key_from_scan(t, h, k);
        if (s == Status::OK) { s = read_value_from_scan(t, h, v); }
        if (s == Status::OK) {
            out[k] = v;
        } else if (s != Status::WARN_NOT_FOUND) {
            return s;
        }
        s = next(t, h);
    }
    return s == Status::WARN_SCAN_LIMIT ? Status::OK : s;
}

/// a client's own storage: nobody else touches its records
void DWorld::own_step(std::size_t i, Rng& r, std::vector<DOp>& out) {
    auto& w = own_[i];
    auto t = toks_[i];
    using TT = transaction_options::transaction_type;
    auto where = [&] { return "client " + std::to_string(i) + "'s storage '" + w.name + "' id " + std::to_string(w.id); };
    auto look = [&](TT k, std::map<std::string, std::string>& got) -> bool {
        for (int n = 0; n < 400; ++n) {
            auto s = tx_begin({t, k});
            if (s != Status::OK) { engine_failed("tx_begin:" + sstr(s), "tx_begin returned " + sstr(s)); }
            for (;;) {
                s = read_all(t, w.id, got);
                if (s != Status::WARN_PREMATURE) { break; }
                sleep_us(40);
            }
            if (s == Status::OK) { s = commit(t); }
            if (s == Status::OK) { return true; }
            if (!is_err(s)) { abort(t); }
            if (s == Status::WARN_STORAGE_NOT_FOUND) {
                fail("ddl", "own_storage_gone", where() + " cannot be read though it lives");
                return false;
            }
            wait_epochs(1);
            progress();
        }
        engine_failed("read", where() + " cannot be read");
    };
    auto check = [&](TT k, std::string const& what) {
        std::map<std::string, std::string> got;
        if (!look(k, got)) { return; }
        res.count("own_reads");
        if (got != w.recs) {
            std::string d = where() + " " + what + "; expected";
            for (auto& e : w.recs) { d += " " + e.first + "=" + e.second; }
            d += "; found";
            for (auto& e : got) { d += " " + e.first + "=" + e.second; }
            fail("ddl", w.recs.empty() ? "not_empty" : "own_contents", d);
        }
    };
    if (!w.alive) {
        DOp o;
        o.t = DT::CREATE;
        o.by = i;
        o.name = "own" + std::to_string(i) + std::string(r.below(2), 'x');
        if (r.chance(70)) { o.id = 100 + i; }
        o.payload = "p" + std::to_string(++vn_);
        run(o);
        out.push_back(o);
        if (o.s != Status::OK) { return; }
        w = Own{};
        w.alive = true;
        w.name = o.name;
        w.id = o.got;
        check(TT::SHORT, "just created");
        return;
    }
    if (r.chance(35)) {
        DOp o;
        o.t = DT::DELETE;
        o.by = i;
        o.id = w.id;
        run(o);
        out.push_back(o);
        if (o.s == Status::OK) { w.alive = false; }
        return;
    }
    auto k = r.chance(30) ? TT::LONG : TT::SHORT;
    auto next = w.recs;
    auto s = k == TT::LONG ? tx_begin({t, k, {w.id}}) : tx_begin({t, k});
    if (s != Status::OK) { engine_failed("tx_begin:" + sstr(s), "tx_begin returned " + sstr(s) + " for " + where()); }
    auto n = r.range(1, 4);
    std::set<std::string> touched;
    for (int j = 0; j < n && s == Status::OK; ++j) {
        auto key = "k" + std::to_string(r.below(6));
        if (!touched.insert(key).second) { continue; }
        bool del = r.chance(25);
        auto v = w.name + "." + std::to_string(++vn_);
        for (;;) {
            s = del ? delete_record(t, w.id, key) : upsert(t, w.id, key, v);
            if (s != Status::WARN_PREMATURE) { break; }
            sleep_us(40);
        }
        if (del && s == Status::WARN_NOT_FOUND) {
            s = Status::OK;
        } else if (del) {
            next.erase(key);
        } else {
            next[key] = v;
        }
    }
    if (s == Status::OK) {
        std::atomic<int> called{0};
        Status cs{};
        commit(t, [&](Status x, reason_code, durability_marker_type) {
            cs = x;
            called.store(1);
        });
        while (called.load() == 0) { sleep_us(30); }
        s = cs;
    } else if (!is_err(s)) {
        fail("ddl", "own_write:" + sstr(s), "writing to " + where() + " returned " + sstr(s));
        abort(t);
    }
    if (s == Status::OK) {
        w.recs = next;
        res.count("own_writes");
    }
    check(TT::SHORT, "after a " + std::string(s == Status::OK ? "commit" : "failure"));
}

void DWorld::phase() {
    auto n = static_cast<std::size_t>(r_.range(2, 4));
    std::vector<Storage> ids{7, 8, 9};
    for (auto& e : st_) {
        if (e.first.size() == 1) { ids.push_back(e.second.id); }
    }
    for (auto u : used_) {
        if (r_.chance(10)) { ids.push_back(u); } // mostly gone
    }
    std::set<Storage> owned;
    for (auto& w : own_) {
        if (w.alive) { owned.insert(w.id); }
    }
    ids.erase(std::remove_if(ids.begin(), ids.end(), [&](Storage s) { return owned.count(s) != 0; }), ids.end());
    std::mutex m;
    std::vector<std::vector<DOp>> per(n);
    std::vector<Rng> rs;
    for (std::size_t i = 0; i < n; ++i) { rs.emplace_back(r_.next()); }
    {
        Noise noise(r_);
        par(n, [&](std::size_t i) {
            auto& r = rs[i];
            auto steps = r.range(2, 4);
            for (int k = 0; k < steps; ++k) {
                if (r.chance(30)) {
                    own_step(i, r, per[i]);
                    continue;
                }
                DOp o;
                o.by = i;
                auto x = r.below(100);
                o.t = x < 32 ? DT::CREATE : x < 55 ? DT::DELETE : x < 67 ? DT::GET : x < 79 ? DT::LIST : x < 90 ? DT::GETOPT : DT::SETOPT;
                if (o.t == DT::CREATE || o.t == DT::GET) { o.name = std::string(1, static_cast<char>('a' + r.below(3))); }
                if (o.t == DT::CREATE && r.chance(60)) { o.id = 7 + r.below(3); }
                if (o.t == DT::CREATE || o.t == DT::SETOPT) { o.payload = r.chance(80) ? "p" + std::to_string(++vn_) : ""; }
                if (o.t == DT::SETOPT) { o.opt = 1000 + r.below(3); }
                if (o.t == DT::DELETE || o.t == DT::GETOPT || o.t == DT::SETOPT) {
                    std::lock_guard lk{m};
                    o.id = r.pick(ids);
                }
                run(o);
                if (o.s == Status::OK && (o.t == DT::CREATE || o.t == DT::GET) && (o.got >> 32U) != 0) {
                    std::lock_guard lk{m};
                    ids.push_back(o.got);
                }
                per[i].push_back(o);
            }
        });
    }
    std::vector<DOp> ops;
    std::uint64_t sig = hash_str(rp_, 3);
    bool met = false;
    for (auto& v : per) {
        for (auto& o : v) { ops.push_back(o); }
    }
    std::map<Storage, int> gen;
    std::sort(ops.begin(), ops.end(), [](DOp const& a, DOp const& b) { return a.c < b.c; });
    std::string text;
    for (auto& e : st_) { text += "  before: '" + e.first + "' id " + std::to_string(e.second.id) + " payload '" + e.second.payload + "'\n"; }
    for (auto& o : ops) {
        if (o.t == DT::CREATE && o.s == Status::OK && o.id == storage_id_undefined && gen[o.got]++ > 0) {
            fail("ddl", "id_twice", "id " + std::to_string(o.got) + " was generated for two storages");
        }
        for (auto& q : ops) { met = met || (q.by != o.by && q.c < o.r && o.c < q.r); }
    }
    auto all = ops;
    for (auto& o : probe()) { all.push_back(o); }
    for (auto& o : all) {
        text += "  " + o.str() + "\n";
        sig = hash_str(o.str().substr(o.str().find(']')), sig);
    }
    res.eval();
    res.count("storage_calls", ops.size());
    if (met) {
        res.count("overlapping_phases");
        res.distinct(sig);
    }
    if (res.want_sample()) { res.sample(text); }
    DState end;
    if (all.size() > 60) { throw HarnessError("too many calls"); }
    if (!linear(all, end)) {
        fail("ddl", "not_linear", "no order of these storage calls explains their answers\n" + text);
        throw Stop("state unknown");
    }
    st_ = end;
    for (auto& g : gen) { used_.insert(g.first); }
    for (auto& w : own_) {
        if (w.alive && (st_.count(w.name) == 0 || st_[w.name].id != w.id)) {
            fail("ddl", "own_storage_gone", "storage '" + w.name + "' is not listed though it lives\n" + text);
        }
    }
}

void DWorld::same(std::string const& tag, std::string const& what) {
    used_.clear(); // only ids of living storages are known to be taken now
    for (auto& e : st_) {
        if ((e.second.id >> 32U) != 0) { used_.insert(e.second.id); }
    }
    std::string text;
    for (auto& e : st_) { text += "  before: '" + e.first + "' id " + std::to_string(e.second.id) + " payload '" + e.second.payload + "'\n"; }
    auto v = probe();
    for (auto& o : v) { text += "  " + o.str() + "\n"; }
    DState end;
    if (!linear(v, end)) {
        fail(tag, "storages", what + " the storages differ\n" + text);
        throw Stop("state unknown");
    }
    for (std::size_t i = 0; i < 4; ++i) {
        auto& w = own_[i];
        if (!w.alive) { continue; }
        std::map<std::string, std::string> got;
        auto t = toks_[i];
        tx_begin({t, transaction_options::transaction_type::SHORT});
        auto s = read_all(t, w.id, got);
        if (s == Status::OK) {
            commit(t);
        } else if (!is_err(s)) {
            abort(t);
        }
        if (s != Status::OK || got != w.recs) { fail(tag, "records", what + " the records of '" + w.name + "' differ (" + sstr(s) + ")"); }
    }
}

} // namespace

static void ddl_driver() {
    auto per = static_cast<std::uint64_t>(args.num("per", 60)); // phases per block
    std::uint64_t only = static_cast<std::uint64_t>(args.num("only", -1));
    std::uint64_t no = 0;
    for (std::uint64_t blk = 0; no < args.cases; ++blk) {
        if (only != ~0ULL && blk != only) {
            no += per;
            continue;
        }
        Rng r(mix(args.seed, blk));
        auto cfg = random_cfg(r);
        std::string rp = "ddl --seed " + std::to_string(args.seed) + " --per " + std::to_string(per) + " --only " + std::to_string(blk) + " --cases " +
                         std::to_string((blk + 1) * per);
        set_case(rp + " # " + cfg.str());
        DWorld w(r, rp + " # " + cfg.str());
        auto loc = fresh_location();
        auto up = [&](database_options::open_mode m) {
            cfg.restore_threads = r.chance(50) ? 0 : static_cast<std::size_t>(r.range(1, 4));
            if (auto s = start_engine(cfg, loc, m); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s) + " " + rp); }
            w.up();
        };
        up(database_options::open_mode::CREATE);
        for (std::uint64_t g = 0; g < per && no < args.cases; ++g, ++no) {
            set_case(rp + " # phase " + std::to_string(g) + " " + cfg.str());
            w.phase();
            if (r.chance(88)) { continue; }
            if (r.chance(50)) {
                wait_durable(loc, rp);
                auto to = fresh_location();
                standin::disk_clone(loc, to, standin::disk_durable(loc));
                w.down(r.chance(50));
                standin::disk_erase(loc);
                loc = to;
                up(database_options::open_mode::RESTORE);
                w.same("crash_ddl", "after a crash with everything durable");
                res.count("crashes");
            } else {
                w.down(false);
                up(database_options::open_mode::RESTORE);
                w.same("restart_ddl", "after a clean restart");
                res.count("clean_restarts");
            }
        }
        w.down(r.chance(50));
        standin::disk_erase(loc);
    }
}

static Register reg("ddl", ddl_driver);

} // namespace vh
