// Sequences used by several clients at the same time, across restarts and crashes.
#include "par.h"

#include <algorithm>
#include <memory>

namespace vh {

namespace {

enum Out { OPEN, COMMITTED, ABORTED, AGAIN };

struct Upd {
    SequenceId id{};
    SequenceVersion v{};
    SequenceValue x{};
};

struct STx {
    char kind{'S'};
    std::vector<Upd> ups; ///< accepted ones
    std::string rec;
    std::uint64_t call{}, ret{~0ULL};    ///< ticks of the commit
    std::uint64_t call_e{}, ret_e{~0ULL}; ///< epochs of the commit
    std::atomic<int> out{OPEN};
    std::string text;
};

struct SRead {
    SequenceId id{};
    std::uint64_t call{}, ret{}, durable{};
    SequenceVersion v{};
    SequenceValue x{};
};

/// a living or dead sequence of this generation
struct Seq {
    SequenceVersion base{}; ///< at the begin of the generation
    SequenceValue base_x{};
    std::uint64_t made_call{}, made_ret{}, gone_call{~0ULL}, gone_ret{~0ULL}; ///< epochs
    SequenceVersion cur{};
    SequenceValue cur_x{};
    bool alive{true};
};

class SeqWorld {
public:
    SeqWorld(Rng& r, std::string rp) : r_(r), rp_(std::move(rp)) {}
    void up(std::string const& loc) {
        loc_ = loc;
        toks_.assign(4, nullptr);
        for (auto& t : toks_) {
            if (enter(t) != Status::OK) { throw HarnessError("enter"); }
        }
        if (get_storage("rec", st_) != Status::OK && create_storage("rec", st_) != Status::OK) { throw HarnessError("create_storage"); }
    }
    void down(bool force) {
        for (auto t : toks_) { leave(t); }
        stop_engine(force);
    }
    void begin_generation() {
        txs_.clear();
        log_.clear();
        for (auto i = seqs_.begin(); i != seqs_.end();) {
            if (!i->second.alive) {
                dead_.insert(i->first);
                i = seqs_.erase(i);
                continue;
            }
            i->second.base = i->second.cur;
            i->second.base_x = i->second.cur_x;
            i->second.made_call = i->second.made_ret = 0;
            ++i;
        }
    }
    void ddl();
    void phase();
    void check_all(std::string const& tag, std::string const& what);
    void check_crash(std::uint64_t d);
    std::uint64_t pick_crash();
    std::string loc_;
    std::map<SequenceId, Seq> seqs_;
    std::uint64_t sig_{1};

private:
    void fail(std::string const& tag, std::string const& key, std::string text) {
        text += "\n";
        auto from = log_.size() > 60 ? log_.size() - 60 : 0;
        for (auto i = from; i < log_.size(); ++i) { text += "  " + log_[i] + "\n"; }
        for (auto& t : txs_) {
            text += "  " + t->text + " commit t" + std::to_string(t->call) + ".." + std::to_string(t->ret) + " epochs " + std::to_string(t->call_e) + ".." +
                    std::to_string(t->ret_e) + (t->out == COMMITTED ? " COMMITTED" : t->out == ABORTED ? " aborted" : " open") + "\n";
        }
        res.violation(tag, key, text, rp_);
    }
    void check_reads(std::vector<SRead> const& rs, std::size_t from);

    Rng& r_;
    std::string rp_;
    Storage st_{};
    std::vector<Token> toks_;
    std::vector<std::shared_ptr<STx>> txs_;
    std::vector<std::string> log_;
    std::set<SequenceId> dead_;
    std::uint64_t no_{0};
    std::int64_t val_{0};
};

void SeqWorld::ddl() {
    std::size_t living = 0;
    for (auto& s : seqs_) { living += s.second.alive ? 1 : 0; }
    if (living == 0 || (living < 3 && r_.chance(40))) {
        Seq q;
        q.made_call = now_epoch();
        SequenceId id{};
        auto s = create_sequence(&id);
        q.made_ret = now_epoch();
        log_.push_back("create_sequence -> " + sstr(s) + " " + std::to_string(id));
        if (s != Status::OK) {
            fail("seq", "create_sequence:" + sstr(s), "a sequence cannot be created");
            return;
        }
        if (seqs_.count(id) != 0 && seqs_[id].alive) { fail("seq", "create_sequence:id_twice", "id of a living sequence handed out again"); }
        dead_.erase(id);
        seqs_[id] = q;
    } else if (r_.chance(15)) {
        std::vector<SequenceId> l;
        for (auto& s : seqs_) {
            if (s.second.alive) { l.push_back(s.first); }
        }
        auto id = r_.pick(l);
        auto& q = seqs_[id];
        q.gone_call = now_epoch();
        auto s = delete_sequence(id);
        q.gone_ret = now_epoch();
        q.alive = false;
        log_.push_back("delete_sequence " + std::to_string(id) + " -> " + sstr(s));
        if (s != Status::OK) { fail("seq", "delete_sequence:" + sstr(s), "a living sequence cannot be deleted"); }
    }
    if (r_.chance(30)) { wait_epochs(1); }
}

void SeqWorld::phase() {
    std::vector<SequenceId> ids;
    std::map<SequenceId, std::vector<SequenceVersion>> pool;
    for (auto& s : seqs_) {
        if (!s.second.alive) { continue; }
        ids.push_back(s.first);
        auto& p = pool[s.first];
        auto v = s.second.cur;
        for (int i = 0; i < 40; ++i) { p.push_back(v += static_cast<SequenceVersion>(r_.range(1, 3))); }
        // mostly ascending in the order of their use, mixed at random distances
        auto n = r_.below(30);
        for (std::uint64_t i = 0; i < n; ++i) {
            auto a = r_.below(p.size());
            auto b = std::min<std::uint64_t>(p.size() - 1, a + r_.below(6));
            std::swap(p[a], p[b]);
        }
        std::reverse(p.begin(), p.end());
    }
    if (ids.empty()) { return; }
    bool threaded = r_.chance(50);
    std::size_t n = static_cast<std::size_t>(r_.range(2, 4));
    struct Client {
        Token tok{};
        Rng r{0};
        int left{};
        std::shared_ptr<STx> tx;
        int ops{};
        bool waiting{false};
        std::map<SequenceId, SequenceVersion> last;
        std::vector<SRead> reads;
    };
    std::vector<Client> cs(n);
    std::mutex m; // pool, txs_, log_
    auto from = txs_.size();
    for (std::size_t i = 0; i < n; ++i) {
        cs[i].tok = toks_[i];
        cs[i].r = Rng(r_.next());
        cs[i].left = static_cast<int>(r_.range(1, 4));
    }
    auto finish = [](STx& t, bool ok) {
        t.ret_e = now_epoch();
        t.ret = tick();
        t.out = ok ? COMMITTED : ABORTED;
    };
    auto step = [&](Client& c) -> bool { // false: nothing left
        progress();
        if (c.waiting) {
            if (c.tx->out.load() == OPEN) {
                sleep_us(20);
                return true;
            }
            c.waiting = false;
            if (c.tx->out.load() == AGAIN) { // not yet valid
                c.tx->out = OPEN;
                sleep_us(30);
                return true;
            }
            c.tx.reset();
            return true;
        }
        if (c.r.chance(30)) {
            SRead rd;
            rd.id = c.r.pick(ids);
            rd.durable = standin::current_durable.load();
            rd.call = tick();
            auto s = read_sequence(rd.id, &rd.v, &rd.x);
            rd.ret = tick();
            if (s != Status::OK) {
                std::lock_guard lk{m};
                fail("seq", "read_sequence:" + sstr(s), "a living sequence is not found");
            } else {
                c.reads.push_back(rd);
            }
        }
        if (c.tx == nullptr) {
            if (c.left-- == 0) { return false; }
            auto t = std::make_shared<STx>();
            t->kind = c.r.chance(45) ? 'L' : 'S';
            auto s = t->kind == 'S' ? tx_begin({c.tok})
                                    : tx_begin({c.tok, transaction_options::transaction_type::LONG,
                                                c.r.chance(70) ? transaction_options::write_preserve_type{st_} : transaction_options::write_preserve_type{}});
            if (s != Status::OK) { engine_failed("tx_begin:" + sstr(s), "tx_begin returned " + sstr(s) + " " + rp_); }
            t->text = std::string(1, t->kind) + " begun in " + std::to_string(now_epoch()) + ":";
            c.ops = static_cast<int>(c.r.range(1, 3));
            c.tx = t;
            c.last.clear();
            std::lock_guard lk{m};
            txs_.push_back(t);
            return true;
        }
        auto& t = *c.tx;
        if (c.ops-- > 0) {
            if (c.r.chance(20)) {
                wait_epochs(c.r.below(3));
                return true;
            }
            if (t.rec.empty() && c.r.chance(40)) {
                std::string k;
                {
                    std::lock_guard lk{m};
                    k = "r" + std::to_string(++no_);
                }
                auto s = upsert(c.tok, st_, k, k);
                for (int i = 0; s == Status::WARN_PREMATURE && i < 2000; ++i) {
                    sleep_us(30);
                    s = upsert(c.tok, st_, k, k);
                }
                if (s == Status::OK) {
                    t.rec = k;
                    t.text += " upsert " + k;
                }
                return true;
            }
            Upd u;
            u.id = c.r.pick(ids);
            {
                std::lock_guard lk{m};
                auto& p = pool[u.id];
                if (p.empty()) { return true; }
                u.v = p.back();
                p.pop_back();
                u.x = ++val_;
            }
            auto s = update_sequence(c.tok, u.id, u.v, u.x);
            t.text += " update " + std::to_string(u.id) + " " + std::to_string(u.v) + "=" + std::to_string(u.x) + " " + sstr(s);
            bool stale = c.last.count(u.id) != 0 && c.last[u.id] >= u.v;
            if (s != (stale ? Status::WARN_ALREADY_EXISTS : Status::OK)) {
                std::lock_guard lk{m};
                fail("seq", "update_sequence:" + sstr(s), "unexpected answer of update_sequence");
            }
            if (s == Status::OK) {
                c.last[u.id] = u.v;
                t.ups.push_back(u);
            }
            return true;
        }
        if (c.r.chance(25)) {
            auto s = abort(c.tok);
            if (s != Status::OK) {
                std::lock_guard lk{m};
                fail("seq", "abort:" + sstr(s), "abort is refused");
            }
            t.text += " abort";
            finish(t, false);
            res.count("seq_user_aborts");
            c.tx.reset();
            return true;
        }
        t.call_e = now_epoch();
        t.call = tick();
        auto sp = c.tx;
        if (t.kind == 'L') {
            c.waiting = true;
            commit(c.tok, [sp, finish](Status s, reason_code, durability_marker_type) {
                if (s == Status::WARN_PREMATURE) {
                    sp->out = AGAIN;
                } else {
                    finish(*sp, s == Status::OK);
                }
            });
        } else {
            auto s = commit(c.tok);
            finish(t, s == Status::OK);
            if (s < Status::OK) { abort(c.tok); }
            c.tx.reset();
        }
        return true;
    };
    {
        Noise nz(r_);
        if (threaded) {
            par(n, [&](std::size_t i) {
                while (step(cs[i])) {}
            });
        } else {
            std::vector<std::size_t> on(n);
            for (std::size_t i = 0; i < n; ++i) { on[i] = i; }
            while (!on.empty()) {
                auto k = r_.below(on.size());
                if (!step(cs[on[k]])) { on.erase(on.begin() + static_cast<std::ptrdiff_t>(k)); }
            }
        }
    }
    std::vector<SRead> rs;
    for (auto& c : cs) { rs.insert(rs.end(), c.reads.begin(), c.reads.end()); }
    check_reads(rs, from);
    std::string shape;
    for (auto i = from; i < txs_.size(); ++i) {
        auto& t = *txs_[i];
        res.count(std::string(t.kind == 'L' ? "long_" : "short_") + (t.out == COMMITTED ? "committed" : "aborted"));
        shape += t.kind;
        shape += t.out == COMMITTED ? 'c' : 'a';
        for (auto& u : t.ups) {
            shape += std::to_string(u.v) + ",";
            auto& q = seqs_[u.id];
            if (t.out == COMMITTED) {
                res.count("updates_committed");
                if (u.v > q.cur) {
                    q.cur = u.v;
                    q.cur_x = u.x;
                } else {
                    res.count("updates_overtaken");
                }
            }
        }
    }
    for (auto& x : rs) { shape += "r" + std::to_string(x.v); }
    sig_ = mix(sig_, hash_str(shape));
    res.count("sequence_reads", rs.size());
    res.count(threaded ? "threaded_phases" : "scripted_phases");
    check_all("seq", "after the transactions");
    res.distinct(sig_);
    res.eval();
    if (res.want_sample() && n > 2) {
        std::string s;
        for (auto i = from; i < txs_.size(); ++i) { s += txs_[i]->text + (txs_[i]->out == COMMITTED ? " COMMITTED; " : " aborted; "); }
        res.sample(s);
    }
}

void SeqWorld::check_reads(std::vector<SRead> const& rs, std::size_t from) {
    struct W {
        STx* t;
        SequenceValue x;
    };
    std::map<std::pair<SequenceId, SequenceVersion>, W> by;
    for (auto i = from; i < txs_.size(); ++i) {
        // an update of a sequence by a later one of the same transaction is replaced
        std::map<SequenceId, Upd> last;
        for (auto& u : txs_[i]->ups) { last[u.id] = u; }
        for (auto& e : last) { by[{e.first, e.second.v}] = {txs_[i].get(), e.second.x}; }
    }
    for (auto& a : rs) {
        auto& q = seqs_[a.id];
        auto what = "read_sequence of " + std::to_string(a.id) + " at t" + std::to_string(a.call) + ".." + std::to_string(a.ret) + " returned " +
                    std::to_string(a.v) + "=" + std::to_string(a.x);
        if (a.v == q.cur) {
            if (a.x != q.cur_x) { fail("seq", "value", what); }
        } else {
            auto i = by.find({a.id, a.v});
            if (i == by.end()) {
                fail("seq", "from_nowhere", what);
            } else if (i->second.x != a.x) {
                fail("seq", "value", what);
            } else if (i->second.t->out == ABORTED) {
                fail("seq", "aborted_update_read", what);
            } else if (i->second.t->call > a.ret) {
                fail("seq", "early_update_read", what);
            }
        }
        // not older than what was durable before
        auto must = q.cur;
        for (auto i = from; i < txs_.size(); ++i) {
            auto& t = *txs_[i];
            if (t.out != COMMITTED || t.ret > a.call || t.ret_e > a.durable) { continue; }
            for (auto& u : t.ups) {
                if (u.id == a.id) { must = std::max(must, u.v); }
            }
        }
        if (a.v < must) { fail("seq", "durable_update_missed", what + ", version " + std::to_string(must) + " was durable"); }
        for (auto& b : rs) {
            if (b.id == a.id && b.ret < a.call && b.v > a.v) {
                fail("seq", "goes_back", what + ", version " + std::to_string(b.v) + " was read before");
                break;
            }
        }
    }
}

void SeqWorld::check_all(std::string const& tag, std::string const& what) {
    res.count("comparisons");
    for (auto& e : seqs_) {
        SequenceVersion v{};
        SequenceValue x{};
        auto s = read_sequence(e.first, &v, &x);
        if (!e.second.alive) {
            if (s != Status::WARN_NOT_FOUND) { fail(tag, tag + ":deleted_found", what + ": deleted sequence " + std::to_string(e.first) + " gives " + sstr(s)); }
            continue;
        }
        if (s != Status::OK) {
            fail(tag, tag + ":lost", what + ": sequence " + std::to_string(e.first) + " gives " + sstr(s));
            e.second.alive = false;
            continue;
        }
        if (v != e.second.cur || x != e.second.cur_x) {
            fail(tag, tag + ":final", what + ": sequence " + std::to_string(e.first) + " shows " + std::to_string(v) + "=" + std::to_string(x) + ", expected " +
                                              std::to_string(e.second.cur) + "=" + std::to_string(e.second.cur_x));
            e.second.cur = v;
            e.second.cur_x = x;
        }
    }
    for (auto id : dead_) {
        SequenceVersion v{};
        SequenceValue x{};
        if (read_sequence(id, &v, &x) == Status::OK) {
            fail(tag, tag + ":deleted_found", what + ": sequence " + std::to_string(id) + " deleted long ago is found");
            dead_.erase(id);
            break;
        }
    }
}

std::uint64_t SeqWorld::pick_crash() {
    std::vector<std::uint64_t> ds;
    for (auto& t : txs_) {
        if (t->out != COMMITTED) { continue; }
        for (auto e = t->call_e - 1; e <= t->ret_e; ++e) { ds.push_back(e); }
    }
    for (auto& s : seqs_) {
        if (s.second.made_call != 0) { ds.push_back(s.second.made_call - static_cast<std::uint64_t>(r_.below(2))); }
        if (s.second.gone_call != ~0ULL) { ds.push_back(s.second.gone_call - static_cast<std::uint64_t>(r_.below(2))); }
    }
    return ds.empty() ? now_epoch() : r_.pick(ds);
}

void SeqWorld::check_crash(std::uint64_t d) {
    res.count("crashes");
    res.eval();
    res.distinct(mix(sig_, d));
    // records
    std::set<std::string> recs;
    for (int i = 0; i < 100; ++i) {
        recs.clear();
        if (tx_begin({toks_[0]}) != Status::OK) { throw HarnessError("tx_begin"); }
        ScanHandle h{};
        auto s = open_scan(toks_[0], st_, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
        while (s == Status::OK) {
            std::string k;
            if (read_key_from_scan(toks_[0], h, k) == Status::OK) { recs.insert(k); }
            s = next(toks_[0], h);
        }
        if (commit(toks_[0]) == Status::OK) { break; }
    }
    auto at = "crash at durable epoch " + std::to_string(d) + ": ";
    std::map<SequenceId, SequenceVersion> got;
    for (auto& e : seqs_) {
        auto id = e.first;
        auto& q = e.second;
        SequenceVersion v{};
        SequenceValue x{};
        auto s = read_sequence(id, &v, &x);
        bool must = q.made_ret <= d && q.gone_call > d;
        bool may = q.made_call <= d && q.gone_ret > d;
        if (s != Status::OK) {
            if (must) { fail("crash_seq", "lost", at + "sequence " + std::to_string(id) + " is lost"); }
            q.alive = false;
            continue;
        }
        if (!may) { fail("crash_seq", "deleted_found", at + "sequence " + std::to_string(id) + " should not exist"); }
        q.alive = true;
        q.gone_call = q.gone_ret = ~0ULL;
        q.cur = v;
        q.cur_x = x;
        got[id] = v;
        auto what = at + "sequence " + std::to_string(id) + " shows " + std::to_string(v) + "=" + std::to_string(x);
        bool known = v == q.base && x == q.base_x;
        SequenceVersion least = q.base;
        for (auto& t : txs_) {
            std::map<SequenceId, Upd> last;
            for (auto& u : t->ups) { last[u.id] = u; }
            auto i = last.find(id);
            if (i == last.end()) { continue; }
            if (i->second.v == v && i->second.x == x && t->call_e <= d && t->out == COMMITTED) { known = true; }
            if (t->out == COMMITTED && t->ret_e <= d) { least = std::max(least, i->second.v); }
        }
        if (!known) { fail("crash_seq", "from_nowhere", what); }
        if (v < least) { fail("crash_seq", "durable_update_lost", what + ", version " + std::to_string(least) + " was durable"); }
    }
    for (auto& t : txs_) {
        if (t->rec.empty()) { continue; }
        bool there = recs.count(t->rec) != 0;
        if (there && t->out == ABORTED) { fail("crash_seq", "aborted_record", at + "record " + t->rec + " of an aborted transaction"); }
        std::map<SequenceId, Upd> last;
        for (auto& u : t->ups) { last[u.id] = u; }
        for (auto& e : last) {
            auto i = got.find(e.first);
            if (i == got.end()) { continue; }
            if (there && i->second < e.second.v) {
                fail("crash_seq", "torn", at + "record " + t->rec + " is there, version " + std::to_string(e.second.v) + " of sequence " + std::to_string(e.first) + " is not");
            }
            if (!there && i->second == e.second.v && t->out == COMMITTED) {
                fail("crash_seq", "torn", at + "record " + t->rec + " is not there, version " + std::to_string(e.second.v) + " of sequence " + std::to_string(e.first) + " is");
            }
        }
    }
}

} // namespace

static void seq_driver() {
    auto per = static_cast<std::uint64_t>(args.num("per", 60)); // phases per block
    std::uint64_t only = static_cast<std::uint64_t>(args.num("only", -1));
    std::uint64_t no = 0;
    for (std::uint64_t blk = 0; no < args.cases; ++blk) {
        if (only != ~0ULL && blk != only) {
            no += per;
            continue;
        }
        Rng r(mix(args.seed, blk));
        auto cfg = random_cfg(r);
        std::string rp = "seq --seed " + std::to_string(args.seed) + " --per " + std::to_string(per) + " --only " + std::to_string(blk) + " --cases " +
                         std::to_string((blk + 1) * per);
        set_case(rp + " # " + cfg.str());
        SeqWorld w(r, rp + " # " + cfg.str());
        auto loc = fresh_location();
        auto up = [&](database_options::open_mode m) {
            cfg.restore_threads = r.chance(50) ? 0 : static_cast<std::size_t>(r.range(1, 4));
            if (auto s = start_engine(cfg, loc, m); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s) + " " + rp); }
            w.up(loc);
        };
        up(database_options::open_mode::CREATE);
        w.begin_generation();
        for (std::uint64_t g = 0; g < per && no < args.cases; ++g, ++no) {
            set_case(rp + " # phase " + std::to_string(g) + " " + cfg.str());
            auto n = r.below(3);
            for (std::uint64_t i = 0; i < n; ++i) { w.ddl(); }
            w.phase();
            if (r.chance(80)) { continue; }
            if (r.chance(50)) {
                wait_durable(loc, rp);
                auto d = std::min(w.pick_crash(), now_epoch() - 1);
                auto to = fresh_location();
                standin::disk_clone(loc, to, d);
                w.down(r.chance(50));
                standin::disk_erase(loc);
                loc = to;
                up(database_options::open_mode::RESTORE);
                w.check_crash(d);
            } else {
                w.down(false);
                up(database_options::open_mode::RESTORE);
                w.check_all("restart_seq", "after a clean restart");
                res.count("clean_restarts");
            }
            w.begin_generation();
        }
        w.down(r.chance(50));
        standin::disk_erase(loc);
    }
}

static Register reg("seq", seq_driver);

} // namespace vh
