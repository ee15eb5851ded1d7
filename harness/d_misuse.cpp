// Legal and illegal calls in any order from several sessions of one client, against a model of the
// session states. Every session works on a storage of its own, so that nothing but misuse, its own
// state and the documented limits decides the answers.
#include <algorithm>
#include <sstream>

#include "par.h"
#include "shirakami/api_diagnostic.h"
#include "shirakami/api_result.h"
#include "shirakami/api_sequence.h"
#include "shirakami/api_storage.h"
#include "shirakami/api_tx_id.h"

namespace vh {
namespace {

using TT = transaction_options::transaction_type;
using Map = std::map<std::string, std::string>;

enum class Own { NONE, INS, UPD, UPS, DEL };

struct Scan {
    ScanHandle h{};
    std::vector<std::pair<std::string, std::string>> items;
    std::size_t at{0};
    bool exact{false}; ///< items are what the scan has to return
    bool dirty{false}; ///< the transaction wrote after opening it
};

struct Sess {
    Token tok{};
    Storage st{};
    bool in{false};
    bool began{false};
    bool waiting{false}; ///< commit requested, not answered
    bool ready{false};   ///< known to be readable (long and read-only)
    TT kind{TT::SHORT};
    bool area{false}; ///< may read its own storage only
    bool wp{false};
    Map committed;
    Map cur;
    std::map<std::string, Own> own;
    std::map<std::string, std::vector<std::string>> alt; ///< keys of unclear fate: possible values, "" absent
    std::vector<Scan> scans;
    std::vector<ScanHandle> closed;
    TxStateHandle tsh{undefined_handle};
    std::vector<TxStateHandle> released;
    std::atomic<int> answers{0};
    std::atomic<int> answer{0};
    bool foreign_read{false};
    std::map<SequenceId, SequenceVersion> seqs;
};

class Prog {
public:
    Prog(Rng& r, std::string rp, bool iscan) : r_(r), rp_(std::move(rp)), iscan_(iscan) {}

    void run(int steps) {
        for (std::size_t i = 0; i < 3; ++i) {
            Storage s{};
            if (auto rc = create_storage("m" + std::to_string(i), s); rc != Status::OK) {
                engine_failed("create_storage", "create_storage returned " + sstr(rc));
            }
            ss_.emplace_back(std::make_unique<Sess>());
            ss_.back()->st = s;
        }
        {
            Storage s{};
            create_storage("gone", s);
            delete_storage(s);
            gone_ = s;
            SequenceId q{};
            create_sequence(&q);
            seq_ = q;
        }
        for (int i = 0; i < steps && !bad_; ++i) { step(); }
        finish();
        for (auto& s : ss_) { delete_storage(s->st); }
        delete_sequence(seq_);
        res.count("calls", calls_);
        res.count("refused_calls", refused_);
        if (refused_ > 0) { res.distinct(sig_); }
    }

private:
    void note(std::string const& s) {
        log_.push_back(s);
        if (log_.size() > 400) { log_.erase(log_.begin(), log_.begin() + 200); }
    }
    void fail(std::string const& key, std::string const& text) {
        bad_ = true;
        std::string h;
        for (auto i = log_.size() > 50 ? log_.size() - 50 : 0; i < log_.size(); ++i) { h += " " + log_[i] + "\n"; }
        res.violation("misuse", key, text + "\nlast calls:\n" + h, rp_);
    }
    std::string sn(Sess& s) {
        for (std::size_t i = 0; i < ss_.size(); ++i) {
            if (ss_[i].get() == &s) { return "session " + std::to_string(i) + " "; }
        }
        return "? ";
    }
    /// records an answer; R holds the refusals that apply. true: the call was refused as it had to be
    bool answered(Sess& s, std::string const& what, std::string const& arg, Status got, std::set<Status> const& R) {
        ++calls_;
        note(sn(s) + what + " " + arg + " -> " + sstr(got));
        sig_ = hash_str(what + sstr(got) + (s.began ? "b" : "n") + std::to_string(static_cast<int>(s.kind)), sig_);
        if (R.empty()) { return false; }
        if (got == Status::WARN_PREMATURE && s.began && s.kind != TT::SHORT && R.count(Status::WARN_NOT_BEGIN) == 0) { return true; }
        if (R.count(got) == 0) {
            std::string w;
            for (auto x : R) { w += " " + sstr(x); }
            fail(what + ":" + sstr(got) + "/" + sstr(*R.begin()), what + " returned " + sstr(got) + " instead of a refusal:" + w);
            return true;
        }
        ++refused_;
        res.count("refusal_" + sstr(got));
        return true;
    }
    void unexpected(std::string const& what, Status got, Status want) {
        fail(what + ":" + sstr(got) + "/" + sstr(want), what + " returned " + sstr(got) + ", expected " + sstr(want));
    }

    /// short transactions lose against the removal of dead index entries
    static bool may_abort(Sess& s, Status rc) {
        if (rc == Status::ERR_CC && s.kind == TT::SHORT) {
            res.count("conflicts_with_reclamation");
            return true;
        }
        return s.foreign_read && (rc == Status::ERR_CC || rc == Status::ERR_KVS);
    }
    void step();
    void data(Sess& s);
    void scan(Sess& s);
    void use_scan(Sess& s);
    void begin(Sess& s);
    void end(Sess& s);
    void session_calls(Sess& s);
    void state_calls(Sess& s);
    void misc(Sess& s);
    void poll(Sess& s);
    void ended(Sess& s, bool ok);
    void finish();
    void verify(Sess& s);
    bool ready(Sess& s);
    std::string key() {
        auto x = r_.below(30);
        if (x == 0) { return std::string(30 * 1024 + 1 + r_.below(3), 'x'); }
        if (x == 1) { return std::string(30 * 1024, 'y'); }
        if (x == 2) { return ""; }
        return std::string("k") + static_cast<char>('0' + r_.below(5));
    }
    static std::string shortkey(std::string const& k) { return k.size() > 40 ? "<" + std::to_string(k.size()) + " bytes>" : esc(k); }

    Rng& r_;
    std::string rp_;
    bool iscan_;
    std::vector<std::unique_ptr<Sess>> ss_;
    Storage gone_{};
    SequenceId seq_{};
    std::vector<std::string> log_;
    std::uint64_t vn_{0};
    std::uint64_t calls_{0}, refused_{0}, sig_{1};
    bool bad_{false};
};

/// makes a long or read-only transaction readable
bool Prog::ready(Sess& s) {
    if (s.kind == TT::SHORT || s.ready) { return true; }
    for (int i = 0; i < 200000; ++i) {
        auto rc = exist_key(s.tok, s.st, "zz");
        if (rc == Status::WARN_NOT_FOUND) {
            s.ready = true;
            return true;
        }
        if (rc != Status::WARN_PREMATURE) {
            unexpected("exist_key", rc, Status::WARN_NOT_FOUND);
            return false;
        }
        // short transactions of the other sessions may be what it waits for
        sleep_us(100);
        if (i > 2000) { return false; }
    }
    return false;
}

void Prog::ended(Sess& s, bool ok) {
    if (ok && s.kind != TT::READ_ONLY) {
        s.committed = s.cur;
        if (!s.alt.empty()) {
            // settle what delete-after-upsert left open
            for (auto& a : s.alt) { s.committed.erase(a.first); }
        }
    }
    s.began = false;
    s.waiting = false;
    s.ready = false;
    s.scans.clear();
    s.closed.clear();
    if (s.tsh != undefined_handle) {
        TxState out;
        auto rc = check_tx_state(s.tsh, out);
        if (rc != Status::OK) { unexpected("check_tx_state", rc, Status::OK); }
        rc = release_tx_state_handle(s.tsh);
        if (rc != Status::OK) { unexpected("release_tx_state_handle", rc, Status::OK); }
        s.released.push_back(s.tsh);
        s.tsh = undefined_handle;
    }
    if (ok && !s.alt.empty()) { verify(s); }
    s.alt.clear();
}

/// compares the storage of a session without a transaction with its model
void Prog::verify(Sess& s) {
    Token t{};
    if (enter(t) != Status::OK) { engine_failed("enter", "enter failed"); }
    bool own = s.in && !s.began;
    Token use = own ? s.tok : t;
    Map got;
    bool ok = false;
    for (int i = 0; i < 2000 && !ok; ++i) {
        got.clear();
        tx_begin({use});
        ScanHandle h{};
        auto rc = open_scan(use, s.st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
        while (rc == Status::OK) {
            std::string k;
            std::string v;
            rc = read_key_from_scan(use, h, k);
            if (rc == Status::OK) { rc = read_value_from_scan(use, h, v); }
            if (rc == Status::OK) {
                got[k] = v;
                rc = next(use, h);
            }
        }
        if (rc == Status::WARN_SCAN_LIMIT || rc == Status::WARN_NOT_FOUND) {
            rc = commit(use);
            ok = rc == Status::OK;
        } else {
            abort(use);
        }
        if (!ok) { sleep_us(50); }
    }
    leave(t);
    if (!ok) {
        res.inconclusive("verify");
        return;
    }
    res.count("contents_verified");
    for (auto& a : s.alt) {
        auto g = got.find(a.first);
        std::string v = g == got.end() ? "" : g->second;
        if (std::find(a.second.begin(), a.second.end(), v) == a.second.end()) {
            fail("contents:alt", "key " + esc(a.first) + " holds " + esc(v));
        }
        if (g == got.end()) {
            s.committed.erase(a.first);
        } else {
            s.committed[a.first] = v;
        }
    }
    if (got != s.committed) {
        std::string t1;
        for (auto& e : got) { t1 += " " + shortkey(e.first) + "=" + esc(e.second); }
        t1 += "\nmodel:";
        for (auto& e : s.committed) { t1 += " " + shortkey(e.first) + "=" + esc(e.second); }
        fail("contents", sn(s) + "storage differs from its model: engine:" + t1);
    }
}

void Prog::begin(Sess& s) {
    auto k = r_.weighted({45, 35, 20});
    auto kind = k == 0 ? TT::SHORT : k == 1 ? TT::LONG : TT::READ_ONLY;
    transaction_options o{s.tok, kind};
    std::set<Status> R;
    if (s.began) { R.insert(Status::WARN_ALREADY_BEGIN); }
    bool wp = false;
    bool area = false;
    std::string arg = k == 0 ? "SHORT" : k == 1 ? "LONG" : "READ_ONLY";
    if (r_.chance(kind == TT::LONG ? 75 : 12)) {
        transaction_options::write_preserve_type w{s.st};
        wp = true;
        arg += " wp";
        if (r_.chance(12)) {
            w.push_back(r_.chance(50) ? gone_ : 0x7fff1234ULL);
            arg += "+unknown";
            R.insert(Status::WARN_INVALID_ARGS);
        }
        o.set_write_preserve(w);
        if (kind != TT::LONG) { R.insert(Status::WARN_ILLEGAL_OPERATION); }
    }
    if (kind == TT::LONG && r_.chance(25)) {
        area = true;
        arg += " area";
        o.set_read_area({{s.st}, {}});
    }
    auto rc = tx_begin(o);
    if (s.waiting && R.count(rc) == 0) { // answered meanwhile
        for (int i = 0; i < 400000 && s.answers.load() == 0; ++i) { sleep_us(50); }
        poll(s);
        if (!s.began) { R.erase(Status::WARN_ALREADY_BEGIN); }
    }
    if (answered(s, "tx_begin", arg, rc, R)) { return; }
    if (rc != Status::OK) {
        unexpected("tx_begin", rc, Status::OK);
        return;
    }
    s.began = true;
    s.waiting = false;
    s.ready = false;
    s.kind = kind;
    s.wp = wp;
    s.area = area;
    s.cur = s.committed;
    s.own.clear();
    s.alt.clear();
    s.seqs.clear();
    s.foreign_read = false;
    s.answers = 0;
    if (r_.chance(85)) { ready(s); }
}

void Prog::poll(Sess& s) {
    if (!s.waiting || s.answers.load() == 0) { return; }
    auto st = static_cast<Status>(s.answer.load());
    note(sn(s) + "answer " + sstr(st));
    if (st == Status::OK) {
        ended(s, true);
    } else if (st == Status::WARN_PREMATURE) {
        s.waiting = false; // it lives on
    } else if (is_err(st)) {
        if (!may_abort(s, st)) { unexpected("commit(answer)", st, Status::OK); }
        ended(s, false);
    } else {
        unexpected("commit(answer)", st, Status::OK);
    }
}

void Prog::end(Sess& s) {
    std::set<Status> R;
    if (!s.began) { R.insert(Status::WARN_NOT_BEGIN); }
    bool was_waiting = s.waiting;
    if (r_.chance(30)) {
        if (was_waiting) { R.insert(Status::WARN_ILLEGAL_OPERATION); }
        auto rc = abort(s.tok);
        if (was_waiting && rc == Status::WARN_NOT_BEGIN) { R.insert(rc); } // answered meanwhile
        if (answered(s, "abort", "", rc, R)) { return; }
        if (rc != Status::OK) {
            unexpected("abort", rc, Status::OK);
            return;
        }
        ended(s, false);
        return;
    }
    if (was_waiting) { return; }
    s.answers = 0;
    s.waiting = s.began;
    auto* sp = &s;
    auto done = commit(s.tok, [sp](Status st, reason_code, durability_marker_type) {
        sp->answer.store(static_cast<int>(st));
        sp->answers.fetch_add(1);
    });
    if (done && s.answers.load() == 0) {
        fail("commit:no_answer", "commit returned true without calling back");
        return;
    }
    if (!R.empty()) {
        if (s.answers.load() != 1) {
            fail("commit:answers", "a refused commit was answered " + std::to_string(s.answers.load()) + " times");
            return;
        }
        answered(s, "commit", "", static_cast<Status>(s.answer.load()), R);
        return;
    }
    answered(s, "commit", "", done ? static_cast<Status>(s.answer.load()) : Status::WARN_WAITING_FOR_OTHER_TX, {});
    poll(s);
}

void Prog::data(Sess& s) {
    if (s.waiting) { return; }
    auto k = key();
    auto what = r_.weighted({16, 10, 22, 18, 16, 18});
    static char const* names[] = {"search_key", "exist_key", "insert", "update", "upsert", "delete_record"};
    bool write = what >= 2;
    Storage st = s.st;
    std::string where;
    bool foreign = false;
    if (r_.chance(8)) {
        st = r_.chance(50) ? gone_ : 0x7fff1234ULL + r_.below(3);
        where = " in unknown storage";
    } else if (s.began && s.kind == TT::LONG && !s.wp && !write && r_.chance(14)) {
        // with own writes it might be ordered before earlier ones
        auto& o = *ss_[r_.below(ss_.size())];
        if (&o != &s) {
            st = o.st;
            foreign = true;
            where = " in foreign storage";
        }
    }
    std::set<Status> R;
    if (!s.began) { R.insert(Status::WARN_NOT_BEGIN); }
    if (k.size() > 30 * 1024) { R.insert(Status::WARN_INVALID_KEY_LENGTH); }
    if (!where.empty() && !foreign) {
        R.insert(Status::WARN_STORAGE_NOT_FOUND);
        if (s.began && s.kind == TT::LONG && s.area) { R.insert(Status::ERR_READ_AREA_VIOLATION); }
    }
    if (s.began && s.kind == TT::READ_ONLY && write) { R.insert(Status::WARN_ILLEGAL_OPERATION); }
    if (s.began && s.kind == TT::LONG && write && !s.wp) { R.insert(Status::WARN_WRITE_WITHOUT_WP); }
    std::string v = "v" + std::to_string(++vn_);
    std::string out = "untouched";
    Status rc{};
    switch (what) {
        case 0: rc = search_key(s.tok, st, k, out); break;
        case 1: rc = exist_key(s.tok, st, k); break;
        case 2: rc = insert(s.tok, st, k, v); break;
        case 3: rc = update(s.tok, st, k, v); break;
        case 4: rc = upsert(s.tok, st, k, v); break;
        default: rc = delete_record(s.tok, st, k); break;
    }
    if (answered(s, names[what], shortkey(k) + where, rc, R)) {
        if (is_err(rc) && s.began) { ended(s, false); }
        return;
    }
    if (rc == Status::WARN_PREMATURE && s.kind != TT::SHORT) { return; }
    if (foreign) {
        if (s.area) {
            if (rc != Status::ERR_READ_AREA_VIOLATION) {
                unexpected(names[what], rc, Status::ERR_READ_AREA_VIOLATION);
                return;
            }
            ++refused_;
            ended(s, false);
            return;
        }
        s.foreign_read = true;
        if (is_err(rc)) { ended(s, false); }
        return;
    }
    if (s.kind == TT::READ_ONLY) {
        if (rc != Status::OK && rc != Status::WARN_NOT_FOUND) { unexpected(names[what], rc, Status::OK); }
        return;
    }
    if (is_err(rc)) {
        // nobody else works on this storage
        if (!may_abort(s, rc)) { unexpected(names[what], rc, Status::OK); }
        ended(s, false);
        return;
    }
    if (s.alt.count(k) != 0) {
        // fate of the key unclear inside of this transaction: leave it alone in the model
        auto& a = s.alt[k];
        if (what >= 2 && what <= 4) { a.push_back(v); }
        if (what == 5) { a.push_back(""); }
        return;
    }
    auto it = s.cur.find(k);
    bool have = it != s.cur.end();
    auto own = s.own.count(k) != 0 ? s.own[k] : Own::NONE;
    Status want = Status::OK;
    switch (what) {
        case 0:
        case 1:
            want = have ? Status::OK : Status::WARN_NOT_FOUND;
            if (rc == want && what == 0 && have && out != it->second) {
                fail("search_key:value", "read " + esc(out) + " instead of " + esc(it->second));
                return;
            }
            break;
        case 2:
            want = have ? Status::WARN_ALREADY_EXISTS : Status::OK;
            if (rc == want && !have) {
                s.cur[k] = v;
                s.own[k] = own == Own::DEL ? Own::UPD : Own::INS;
            }
            break;
        case 3:
            want = have ? Status::OK : Status::WARN_NOT_FOUND;
            if (rc == want && have) {
                it->second = v;
                if (own == Own::NONE) { s.own[k] = Own::UPD; }
            }
            break;
        case 4:
            if (rc == want) {
                s.cur[k] = v;
                if (own == Own::NONE) { s.own[k] = Own::UPS; }
                if (own == Own::DEL) { s.own[k] = Own::UPD; }
            }
            break;
        default:
            if (!have) {
                want = Status::WARN_NOT_FOUND;
            } else if (own == Own::INS) {
                want = Status::WARN_CANCEL_PREVIOUS_INSERT;
            } else if (own == Own::UPS) {
                want = Status::WARN_CANCEL_PREVIOUS_UPSERT;
            }
            if (rc == want && have) {
                if (own == Own::UPS) {
                    auto c = s.committed.find(k);
                    s.alt[k] = {"", c == s.committed.end() ? "" : c->second};
                } else {
                    s.own[k] = own == Own::INS ? Own::NONE : Own::DEL;
                }
                s.cur.erase(k);
            }
    }
    if (rc != want) {
        unexpected(names[what], rc, want);
        return;
    }
    if (write && rc == Status::OK) {
        for (auto& c : s.scans) { c.dirty = true; }
    }
    if (what == 5) {
        for (auto& c : s.scans) { c.dirty = true; }
    }
}

void Prog::scan(Sess& s) {
    if (s.waiting) { return; }
    if (s.scans.size() >= 4 && s.began) { return; }
    std::set<Status> R;
    Storage st = s.st;
    std::string where;
    if (!s.began) { R.insert(Status::WARN_NOT_BEGIN); }
    if (r_.chance(8)) {
        st = r_.chance(50) ? gone_ : 0x7fff1234ULL;
        R.insert(Status::WARN_STORAGE_NOT_FOUND);
        if (s.began && s.kind == TT::LONG && s.area) { R.insert(Status::ERR_READ_AREA_VIOLATION); }
        where = " unknown storage";
    }
    std::string l;
    std::string rk;
    auto le = scan_endpoint::INF;
    auto re = scan_endpoint::INF;
    if (r_.chance(10)) {
        (r_.chance(50) ? l : rk) = std::string(30 * 1024 + 1, 'x');
        le = scan_endpoint::INCLUSIVE;
        re = scan_endpoint::INCLUSIVE;
        if (rk.empty()) { rk = "z"; }
        R.insert(Status::WARN_INVALID_KEY_LENGTH);
        where += " long key";
    }
    ScanHandle h{};
    auto rc = open_scan(s.tok, st, l, le, rk, re, h);
    if (answered(s, "open_scan", where, rc, R)) {
        if (is_err(rc) && s.began) { ended(s, false); }
        return;
    }
    if (rc == Status::WARN_PREMATURE && s.kind != TT::SHORT) { return; }
    if (is_err(rc)) {
        if (!may_abort(s, rc)) { unexpected("open_scan", rc, Status::OK); }
        ended(s, false);
        return;
    }
    Scan c;
    c.h = h;
    c.exact = s.kind != TT::READ_ONLY && s.alt.empty();
    for (auto& o : s.own) { // records deleted by this transaction may be shown as not found
        if (s.cur.count(o.first) == 0) { c.exact = false; }
    }
    if (c.exact) {
        auto want = s.cur.empty() ? Status::WARN_NOT_FOUND : Status::OK;
        if (rc != want) {
            unexpected("open_scan", rc, want);
            return;
        }
        for (auto& e : s.cur) { c.items.emplace_back(e); }
    }
    if (rc == Status::OK) { s.scans.push_back(c); }
}

void Prog::use_scan(Sess& s) {
    if (s.waiting) { return; }
    ScanHandle h{};
    Scan* c{};
    bool invalid = false;
    std::string what_h = "live";
    auto x = r_.below(12);
    if (x == 0) {
        invalid = true;
        what_h = "null";
    } else if (x < 3) {
        for (auto& o : ss_) {
            if (o.get() != &s && o->began && !o->waiting && !o->scans.empty()) {
                h = o->scans.front().h;
                invalid = true;
                what_h = "foreign";
                break;
            }
        }
    }
    auto what = r_.weighted({25, 25, 25, 10, 15});
    static char const* names[] = {"next", "read_key_from_scan", "read_value_from_scan", "scannable_total_index_size", "close_scan"};
    if (!invalid && what == 4 && !s.closed.empty() && s.scans.empty() && r_.chance(50)) {
        h = s.closed.back();
        invalid = true;
        what_h = "closed";
    }
    if (!invalid) {
        if (s.scans.empty()) {
            if (s.began) { return; }
            invalid = true; // refused because there is no transaction
            what_h = "null";
        } else {
            c = &s.scans[r_.below(s.scans.size())];
            h = c->h;
        }
    }
    std::set<Status> R;
    if (!s.began) { R.insert(Status::WARN_NOT_BEGIN); }
    if (invalid) { R.insert(Status::WARN_INVALID_HANDLE); }
    std::string out = "untouched";
    std::size_t size{};
    Status rc{};
    switch (what) {
        case 0: rc = next(s.tok, h); break;
        case 1: rc = read_key_from_scan(s.tok, h, out); break;
        case 2: rc = read_value_from_scan(s.tok, h, out); break;
        case 3: rc = scannable_total_index_size(s.tok, h, size); break;
        default: rc = close_scan(s.tok, h); break;
    }
    if (answered(s, names[what], what_h, rc, R)) { return; }
    if (rc == Status::WARN_PREMATURE && s.kind != TT::SHORT) { return; }
    if (is_err(rc)) {
        if (!may_abort(s, rc)) { unexpected(names[what], rc, Status::OK); }
        ended(s, false);
        return;
    }
    if (what == 4) {
        if (rc != Status::OK) { unexpected("close_scan", rc, Status::OK); }
        s.closed.push_back(h);
        s.scans.erase(s.scans.begin() + (c - s.scans.data()));
        return;
    }
    if (what == 3) {
        if (rc != Status::OK) { unexpected(names[what], rc, Status::OK); }
        return;
    }
    if (c->dirty) { c->exact = false; }
    if (what == 0) {
        if (c->at < c->items.size()) { ++c->at; }
        if (c->exact) {
            auto want = c->at < c->items.size() ? Status::OK : Status::WARN_SCAN_LIMIT;
            if (rc != want) { unexpected("next", rc, want); }
        }
        return;
    }
    if (c->exact) {
        auto want = c->at < c->items.size() ? Status::OK : Status::WARN_SCAN_LIMIT;
        if (rc != want) {
            unexpected(names[what], rc, want);
        } else if (rc == Status::OK && out != (what == 1 ? c->items[c->at].first : c->items[c->at].second)) {
            fail(std::string(names[what]) + ":value", "scan returned " + shortkey(out));
        }
    }
}

void Prog::session_calls(Sess& s) {
    if (!s.in) {
        auto rc = enter(s.tok);
        if (answered(s, "enter", "", rc, {})) { return; }
        if (rc != Status::OK) { unexpected("enter", rc, Status::OK); }
        s.in = true;
        return;
    }
    if (r_.chance(20)) {
        std::uint64_t dummy[8]{};
        auto rc = leave(static_cast<Token>(&dummy[0]));
        answered(s, "leave", "garbage", rc, {Status::WARN_INVALID_ARGS});
        return;
    }
    if (r_.chance(60)) { return; }
    if (s.waiting) {
        // leaving waits for the answer: only when nothing it may wait for is open
        for (auto& o : ss_) {
            if (o.get() != &s && o->began) { return; }
        }
    }
    bool w = s.waiting;
    auto rc = leave(s.tok);
    answered(s, "leave", s.began ? "with transaction" : "", rc, {});
    if (rc != Status::OK) { unexpected("leave", rc, Status::OK); }
    if (w) {
        for (int i = 0; i < 100000 && s.answers.load() == 0; ++i) { sleep_us(20); }
        poll(s);
    }
    if (r_.chance(40)) {
        rc = leave(s.tok);
        answered(s, "leave", "again", rc, {Status::WARN_NOT_IN_A_SESSION});
    }
    if (s.began) { ended(s, false); }
    s.in = false;
    if (r_.chance(50)) { verify(s); }
}

void Prog::state_calls(Sess& s) {
    auto what = r_.below(4);
    if (what == 0) {
        if (s.waiting) { return; }
        TxStateHandle h{undefined_handle};
        auto rc = acquire_tx_state_handle(s.tok, h);
        std::set<Status> R;
        if (!s.began) {
            R.insert(Status::WARN_NOT_BEGIN);
        } else if (s.tsh != undefined_handle) {
            R.insert(Status::WARN_ALREADY_EXISTS);
        }
        if (answered(s, "acquire_tx_state_handle", "", rc, R)) {
            if (rc == Status::WARN_ALREADY_EXISTS && h != s.tsh) { fail("acquire_tx_state_handle:handle", "another handle than before"); }
            return;
        }
        if (rc != Status::OK) {
            unexpected("acquire_tx_state_handle", rc, Status::OK);
            return;
        }
        for (auto& o : ss_) {
            if (o->tsh == h) { fail("acquire_tx_state_handle:twice", "the handle belongs to another transaction"); }
        }
        s.tsh = h;
        return;
    }
    TxStateHandle h = s.tsh;
    std::set<Status> R;
    if (h == undefined_handle || r_.chance(50)) {
        h = s.released.empty() || r_.chance(20) ? (r_.chance(50) ? undefined_handle : TxStateHandle(0x7fffffff0000ULL)) : r_.pick(s.released);
        for (auto& o : ss_) {
            if (h == o->tsh && h != undefined_handle) { return; } // handed out again
        }
        R.insert(Status::WARN_INVALID_HANDLE);
    }
    if (what == 1) {
        auto rc = release_tx_state_handle(h);
        if (answered(s, "release_tx_state_handle", "", rc, R)) { return; }
        if (rc != Status::OK) { unexpected("release_tx_state_handle", rc, Status::OK); }
        s.released.push_back(h);
        s.tsh = undefined_handle;
    } else {
        TxState t;
        auto rc = check_tx_state(h, t);
        if (answered(s, "check_tx_state", "", rc, R)) { return; }
        if (rc != Status::OK) { unexpected("check_tx_state", rc, Status::OK); }
    }
}

void Prog::misc(Sess& s) {
    switch (r_.below(6)) {
        case 0: {
            bool out{};
            std::set<Status> R;
            if (s.waiting) { return; }
            if (!s.began) {
                R.insert(Status::WARN_NOT_BEGIN);
            } else if (s.kind != TT::LONG) {
                R.insert(Status::WARN_INVALID_ARGS);
            }
            auto rc = check_ltx_is_highest_priority(s.tok, out);
            if (answered(s, "check_ltx_is_highest_priority", "", rc, R)) { return; }
            if (rc != Status::OK) { unexpected("check_ltx_is_highest_priority", rc, Status::OK); }
            return;
        }
        case 1: {
            if (s.waiting) { return; }
            std::string id = "untouched";
            auto rc = get_tx_id(s.tok, id);
            std::set<Status> R;
            if (!s.began) { R.insert(Status::WARN_NOT_BEGIN); }
            if (answered(s, "get_tx_id", "", rc, R)) { return; }
            if (rc != Status::OK) { unexpected("get_tx_id", rc, Status::OK); }
            return;
        }
        case 2: {
            if (s.waiting) { return; }
            std::set<Status> R;
            if (!s.began) { R.insert(Status::WARN_NOT_BEGIN); }
            if (s.began && s.kind == TT::READ_ONLY) { return; } // not documented
            auto ver = static_cast<SequenceVersion>(r_.below(10) + 1);
            if (s.began && s.seqs.count(seq_) != 0 && s.seqs[seq_] >= ver) { R.insert(Status::WARN_ALREADY_EXISTS); }
            auto rc = update_sequence(s.tok, seq_, ver, 1);
            if (answered(s, "update_sequence", std::to_string(ver), rc, R)) { return; }
            if (rc != Status::OK) {
                unexpected("update_sequence", rc, Status::OK);
                return;
            }
            s.seqs[seq_] = ver;
            return;
        }
        case 3: {
            auto rc = init({}, nullptr);
            answered(s, "init", "while running", rc, {Status::WARN_ALREADY_INIT});
            return;
        }
        case 4: {
            std::ostringstream o;
            print_diagnostics(o);
            std::size_t n = 0;
            for (auto& x : ss_) { n += x->began && !x->waiting ? 1 : 0; }
            std::size_t m = 0;
            for (auto& x : ss_) { m += x->began ? 1 : 0; }
            auto t = o.str();
            auto at = t.find("number of running tx: ");
            if (at == std::string::npos) { return; }
            std::size_t got = std::stoul(t.substr(at + 22));
            ++calls_;
            note("print_diagnostics -> " + std::to_string(got));
            if (got < n || got > m) {
                fail("print_diagnostics:count", "diagnostics show " + std::to_string(got) + " running transactions instead of " + std::to_string(n));
            }
            return;
        }
        default: {
            // the result information of a transaction that runs or committed shows no failure
            if (!s.in || s.waiting) { return; }
            auto ri = transaction_result_info(s.tok);
            if (s.began && ri && ri->get_reason_code() != reason_code::UNKNOWN) {
                fail("result_info:running", "a running transaction shows an abort reason");
            }
            return;
        }
    }
}

void Prog::step() {
    progress();
    auto& s = *ss_[r_.below(ss_.size())];
    poll(s);
    if (!s.in) {
        session_calls(s);
        return;
    }
    switch (r_.weighted({s.began ? 5U : 40U, 40, 8, 18, s.began ? 7U : 3U, 5, 8, 7})) {
        case 0: begin(s); return;
        case 1: data(s); return;
        case 2: scan(s); return;
        case 3: use_scan(s); return;
        case 4: end(s); return;
        case 5: session_calls(s); return;
        case 6: state_calls(s); return;
        default: misc(s); return;
    }
}

void Prog::finish() {
    // older ones first: a waiting commit may depend on transactions that are still open
    for (auto& s : ss_) {
        poll(*s);
        if (s->began && !s->waiting) {
            auto rc = abort(s->tok);
            if (rc != Status::OK && !bad_) { unexpected("abort", rc, Status::OK); }
            ended(*s, false);
        }
    }
    for (auto& s : ss_) {
        for (int i = 0; i < 400000 && s->waiting && s->answers.load() == 0; ++i) { sleep_us(50); }
        if (s->waiting && s->answers.load() == 0) { fail("commit:no_answer", "a commit request is not answered although nothing else runs"); }
        poll(*s);
        if (s->began) { abort(s->tok); }
    }
    for (auto& s : ss_) {
        if (!bad_) { verify(*s); }
        if (s->in) { leave(s->tok); }
    }
}

void drive() {
    auto cases = static_cast<int>(args.cases);
    auto per = static_cast<int>(args.num("per", 60));
    auto only = args.num("only", -1);
    // one engine serves a number of programs
    for (int g = 0; g * per < cases; ++g) {
        if (only >= 0 && only / per != g) { continue; }
        Rng gr(mix(args.seed, static_cast<std::uint64_t>(g) + 77));
        auto cfg = random_cfg(gr);
        cfg.bypass = false;
        cfg.bypass_root = false;
        auto loc = fresh_location();
        if (auto s = start_engine(cfg, loc); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s)); }
        for (int i = g * per; i < std::min(cases, (g + 1) * per); ++i) {
            if (only >= 0 && i != only) { continue; }
            Rng r(mix(args.seed, static_cast<std::uint64_t>(i) + 1));
            auto rp = "misuse --seed " + std::to_string(args.seed) + " --cases " + std::to_string(i + 1) + " --per " + std::to_string(per) +
                      " --only " + std::to_string(i);
            set_case(rp + " " + cfg.str());
            Prog p(r, rp + " [" + cfg.str() + "]", cfg.iscan);
            p.run(static_cast<int>(r.range(60, 260)));
            res.eval();
            if (res.want_sample()) { res.sample(rp); }
        }
        stop_engine(gr.chance(50));
        // invalid configuration is refused while nothing runs
        database_options o;
        o.set_open_mode(database_options::open_mode::MAINTENANCE);
        if (auto s = init(o); s != Status::ERR_INVALID_CONFIGURATION) {
            res.violation("misuse", "init:maintenance", "init in maintenance mode returned " + sstr(s), "misuse");
        }
    }
}

Register reg("misuse", drive);

} // namespace
} // namespace vh
