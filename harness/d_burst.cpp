// Many small commits of long and short transactions within one epoch, with readers left open across them.
#include "par.h"

#include <array>
#include <memory>
#include <optional>

namespace vh {

namespace {

using TT = transaction_options::transaction_type;

using Val = std::optional<std::string>;

/// one client issues everything, so the contents are known at every moment
class World {
public:
    World(Rng& r, std::string rp) : r_(r), rp_(std::move(rp)) {}

    void up() {
        if (create_storage("p", p_) != Status::OK || create_storage("o", o_) != Status::OK) { throw HarnessError("create_storage"); }
        for (auto* t : {&w_[0], &w_[1], &w_[2], &rd_[0].t, &rd_[1].t, &l_, &l2_}) {
            if (auto rc = enter(*t); rc != Status::OK) { engine_failed("enter", "enter " + sstr(rc)); }
        }
    }
    void down() {
        for (auto* t : {&w_[0], &w_[1], &w_[2], &rd_[0].t, &rd_[1].t, &l_, &l2_}) { leave(*t); }
    }
    bool bad() const { return bad_; }

    void run(int steps) {
        log_.clear();
        sig_ = 0;
        for (int i = 0; i < steps && !bad_; ++i) { step(); }
        for (auto& x : rd_) { end(x); }
        if (long_) { long_commit(); }
        res.eval();
        res.distinct(sig_);
        if (res.want_sample()) { res.sample(history()); }
    }

private:
    static constexpr std::array<char const*, 3> keys{"x", "y", "z"};
    struct Reader {
        Token t{};
        bool open{false};
        bool dead{false};
        std::array<bool, 3> seen{};
        std::array<Val, 3> val{};
    };

    std::string history() const {
        std::string h;
        for (auto& s : log_) { h += " " + s; }
        return h;
    }
    void note(std::string const& s) {
        auto e = now_epoch();
        log_.push_back(s + "@" + std::to_string(e));
        sig_ = mix(mix(sig_, hash_str(s)), e == last_ ? 1 : 2);
        if (e == last_) { res.count("steps_within_an_epoch"); }
        last_ = e;
    }
    void fail(std::string const& key, std::string const& text) {
        res.violation("ser", key, text + " " + rp_ + "\nhistory:" + history(), rp_);
        bad_ = true;
    }
    void begin(Token t, TT k, std::vector<Storage> wp = {}) {
        if (auto rc = tx_begin({t, k, std::move(wp)}); rc != Status::OK) { engine_failed("tx_begin", "tx_begin " + sstr(rc) + " " + rp_); }
    }

    void step() {
        switch (r_.weighted({22, 18, 10, 34, 14, 6})) {
            case 0: return warm(r_.below(3));
            case 1: return write(r_.below(3));
            case 2: return long_ ? (r_.chance(60) ? long_commit() : void()) : long_begin();
            case 3: return read(rd_[r_.below(2)]);
            case 4: return end(rd_[r_.below(2)]);
            default: return around_long();
        }
    }

    /// a long commit read by one and overwritten by others at once, after commits elsewhere in its epoch
    void around_long() {
        auto i = r_.below(3);
        bool two = !long_ && r_.chance(60);
        if (two) { begin(l2_, TT::LONG, {o_}); }
        if (!long_) {
            for (auto j = r_.below(4); j > 0; --j) { // transaction numbers nobody uses
                begin(l_, TT::LONG);
                abort(l_);
            }
            long_begin();
        }
        await_long();
        if (two) { // another long one leaves its number at the record the writer goes on with
            std::string dummy;
            for (auto e = now_epoch(); upsert(l2_, o_, "w" + std::to_string(i), "v") == Status::WARN_PREMATURE;) {
                if (now_epoch() > e + 5000) { engine_failed("premature", "a long transaction does not start while epochs pass " + rp_); }
            }
            note("other_long:" + sstr(commit_long(l2_)));
        }
        for (auto j = r_.below(7); j > 0; --j) { warm(i); }
        long_commit();
        auto& x = rd_[r_.below(2)];
        read(x);
        if (r_.chance(40)) { read(x); }
        write(r_.chance(75) ? i : r_.below(3));
        if (r_.chance(30)) { write(r_.below(3)); }
        if (r_.chance(30)) { read(x); }
        end(x);
    }

    /// a commit elsewhere
    void warm(std::size_t i) {
        begin(w_[i], TT::SHORT);
        if (r_.chance(80)) { upsert(w_[i], o_, "w" + std::to_string(i), "v"); }
        auto rc = commit(w_[i]);
        note("warm" + std::to_string(i) + ":" + sstr(rc));
    }

    /// the same value into every key; z may get deleted instead
    template<class F>
    bool put_all(Token t, std::array<Val, 3>& next, F put) {
        auto v = std::to_string(++n_);
        bool del = r_.chance(20);
        for (int k = 0; k < 3; ++k) {
            if (k == 2 && del && cur_[2]) {
                if (delete_record(t, p_, keys[2]) != Status::OK) { return false; }
                next[2].reset();
                continue;
            }
            if (!put(keys[k], v)) { return false; }
            next[k] = v;
        }
        return true;
    }
    void write(std::size_t i) {
        begin(w_[i], TT::SHORT);
        auto next = cur_;
        bool ok = put_all(w_[i], next, [&](char const* k, std::string const& v) { return upsert(w_[i], p_, k, v) == Status::OK; });
        if (!ok) {
            abort(w_[i]);
            note("write" + std::to_string(i) + ":refused");
            return;
        }
        auto rc = commit(w_[i]);
        note("write" + std::to_string(i) + ":" + sstr(rc) + "=" + std::to_string(n_));
        if (rc == Status::OK) {
            cur_ = next;
            meanwhile_ = true;
            res.count("short_commits");
            if (now_epoch() == long_epoch_) { res.count("short_after_long_within_an_epoch"); }
        }
    }

    void long_begin() {
        begin(l_, TT::LONG, {p_});
        long_ = true;
        meanwhile_ = false;
        note("long_begin");
    }
    void await_long() {
        std::string dummy;
        for (auto e = now_epoch(); search_key(l_, o_, "none", dummy) == Status::WARN_PREMATURE;) {
            if (now_epoch() > e + 5000) { engine_failed("premature", "a long transaction does not start while epochs pass " + rp_); }
            sleep_us(20);
        }
    }
    Status commit_long(Token t) {
        auto a = std::make_shared<std::atomic<int>>(1000000);
        commit(t, [a](Status st, reason_code, durability_marker_type) { a->store(static_cast<int>(st)); });
        for (auto e = now_epoch(); a->load() == 1000000;) {
            if (now_epoch() > e + 20000) { engine_failed("no_answer", "a commit request stays unanswered while epochs pass " + rp_); }
        }
        return static_cast<Status>(a->load());
    }
    void long_commit() {
        auto next = cur_;
        await_long();
        bool ok = put_all(l_, next, [&](char const* k, std::string const& v) { return upsert(l_, p_, k, v) == Status::OK; });
        long_ = false;
        if (!ok) {
            abort(l_);
            note("long:refused");
            return;
        }
        auto rc = commit_long(l_);
        note("long:" + sstr(rc) + "=" + std::to_string(n_));
        if (rc == Status::OK) {
            // short transactions that committed meanwhile may stand behind it
            if (!meanwhile_ || newest() == next) {
                cur_ = next;
            } else if (!bad_ && newest() != cur_) {
                fail("mixed", "after a long and short transactions, each writing all keys, the contents are those of none of them");
            } else {
                res.count("long_behind_short");
            }
            long_epoch_ = now_epoch();
            res.count("long_commits");
        }
    }
    std::array<Val, 3> newest() {
        std::array<Val, 3> got{};
        for (int i = 0; i < 1000; ++i) {
            begin(l_, TT::SHORT);
            bool ok = true;
            for (int k = 0; k < 3 && ok; ++k) {
                std::string v;
                got[k].reset();
                auto rc = search_key(l_, p_, keys[k], v);
                if (rc == Status::OK) { got[k] = v; }
                ok = rc == Status::OK || rc == Status::WARN_NOT_FOUND;
            }
            if (ok) {
                if (commit(l_) == Status::OK) { return got; }
            } else {
                abort(l_);
            }
        }
        engine_failed("probe", "a short transaction without anything beside it does not commit " + rp_);
        return got;
    }

    void read(Reader& x) {
        if (!x.open) {
            begin(x.t, TT::SHORT);
            x.open = true;
            x.dead = false;
            x.seen = {};
        }
        if (x.dead) { return; }
        auto k = r_.below(3);
        Status rc{};
        std::string v;
        Val got;
        if (r_.chance(70)) {
            rc = search_key(x.t, p_, keys[k], v);
            if (rc == Status::OK) { got = v; }
        } else {
            ScanHandle h{};
            rc = open_scan(x.t, p_, keys[k], scan_endpoint::INCLUSIVE, keys[k], scan_endpoint::INCLUSIVE, h);
            if (rc == Status::OK) {
                std::string key;
                rc = read_key_from_scan(x.t, h, key);
                if (rc == Status::OK) { rc = read_value_from_scan(x.t, h, v); }
                if (rc == Status::OK) { got = v; }
                if (static_cast<int>(rc) <= 0) { close_scan(x.t, h); }
                if (rc == Status::WARN_SCAN_LIMIT) { rc = Status::WARN_NOT_FOUND; }
            }
        }
        auto who = &x == rd_.data() ? std::string("r0.") : std::string("r1.");
        if (static_cast<int>(rc) > 0) {
            x.dead = true;
            x.open = false;
            note(who + keys[k] + ":" + sstr(rc));
            return;
        }
        if (rc != Status::OK && rc != Status::WARN_NOT_FOUND) {
            note(who + keys[k] + ":" + sstr(rc)); // no answer about the key
            return;
        }
        note(who + keys[k] + "=" + got.value_or("none"));
        res.count("reads");
        if (x.seen[k] && x.val[k] != got) { x.dead = false; } // has to abort
        else { x.val[k] = got; }
        x.seen[k] = true;
    }

    void end(Reader& x) {
        if (!x.open) { return; }
        x.open = false;
        if (r_.chance(30)) { upsert(x.t, o_, "r", "v"); }
        auto rc = commit(x.t);
        note((&x == rd_.data() ? "r0:" : "r1:") + sstr(rc));
        if (rc != Status::OK) {
            res.count("readers_aborted");
            return;
        }
        res.count("readers_committed");
        for (int k = 0; k < 3; ++k) {
            if (x.seen[k] && x.val[k] != cur_[k]) {
                return fail("stale_commit", std::string("a short transaction committed although ") + keys[k] + ", which it read as " +
                                                    x.val[k].value_or("none") + ", had been changed to " + cur_[k].value_or("none"));
            }
        }
    }

    Rng& r_;
    std::string rp_;
    Storage p_{}, o_{};
    std::array<Token, 3> w_{};
    std::array<Reader, 2> rd_{};
    Token l_{}, l2_{};
    bool long_{false};
    bool meanwhile_{false}; ///< short transactions committed since the long one began
    std::array<Val, 3> cur_{};
    std::uint64_t n_{0};
    std::uint64_t last_{0};
    std::uint64_t long_epoch_{0};
    std::uint64_t sig_{0};
    std::vector<std::string> log_;
    bool bad_{false};
};

void drive() {
    auto only = args.num("only", -1);
    for (std::uint64_t g = 0; g < args.cases; ++g) {
        if (only >= 0 && g != static_cast<std::uint64_t>(only)) { continue; }
        Rng r(mix(args.seed, g + 17));
        auto cfg = random_cfg(r);
        cfg.bypass = false;
        static const std::vector<std::size_t> ep{1000, 3000, 8000};
        cfg.epoch_us = r.pick(ep);
        auto rp = "burst --seed " + std::to_string(args.seed) + " --cases " + std::to_string(g + 1) + " --only " + std::to_string(g) + " " + cfg.str();
        set_case(rp);
        auto loc = fresh_location();
        standin::discard_log.store(true);
        if (auto rc = start_engine(cfg, loc); rc != Status::OK) { engine_failed("init", "init " + sstr(rc)); }
        {
            World w(r, rp);
            w.up();
            for (int i = 0; i < 2 && !w.bad(); ++i) { w.run(static_cast<int>(args.num("steps", 60))); }
            w.down();
        }
        stop_engine();
        standin::disk_erase(loc);
    }
}

Register reg_burst("burst", drive);

} // namespace
} // namespace vh
