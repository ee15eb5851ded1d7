// Logical time under idle, open, long-running and waiting transactions: progress, freshness and order of snapshots.
#include "par.h"

#include <algorithm>
#include <memory>

namespace vh {

namespace {

using TT = transaction_options::transaction_type;

/// epochs after which a commit has to be in a new snapshot, and a transaction has to be started
constexpr std::uint64_t bound = 4;

struct Answer {
    std::atomic<int> st{1000000};
    bool there() const { return st.load() != 1000000; }
    Status get() const { return static_cast<Status>(st.load()); }
};

/// a transaction somebody leaves open
struct Held {
    Token t{};
    TT k{};
    std::uint64_t begun{0}; ///< epoch before its begin, or of the oldest long one it may stand before
    bool on_a{false};       ///< may write the observed storage
    bool waiting{false};    ///< commit requested
    std::shared_ptr<Answer> ans;
    std::uint64_t ret{0}; ///< epoch after its begin
};

class World {
public:
    World(Rng& r, std::string rp) : r_(r), rp_(std::move(rp)) {}

    void up() {
        if (create_storage("a", a_) != Status::OK || create_storage("b", b_) != Status::OK || create_storage("hot", hot_) != Status::OK ||
            create_storage("probe", probe_) != Status::OK) {
            throw HarnessError("create_storage");
        }
        enter_or_stop(me_);
        enter_or_stop(rd_);
    }

    void fail(std::string const& key, std::string const& text) {
        std::string h;
        for (auto& s : log_) { h += " " + s; }
        res.violation("time", key, text + " " + rp_ + "\nbefore:" + h, rp_);
        bad_ = true;
    }
    bool bad() const { return bad_; }

    void run(int steps) {
        sig_ = 0;
        log_.clear();
        std::atomic<bool> stop{false};
        std::vector<std::thread> ts;
        auto hammer = r_.below(3);
        bool define = r_.chance(25);
        // a start waits for calls of short transactions under way, and those may be delayed
        start_bound_ = hammer == 0 && !define ? bound : 1000;
        for (std::size_t i = 0; i < hammer; ++i) { ts.emplace_back([this, &stop, s = r_.next()] { hammering(stop, s); }); }
        if (r_.chance(50)) {
            ts.emplace_back([this, &stop, s = r_.next()] { watching(stop, s); });
            ts.emplace_back([this, &stop, s = r_.next()] { watching(stop, s); });
        }
        if (define) {
            ts.emplace_back([this, &stop, s = r_.next()] { defining(stop, s); });
        }
        bool stall = r_.chance(20);
        standin::stall_durability.store(stall);
        try {
            Noise noise(r_);
            for (int i = 0; i < steps && !bad_; ++i) {
                progress();
                step();
            }
            // everything ends; from now on nothing may keep time or snapshots back
            while (!held_.empty() && !bad_) { finish(0); }
            if (!bad_) { advance(bound + 1); }
            if (!bad_) { probe(TT::READ_ONLY); }
        } catch (...) {
            stop.store(true);
            for (auto& t : ts) { t.join(); }
            standin::stall_durability.store(false);
            throw;
        }
        stop.store(true);
        for (auto& t : ts) { t.join(); }
        standin::stall_durability.store(false);
        if (stall) { res.count("cases_with_stalled_log"); }
        if (auto s = back_.exchange(0); s != 0 && !bad_) {
            fail("snapshot_back", "a read-only transaction begun after another one had read saw the older value " + std::to_string(s - 1));
        }
        res.eval();
        res.distinct(sig_);
        if (res.want_sample()) {
            std::string h;
            for (auto& s : log_) { h += " " + s; }
            res.sample(h);
        }
    }
    void down() {
        for (auto& h : held_) { leave(h.t); }
        held_.clear();
        leave(me_);
        leave(rd_);
    }

private:
    void note(std::string const& s) {
        log_.push_back(s);
        sig_ = mix(sig_, hash_str(s.substr(0, s.find('@'))));
    }
    static void enter_or_stop(Token& t) {
        if (auto rc = enter(t); rc != Status::OK) { engine_failed("enter", "enter " + sstr(rc)); }
    }
    void advance(std::uint64_t n) {
        if (!wait_epochs(n)) { fail("stands_still", "no " + std::to_string(n) + " epochs pass"); }
        res.count("epochs_waited", n);
    }

    void step() {
        switch (r_.weighted({18, 8, 18, 12, 22, 8, 4})) {
            case 0: return hold();
            case 1:
                if (!held_.empty()) { finish(r_.below(held_.size())); }
                return;
            case 2: return put(TT::SHORT);
            case 3: return put(TT::LONG);
            case 4: {
                advance(static_cast<std::uint64_t>(r_.range(1, 8)));
                if (!bad_) { probe(r_.chance(75) ? TT::READ_ONLY : TT::LONG); }
                return;
            }
            case 5: return started();
            default: {
                Token t{};
                enter_or_stop(t);
                note("enter_leave");
                leave(t);
            }
        }
    }

    /// leaves some transaction open
    void hold() {
        if (held_.size() >= 12) { return; }
        Held h;
        enter_or_stop(h.t);
        h.k = r_.pick(std::vector<TT>{TT::SHORT, TT::SHORT, TT::READ_ONLY, TT::READ_ONLY, TT::LONG, TT::LONG});
        h.begun = now_epoch();
        std::vector<Storage> wp;
        if (h.k == TT::LONG) {
            if (r_.chance(70)) { wp.push_back(b_); }
            h.on_a = r_.chance(20);
            if (h.on_a) { wp.push_back(a_); }
            for (auto& o : held_) {
                if (o.k == TT::LONG) { h.begun = std::min(h.begun, o.begun); }
            }
        }
        if (auto rc = tx_begin({h.t, h.k, wp}); rc != Status::OK) { engine_failed("tx_begin", "tx_begin " + sstr(rc) + " " + rp_); }
        h.ret = now_epoch();
        std::string what = h.k == TT::SHORT ? "hold_short" : h.k == TT::LONG ? (h.on_a ? "hold_long_a" : "hold_long") : "hold_ro";
        res.count(what);
        if (h.k == TT::SHORT) {
            std::string v;
            ScanHandle sh{};
            switch (r_.below(5)) {
                case 0: search_key(h.t, b_, "k", v); break;
                case 1: open_scan(h.t, b_, "", scan_endpoint::INF, "", scan_endpoint::INF, sh); break;
                case 2: upsert(h.t, hot_, "held", "x"); break;
                case 3: insert(h.t, hot_, "held" + std::to_string(++n_), "x"); break;
                default: break;
            }
        }
        note(what + "@" + std::to_string(h.begun));
        held_.push_back(h);
    }

    /// ends a held transaction
    void finish(std::size_t i) {
        auto& h = held_[i];
        auto how = r_.below(3);
        if (h.k == TT::LONG && how == 0 && !h.waiting) {
            // a commit request may have to wait for older ones
            await_start(h);
            if (bad_) { return; }
            std::string v;
            if (r_.chance(60)) { search_key(h.t, b_, "k", v); }
            upsert(h.t, b_, "w" + std::to_string(++n_), "x");
            auto a = std::make_shared<Answer>();
            h.ans = a;
            h.waiting = true;
            if (!commit(h.t, [a](Status rc, reason_code, durability_marker_type) { a->st.store(static_cast<int>(rc)); })) { res.count("commits_waiting"); }
            note("request");
            return;
        }
        if (h.waiting) {
            bool older = false;
            for (auto& o : held_) { older = older || (&o != &h && o.k == TT::LONG && o.ret <= h.ret); }
            if (older && !h.ans->there()) { // it may wait for them
                note("still_waiting");
                if (i == 0) { std::rotate(held_.begin(), held_.begin() + 1, held_.end()); }
                return;
            }
            for (auto e = now_epoch(); !h.ans->there();) {
                if (now_epoch() > e + 20000) { return fail("no_answer", "a commit request stays unanswered while epochs pass"); }
                sleep_us(20);
            }
            note("answer_" + sstr(h.ans->get()));
            leave(h.t);
        } else if (how == 1 && h.k != TT::LONG) {
            if (h.k == TT::READ_ONLY) { await_start(h); }
            if (bad_) { return; }
            auto rc = commit(h.t);
            note("end_commit_" + sstr(rc));
            leave(h.t);
        } else if (how == 2) {
            note("end_leave");
            leave(h.t);
        } else {
            auto rc = abort(h.t);
            note("end_abort_" + sstr(rc));
            leave(h.t);
        }
        if (h.k == TT::LONG) { ended_.push_back({h.begun, now_epoch()}); }
        held_.erase(held_.begin() + static_cast<std::ptrdiff_t>(i));
    }

    void await_start(Held& h) {
        for (;;) {
            std::string v;
            auto e = now_epoch();
            auto rc = search_key(h.t, probe_, "nokey", v);
            if (rc != Status::WARN_PREMATURE) { return; }
            res.count("premature_answers");
            if (e > h.ret + start_bound_) {
                return fail("premature", std::string(h.k == TT::LONG ? "a long" : "a read-only") + " transaction begun in epoch " + std::to_string(h.ret) +
                                                 " is not started in epoch " + std::to_string(e));
            }
            sleep_us(30);
        }
    }
    /// long and read-only transactions start a few epochs after their begin whatever else is open
    void started() {
        for (auto& h : held_) {
            if (h.k == TT::SHORT || h.waiting) { continue; }
            auto e = now_epoch();
            if (e <= h.ret + bound) { advance(bound + 1); }
            if (bad_) { return; }
            await_start(h);
            if (bad_) { return; }
            res.count(start_bound_ == bound ? "starts_checked" : "starts_checked_under_load");
        }
        note("started");
    }

    /// commits the next value of the counter
    void put(TT k) {
        bool others = std::any_of(held_.begin(), held_.end(), [](Held const& h) { return h.on_a; });
        if (others) { return; }
        auto next = value_ + 1;
        Held h;
        h.t = me_;
        h.k = k;
        h.begun = now_epoch();
        if (auto rc = tx_begin({me_, k, k == TT::LONG ? std::vector<Storage>{a_} : std::vector<Storage>{}}); rc != Status::OK) {
            engine_failed("tx_begin", "tx_begin " + sstr(rc) + " " + rp_);
        }
        h.ret = now_epoch();
        Status rc{};
        if (k == TT::SHORT) {
            upsert(me_, a_, "n", std::to_string(next));
            rc = commit(me_);
        } else {
            await_start(h);
            if (bad_) { return; }
            upsert(me_, a_, "n", std::to_string(next));
            auto a = std::make_shared<Answer>();
            commit(me_, [a](Status st, reason_code, durability_marker_type) { a->st.store(static_cast<int>(st)); });
            for (auto e = now_epoch(); !a->there();) {
                if (now_epoch() > e + 20000) { return fail("no_answer", "a commit request stays unanswered while epochs pass"); }
                sleep_us(20);
            }
            rc = a->get();
        }
        if (rc == Status::OK) {
            value_ = next;
            puts_.push_back({next, now_epoch()});
            res.count(k == TT::SHORT ? "puts_short" : "puts_long");
        } else {
            res.count("puts_aborted");
        }
        note((k == TT::SHORT ? "put_short_" : "put_long_") + sstr(rc) + "@" + std::to_string(now_epoch()));
    }

    /// newest value a transaction begun now has to include
    std::uint64_t due(std::uint64_t now) {
        std::uint64_t v = 0;
        for (auto& p : puts_) {
            if (p.second + bound > now) { break; }
            bool hidden = false;
            for (auto& h : held_) { hidden = hidden || (h.k == TT::LONG && h.begun <= p.second); }
            for (auto& e : ended_) { hidden = hidden || (e.first <= p.second && e.second + bound > now); }
            if (!hidden) { v = p.first; }
        }
        return v;
    }

    void probe(TT k) {
        auto e = now_epoch();
        auto want = due(e);
        Held h;
        h.t = rd_;
        h.k = k;
        if (auto rc = tx_begin({rd_, k}); rc != Status::OK) { engine_failed("tx_begin", "tx_begin " + sstr(rc) + " " + rp_); }
        h.ret = now_epoch();
        await_start(h);
        if (bad_) { return; }
        std::string s;
        auto rc = search_key(rd_, a_, "n", s);
        abort(rd_);
        if (rc != Status::OK && rc != Status::WARN_NOT_FOUND) { return fail("probe:" + sstr(rc), "a read-only or long transaction is refused a read"); }
        auto v = rc == Status::OK ? std::stoull(s) : 0ULL;
        if (k == TT::LONG) { ended_.push_back({e, now_epoch()}); }
        note((k == TT::LONG ? "probe_long_" : "probe_ro_") + std::to_string(value_ - v) + "@" + std::to_string(e));
        if (v < want) {
            std::string open;
            for (auto& x : held_) { open += (x.k == TT::LONG ? " long" : x.k == TT::SHORT ? " short" : " ro") + std::string("@") + std::to_string(x.begun); }
            return fail(std::string("stale_") + (k == TT::LONG ? "long" : "read_only"), "begun in epoch " + std::to_string(e) + " reads " + std::to_string(v) + " but " +
                                                                                              std::to_string(want) + " was committed long before; open:" + open);
        }
        if (v > value_) { return fail("future", "reads a value never committed"); }
        if (want == 0) { return; }
        res.count("freshness_checked");
        bool any[3] = {false, false, false};
        for (auto& x : held_) { any[x.k == TT::SHORT ? 0 : x.k == TT::LONG ? 1 : 2] = true; }
        if (any[0]) { res.count("fresh_with_short_open"); }
        if (any[1] && want == value_) { res.count("fresh_with_younger_long_open"); }
        if (any[1] && want != value_) { res.count("fresh_with_older_long_open"); }
        if (any[2]) { res.count("fresh_with_read_only_open"); }
        if (k == TT::READ_ONLY) {
            if (v < last_) { return fail("snapshot_back", "reads " + std::to_string(v) + " after " + std::to_string(last_) + " was read"); }
            last_ = v;
        }
    }

    /// commits as fast as possible
    void hammering(std::atomic<bool>& stop, std::uint64_t seed) {
        Rng r(seed);
        Token t{};
        if (enter(t) != Status::OK) { return; }
        std::uint64_t n = 0;
        while (!stop.load()) {
            tx_begin({t});
            upsert(t, hot_, "h" + std::to_string(r.below(3)), "v");
            commit(t);
            ++n;
        }
        leave(t);
        res.count("hammered", n);
    }
    /// read-only transactions in other sessions: what one of them has read, later ones see
    void watching(std::atomic<bool>& stop, std::uint64_t /*seed*/) {
        Token t{};
        if (enter(t) != Status::OK) { return; }
        std::uint64_t n = 0;
        while (!stop.load()) {
            auto m = seen_.load();
            tx_begin({t, TT::READ_ONLY});
            std::string s;
            auto rc = Status::WARN_PREMATURE;
            while (rc == Status::WARN_PREMATURE && !stop.load()) {
                rc = search_key(t, a_, "n", s);
                if (rc == Status::WARN_PREMATURE) { sleep_us(20); }
            }
            std::uint64_t v = rc == Status::OK ? std::stoull(s) : 0;
            bool sure = rc == Status::OK || rc == Status::WARN_NOT_FOUND;
            if (sure) {
                if (v < m) { back_.store(v + 1); }
                for (auto x = seen_.load(); x < v && !seen_.compare_exchange_weak(x, v);) {}
                ++n;
            }
            commit(t);
        }
        leave(t);
        res.count("watched", n);
    }
    /// storages come and go
    void defining(std::atomic<bool>& stop, std::uint64_t seed) {
        Rng r(seed);
        std::uint64_t n = 0;
        while (!stop.load()) {
            Storage s{};
            if (create_storage("d" + std::to_string(r.below(4)), s) == Status::OK) { delete_storage(s); }
            ++n;
            sleep_us(r.below(2000));
        }
        res.count("definitions", n);
    }

    Rng& r_;
    std::string rp_;
    Token me_{}, rd_{};
    Storage a_{}, b_{}, hot_{}, probe_{};
    std::vector<Held> held_;
    std::vector<std::pair<std::uint64_t, std::uint64_t>> puts_;  ///< value, epoch after its commit
    std::vector<std::pair<std::uint64_t, std::uint64_t>> ended_; ///< long transactions: begun, ended
    std::uint64_t start_bound_{bound};
    std::uint64_t value_{0};
    std::uint64_t last_{0};
    std::uint64_t n_{0};
    std::uint64_t sig_{0};
    std::vector<std::string> log_;
    std::atomic<std::uint64_t> seen_{0};
    std::atomic<std::uint64_t> back_{0}; ///< value seen too late, plus 1
    bool bad_{false};
};

void drive() {
    auto per = static_cast<std::uint64_t>(args.num("per", 4));
    auto only = args.num("only", -1);
    auto groups = (args.cases + per - 1) / per;
    for (std::uint64_t g = 0; g < groups; ++g) {
        if (only >= 0 && g != static_cast<std::uint64_t>(only)) { continue; }
        Rng r(mix(args.seed, g + 5));
        auto cfg = random_cfg(r);
        cfg.bypass = false;
        auto rp = "time --seed " + std::to_string(args.seed) + " --cases " + std::to_string((g + 1) * per) + " --only " + std::to_string(g) + " " + cfg.str();
        set_case(rp);
        auto loc = fresh_location();
        standin::discard_log.store(true);
        auto back = standin::epoch_regressions.load();
        if (auto rc = start_engine(cfg, loc); rc != Status::OK) { engine_failed("init", "init " + sstr(rc)); }
        std::atomic<std::uint64_t> last{0};
        std::atomic<std::uint64_t> wrong{0};
        std::atomic<std::uint64_t> switches{0};
        standin::set_epoch_observer([&](std::uint64_t e) {
            auto l = last.exchange(e);
            if (l != 0 && e != l + 1) { wrong.store(e); }
            ++switches;
        });
        {
            World w(r, rp);
            w.up();
            for (std::uint64_t i = 0; i < per && !w.bad(); ++i) { w.run(static_cast<int>(args.num("steps", 40))); }
            if (wrong.load() != 0) { w.fail("epoch_order", "the epochs announced to the log do not grow one by one, at " + std::to_string(wrong.load())); }
            if (standin::epoch_regressions.load() != back) { w.fail("epoch_back", "the epoch announced to the log went back"); }
            w.down();
        }
        standin::set_epoch_observer({});
        res.count("epoch_switches", switches.load());
        stop_engine();
        standin::disk_erase(loc);
    }
}

Register reg_time("time", drive);

} // namespace
} // namespace vh
