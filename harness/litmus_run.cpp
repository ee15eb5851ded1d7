#include <algorithm>

#include "limestone_monitor.h"
#include "litmus.h"

namespace vh {

void Runner::Worker::loop() {
    std::unique_lock lk{m};
    for (;;) {
        cv.wait(lk, [this] { return stop || job; });
        if (stop) { return; }
        auto f = std::move(job);
        job = nullptr;
        lk.unlock();
        f();
        lk.lock();
        busy.store(false);
        cv.notify_all();
    }
}

void Runner::Worker::post(std::function<void()> f) {
    std::lock_guard lk{m};
    busy.store(true);
    job = std::move(f);
    cv.notify_all();
}

bool Runner::Worker::wait(std::uint64_t us) {
    std::unique_lock lk{m};
    return cv.wait_for(lk, std::chrono::microseconds(us), [this] { return !busy.load(); });
}

Runner::Runner(int nst, int nworkers) {
    st_.resize(static_cast<std::size_t>(nst));
    for (int i = 0; i < nworkers; ++i) {
        ws_.push_back(std::make_unique<Worker>());
        auto* w = ws_.back().get();
        w->th = std::thread([w] { w->loop(); });
    }
}

Runner::~Runner() {
    for (auto& w : ws_) {
        {
            std::lock_guard lk{w->m};
            w->stop = true;
            w->cv.notify_all();
        }
        w->th.join();
    }
}

static void must(Status s, char const* what) {
    if (s != Status::OK) { engine_failed(std::string(what) + ":" + sstr(s), std::string(what) + " returned " + sstr(s)); }
}

void Runner::open(std::string const& loc) {
    loc_ = loc;
    for (std::size_t i = 0; i < st_.size(); ++i) {
        auto n = "S" + std::to_string(i);
        if (get_storage(n, st_[i]) == Status::OK) { continue; }
        auto rc = create_storage(n, st_[i]);
        must(rc, "create_storage");
    }
    {
        std::lock_guard lk{notes_m_};
        notes_.clear();
    }
    if (!loc_.empty()) {
        must(register_durability_callback([this](durability_marker_type m) {
                 auto d = standin::current_durable.load();
                 std::lock_guard lk{notes_m_};
                 if (!notes_.empty() && m < notes_.back().marker) {
                     res.violation("durable", "marker_back", "a durability notification carried " + std::to_string(m) + " after " +
                                                                     std::to_string(notes_.back().marker));
                 }
                 notes_.push_back({m, d});
             }),
             "register_durability_callback");
    }
    must(enter(main_), "enter");
    for (auto& w : ws_) { must(enter(w->tok), "enter"); }
}

void Runner::close() {
    for (auto& w : ws_) { leave(w->tok); }
    leave(main_);
}

bool Runner::wait_durable() {
    auto e = now_epoch();
    for (;;) {
        if (standin::disk_durable(loc_) >= e) { return true; }
        sleep_us(40);
        // never by the clock: the log store gets an epoch durable when nobody holds it back
        if (now_epoch() > e + 5000) { return false; }
    }
}

std::string Runner::marker() { return "\x01marker"; }

// reading everything ---------------------------------------------------------------------
static Status scan_all(Token t, Storage st, StMap& out) {
    out.clear();
    ScanHandle h{};
    Status s{};
    for (;;) {
        s = open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
        if (s != Status::WARN_PREMATURE) { break; }
        sleep_us(30);
    }
    if (s == Status::WARN_NOT_FOUND) { return Status::OK; }
    if (s != Status::OK) { return s; }
    for (;;) {
        std::string k;
        std::string v;
        s = read_key_from_scan(t, h, k);
        if (s == Status::OK) { s = read_value_from_scan(t, h, v); }
        if (s == Status::OK) {
            if (!out.emplace(k, v).second) {
                out["DUPLICATE KEY " + k] = v;
            }
        } else if (s != Status::WARN_NOT_FOUND) {
            return s;
        }
        s = next(t, h);
        if (s == Status::WARN_SCAN_LIMIT) { break; }
        if (s != Status::OK) { return s; }
    }
    return close_scan(t, h);
}

static const std::string marker_key = Runner::marker();

bool Runner::setup(Case& c) {
    Status s{};
    std::string how;
    for (int n = 0; n < 400; ++n) {
        if (n > 0) { wait_epochs(1); }
        s = tx_begin({main_, transaction_options::transaction_type::SHORT});
        if (s != Status::OK) { engine_failed("setup:tx_begin:" + sstr(s), "tx_begin in a session without transaction returned " + sstr(s)); }
        for (std::size_t i = 0; i < st_.size() && s == Status::OK; ++i) {
            StMap have;
            s = scan_all(main_, st_[i], have);
            how = "scan";
            if (s != Status::OK) { break; }
            StMap want;
            if (i < c.init.size()) { want = c.init[i]; }
            if (i == st_.size() - 1) { want[marker_key] = std::to_string(c.no); }
            for (auto& e : have) {
                if (want.count(e.first) == 0) {
                    s = delete_record(main_, st_[i], e.first);
                    how = "delete";
                    if (s != Status::OK) { break; }
                }
            }
            if (s != Status::OK) { break; }
            for (auto& e : want) {
                s = upsert(main_, st_[i], e.first, e.second);
                how = "upsert";
                if (s != Status::OK) { break; }
            }
        }
        if (s == Status::OK) {
            how = "commit";
            s = commit(main_);
            if (s == Status::OK) {
                c.init_t = tick();
                return true;
            }
        } else if (!is_err(s)) {
            abort(main_);
        }
        res.count("setup_retries");
        if (n > 20) { sleep_us(2000); }
        progress();
    }
    res.violation("stuck", "setup:" + how + ":" + sstr(s),
                  "after all transactions ended, a lone SHORT transaction rewriting the contents failed 400 "
                  "times; last at " + how + " with " + sstr(s));
    return false;
}

bool Runner::final_read(Case& c, Kind k, std::vector<StMap>& out, std::uint64_t& call) {
    Status s{};
    std::string how;
    for (int n = 0; n < 400; ++n) {
        if (n > 0) { wait_epochs(1); }
        call = tick();
        auto tt = k == Kind::SHORT  ? transaction_options::transaction_type::SHORT
                  : k == Kind::LONG ? transaction_options::transaction_type::LONG
                                    : transaction_options::transaction_type::READ_ONLY;
        s = tx_begin({main_, tt});
        if (s != Status::OK) { engine_failed("final:tx_begin:" + sstr(s), "tx_begin in a session without transaction returned " + sstr(s)); }
        out.assign(static_cast<std::size_t>(c.nst), {});
        how = "scan";
        for (int i = 0; i < c.nst && s == Status::OK; ++i) {
            s = scan_all(main_, st_[static_cast<std::size_t>(i)], out[static_cast<std::size_t>(i)]);
            out[static_cast<std::size_t>(i)].erase(marker_key);
        }
        if (s == Status::OK) {
            how = "commit";
            std::atomic<int> called{0};
            Status cs{};
            commit(main_, [&](Status x, reason_code, durability_marker_type) {
                cs = x;
                called.fetch_add(1);
            });
            while (called.load() == 0) { sleep_us(50); }
            s = cs;
            if (s == Status::OK) { return true; }
        } else if (!is_err(s)) {
            abort(main_);
        }
        res.count("final_retries");
        if (n > 20) { sleep_us(2000); }
        progress();
    }
    res.violation("stuck", "final:" + how + ":" + sstr(s),
                  "after all transactions ended, a lone reading transaction failed 400 times; last at " + how +
                          " with " + sstr(s) + "\n" + describe(c));
    return false;
}

bool Runner::contents(Kind k, std::vector<StMap>& out) {
    Status s{};
    for (int n = 0; n < 400; ++n) {
        s = tx_begin({main_, k == Kind::SHORT ? transaction_options::transaction_type::SHORT
                                              : transaction_options::transaction_type::READ_ONLY});
        if (s != Status::OK) { engine_failed("read:tx_begin:" + sstr(s), "tx_begin returned " + sstr(s)); }
        out.assign(st_.size(), {});
        for (std::size_t i = 0; i < st_.size() && s == Status::OK; ++i) { s = scan_all(main_, st_[i], out[i]); }
        if (s == Status::OK) { s = commit(main_); }
        if (s == Status::OK) { return true; }
        if (!is_err(s)) { abort(main_); }
        wait_epochs(1);
        progress();
    }
    return false;
}

// one transaction ------------------------------------------------------------------------
void Runner::poll_state(Tx& t) {
    if (t.sh == undefined_handle) { return; }
    TxState s{};
    std::lock_guard lk{t.sm};
    auto at = tick();
    auto rc = check_tx_state(t.sh, s);
    if (rc != Status::OK) {
        res.violation("state", "check_tx_state:" + sstr(rc), "check_tx_state of a handle in use returned " + sstr(rc));
        return;
    }
    t.seen[s.state_kind()] = at;
    if (t.states.empty() || t.states.back().second != s.state_kind()) {
        t.states.emplace_back(tick(), s.state_kind());
        if (s.state_kind() == TxState::StateKind::DURABLE) { t.durable_seen = standin::current_durable.load(); }
    }
}

void Runner::ask_priority(Tx& t, Token tok) {
    Tx::Prio q;
    q.c = tick();
    auto rc = check_ltx_is_highest_priority(tok, q.highest);
    q.r = tick();
    if (rc != Status::OK) {
        res.violation("priority", "query:" + sstr(rc), "asking a running LONG transaction for its priority returned " + sstr(rc));
        return;
    }
    t.prio.push_back(q);
}

void Runner::note_abort(Tx& t, Token tok, Out o) {
    t.out_t = tick();
    auto ri = transaction_result_info(tok);
    if (ri) {
        t.have_info = true;
        t.info_reason = ri->get_reason_code();
        t.info_has_key = ri->get_has_key_info();
        t.info_has_st = ri->get_has_storage_name_info();
        t.info_key = std::string(ri->get_key());
        t.info_st = std::string(ri->get_storage_name());
    }
    t.out = o;
}

void Runner::do_op(Tx& t, Token tok, Op const& o, OpRes& r) {
    Storage st = st_[static_cast<std::size_t>(o.st)];
    auto retry = [&](auto&& f) {
        Status s{};
        for (int i = 0; i < 200000; ++i) {
            if (i != 0) { poll_state(t); }
            bool started{false};
            if (t.sh != undefined_handle) {
                std::lock_guard lk{t.sm};
                started = !t.states.empty() && t.states.back().second == TxState::StateKind::STARTED;
            }
            s = f();
            if (s != Status::WARN_PREMATURE) { return s; }
            t.premature_after_start += started ? 1 : 0;
            sleep_us(40);
        }
        return s;
    };
    auto bl = blobs_of(o.val);
    r.c = tick();
    switch (o.t) {
        case OpT::SEARCH: r.s = retry([&] { return search_key(tok, st, o.key, r.val); }); break;
        case OpT::EXIST: r.s = retry([&] { return exist_key(tok, st, o.key); }); break;
        case OpT::INSERT: r.s = retry([&] { return insert(tok, st, o.key, o.val, bl.data(), bl.size()); }); break;
        case OpT::UPDATE: r.s = retry([&] { return update(tok, st, o.key, o.val, bl.data(), bl.size()); }); break;
        case OpT::UPSERT: r.s = retry([&] { return upsert(tok, st, o.key, o.val, bl.data(), bl.size()); }); break;
        case OpT::DELETE: r.s = retry([&] { return delete_record(tok, st, o.key); }); break;
        case OpT::SCAN: {
            auto const& sc = o.sc;
            ScanHandle h{};
            r.s = retry([&] { return open_scan(tok, st, sc.l, sc.le, sc.r, sc.re, h, sc.max, sc.r2l); });
            if (r.s == Status::WARN_NOT_FOUND) {
                r.complete = true;
                break;
            }
            if (r.s != Status::OK) { break; }
            for (;;) {
                if (sc.stop_after >= 0 && static_cast<int>(r.items.size()) >= sc.stop_after) { break; }
                ScanItem it;
                Status s{Status::OK};
                auto rd = [&](auto&& f, bool& has) {
                    for (int i = 0; i < 4; ++i) {
                        s = f();
                        if (s != Status::WARN_CONCURRENT_UPDATE) { break; }
                        sleep_us(20);
                    }
                    has = s == Status::OK;
                };
                if ((sc.read & 1) != 0) {
                    rd([&] { return read_key_from_scan(tok, h, it.key); }, it.has_key);
                }
                if (s == Status::OK && (sc.read & 2) != 0) {
                    rd([&] { return read_value_from_scan(tok, h, it.val); }, it.has_val);
                }
                if (is_err(s)) {
                    r.s = s;
                    break;
                }
                if (s == Status::OK) {
                    r.items.push_back(it);
                } else if (s == Status::WARN_CONCURRENT_UPDATE) {
                    it.gap = !it.has_key;
                    r.items.push_back(it);
                } else if (s != Status::WARN_NOT_FOUND && s != Status::WARN_CONCURRENT_INSERT) {
                    r.s = s;
                    break;
                }
                s = next(tok, h);
                if (s == Status::WARN_SCAN_LIMIT) {
                    r.complete = true;
                    break;
                }
                if (s != Status::OK) {
                    r.s = s;
                    break;
                }
            }
            if (r.s == Status::OK && sc.close) {
                auto s = close_scan(tok, h);
                if (s != Status::OK) { r.s = s; }
            }
            break;
        }
    }
    r.r = tick();
    r.done = true;
    if (is_err(r.s)) { note_abort(t, tok, Out::ABORT_OP); }
}

void Runner::resolve(Tx& t, Token tok) {
    if (t.out != Out::PENDING || t.cb_n.load() == 0) { return; }
    t.commit_ret = t.cb_s;
    res.count("ltx_waited");
    if (t.commit_ret == Status::OK) {
        t.out_t = t.cb_t;
        t.out = Out::COMMITTED;
    } else {
        note_abort(t, tok, Out::ABORT_COMMIT);
    }
}

void Runner::end_tx(Tx& t, Token tok) {
    if (t.user_abort) {
        t.commit_c = 0;
        auto s = abort(tok);
        if (s != Status::OK) {
            res.violation("status", "abort:" + sstr(s), "abort of a running transaction returned " + sstr(s));
        }
        note_abort(t, tok, Out::ABORT_USER);
        return;
    }
    t.commit_c = tick();
    t.commit_ep = now_epoch();
    if (t.use_cb) {
        for (int i = 0; i < 200000; ++i) {
            t.cb_n.store(0);
            t.commit_bool = commit(tok, [&t](Status s, reason_code rc, durability_marker_type m) {
                t.cb_s = s;
                t.cb_reason = rc;
                t.marker = m;
                t.cb_t = tick();
                t.cb_n.fetch_add(1);
            });
            if (t.commit_bool && t.cb_n.load() > 0 && t.cb_s == Status::WARN_PREMATURE) {
                sleep_us(40);
                continue;
            }
            break;
        }
        t.commit_r = tick();
        if (t.commit_bool) {
            if (t.cb_n.load() == 0) {
                res.violation("callback", "none_on_true", "commit returned true but had not called the callback");
                t.out = Out::ABORT_COMMIT;
                return;
            }
            t.commit_ret = t.cb_s;
            if (t.cb_s == Status::OK) {
                t.out_t = t.commit_r;
                t.out = Out::COMMITTED;
            } else {
                note_abort(t, tok, Out::ABORT_COMMIT);
            }
        } else {
            t.out = Out::PENDING;
        }
    } else {
        Status s{};
        for (int i = 0; i < 200000; ++i) {
            s = commit(tok);
            if (s != Status::WARN_PREMATURE) { break; }
            sleep_us(40);
        }
        t.commit_r = tick();
        t.commit_ret = s;
        if (s == Status::OK) {
            t.out_t = t.commit_r;
            t.out = Out::COMMITTED;
        } else {
            note_abort(t, tok, Out::ABORT_COMMIT);
        }
    }
}

void Runner::step(Case& c, Tx& t, Token tok, int pc) {
    if (pc < 0) {
        t.begin_c = tick();
        t.begin_ep = now_epoch();
        if (t.k == Kind::SHORT) {
            t.begin_s = tx_begin({tok, transaction_options::transaction_type::SHORT});
        } else if (t.k == Kind::RTX) {
            t.begin_s = tx_begin({tok, transaction_options::transaction_type::READ_ONLY});
        } else {
            transaction_options::write_preserve_type wp;
            for (auto s : t.wp) { wp.push_back(st_[static_cast<std::size_t>(s)]); }
            transaction_options::read_area ra;
            for (auto s : t.ra_pos) { ra.insert_to_positive_list(st_[static_cast<std::size_t>(s)]); }
            for (auto s : t.ra_neg) { ra.insert_to_negative_list(st_[static_cast<std::size_t>(s)]); }
            t.begin_s = tx_begin({tok, transaction_options::transaction_type::LONG, wp, ra});
        }
        t.begin_r = tick();
        if (t.begin_s != Status::OK) {
            t.out = Out::STALE;
            res.violation("status", "tx_begin:" + sstr(t.begin_s), "tx_begin returned " + sstr(t.begin_s) + "\n" + describe(c));
            return;
        }
        t.id = fresh_tx_id(tok);
        no_abort_reason(tok, "begun");
        if (states_) {
            auto rc = acquire_tx_state_handle(tok, t.sh);
            if (rc != Status::OK) {
                res.violation("state", "acquire:" + sstr(rc), "acquire_tx_state_handle returned " + sstr(rc));
                t.sh = undefined_handle;
            }
            poll_state(t);
        }
        if (t.k == Kind::RTX) {
            std::string v;
            Status s{};
            for (int i = 0; i < 200000; ++i) {
                s = search_key(tok, st_.back(), marker_key, v);
                if (s != Status::WARN_PREMATURE) { break; }
                sleep_us(40);
            }
            if (s != Status::OK || v != std::to_string(c.no)) {
                if (s == Status::OK || s == Status::WARN_NOT_FOUND) {
                    abort(tok);
                } else {
                    res.violation("rtx", "marker_read:" + sstr(s), "read only transaction's search returned " + sstr(s));
                    abort(tok);
                }
                t.out = Out::STALE;
                t.out_t = tick();
                res.count("rtx_stale");
            }
        }
        return;
    }
    if (t.k == Kind::LONG && (c.no + static_cast<std::uint64_t>(pc)) % 3 == 0) { ask_priority(t, tok); }
    t.step_c = tick();
    if (pc < static_cast<int>(t.ops.size())) {
        do_op(t, tok, t.ops[static_cast<std::size_t>(pc)], t.res[static_cast<std::size_t>(pc)]);
    } else {
        std::string id;
        get_tx_id(tok, id);
        if (id != t.id) { res.violation("txid", "changed", "the id of a running transaction changed from " + t.id + " to " + id); }
        end_tx(t, tok);
        if (t.out == Out::COMMITTED) { no_abort_reason(tok, "committed"); }
    }
    poll_state(t);
}

bool Runner::run(Case& c, Profile const& p, Rng& r) {
    states_ = p.states;
    for (int i = 0; i < c.nst; ++i) { c.st_names.push_back(st_name(i)); }
    if (!setup(c)) { throw Stop("engine stuck"); }
    std::uint64_t log_from = 0;
    std::size_t notes_from = 0;
    if (p.log) {
        if (!wait_durable()) { engine_failed("durable", "epochs pass but the log does not get durable"); }
        c.st_ids.assign(st_.begin(), st_.end());
        c.log_base = standin::disk_durable(loc_);
        log_from = standin::disk_seq(loc_);
        std::lock_guard lk{notes_m_};
        notes_from = notes_.size();
        if (r.chance(15)) { standin::stall_durability.store(true); }
    }
    bool has_rtx = false;
    for (auto& t : c.txs) { has_rtx = has_rtx || t->k == Kind::RTX; }
    if (has_rtx) { wait_epochs(3); }
    auto n = c.txs.size();
    // every transaction gets its own worker; an order of the sessions at random
    std::vector<std::size_t> wi(ws_.size());
    for (std::size_t i = 0; i < wi.size(); ++i) { wi[i] = i; }
    for (std::size_t i = wi.size() - 1; i > 0; --i) { std::swap(wi[i], wi[r.below(i + 1)]); }
    auto worker = [&](std::size_t t) { return ws_[wi[c.slot[t]]].get(); };

    if (c.threaded) {
        static const std::vector<std::uint32_t> per{30, 100, 300, 1000, 4000};
        standin::bb_noise_period.store(r.pick(per));
        standin::noise_rate.store(static_cast<std::uint32_t>(r.below(12000)));
        standin::noise_sleep.store(r.chance(60));
        std::atomic<int> go{0};
        for (std::size_t i = 0; i < n; ++i) {
            if (c.slot[i] != i) { continue; } // follows another one
            std::vector<Tx*> ts;
            for (std::size_t k = i; k < n; ++k) {
                if (c.slot[k] == i) { ts.push_back(c.txs[k].get()); }
            }
            auto* w = worker(i);
            auto delay = r.chance(40) ? r.below(150) : 0;
            bool ew = r.chance(p.epoch_wait * 2);
            w->post([this, &c, ts, w, &go, delay, ew] {
                while (go.load() == 0) { sched_yield(); }
                if (delay > 0) { sleep_us(delay); }
                for (auto* t : ts) {
                    for (int pc = -1; pc <= static_cast<int>(t->ops.size()); ++pc) {
                        if (ew && pc == static_cast<int>(t->ops.size()) / 2) { wait_epochs(1); }
                        step(c, *t, w->tok, pc);
                        if (t->out != Out::NONE) { break; }
                    }
                    if (t == ts.back()) { break; }
                    while (t->out == Out::PENDING) {
                        resolve(*t, w->tok);
                        poll_state(*t);
                        sched_yield();
                    }
                }
            });
        }
        go.store(1);
        for (std::size_t i = 0; i < n; ++i) {
            while (!worker(i)->wait(100000)) {}
        }
        standin::bb_noise_period.store(0);
        standin::noise_rate.store(0);
    } else {
        std::vector<int> pc(n, -1);
        std::vector<bool> fin(n, false);
        std::vector<int> hold(n, -1); // >=0: stopped, steps of others until released
        auto release = [&](std::size_t i) {
            worker(i)->pc.release.store(1);
            hold[i] = -1;
        };
        auto settle = [&](std::size_t i) { // the step of i ended
            ++pc[i];
            if (c.txs[i]->out != Out::NONE || pc[i] > static_cast<int>(c.txs[i]->ops.size())) { fin[i] = true; }
        };
        std::vector<bool> flying(n, false); // has a step under way
        for (;;) {
            std::vector<std::size_t> cand;
            bool any_fly = false;
            std::size_t started = 0;
            std::size_t blocked = 0;
            for (std::size_t i = 0; i < n; ++i) {
                if (flying[i]) {
                    if (!worker(i)->busy.load()) {
                        worker(i)->wait(0);
                        flying[i] = false;
                        hold[i] = -1;
                        settle(i);
                    } else {
                        any_fly = true;
                        continue;
                    }
                }
                if (!fin[i]) {
                    if (pc[i] >= 0) {
                        ++started;
                    } else if (c.slot[i] != i) {
                        bool free = true;
                        for (std::size_t k = 0; k < i; ++k) {
                            if (c.slot[k] != c.slot[i]) { continue; }
                            resolve(*c.txs[k], worker(k)->tok);
                            free = free && !flying[k] && fin[k] && c.txs[k]->out != Out::PENDING;
                        }
                        if (!free) {
                            ++blocked;
                            continue;
                        }
                    }
                    cand.push_back(i);
                }
            }
            if (cand.empty()) {
                if (!any_fly) {
                    if (blocked == 0) { break; }
                    sleep_us(20);
                    continue;
                }
                for (std::size_t i = 0; i < n; ++i) {
                    if (flying[i]) {
                        release(i);
                        worker(i)->wait(100000);
                    }
                }
                continue;
            }
            auto i = r.pick(cand);
            if (pc[i] < 0 && started >= 3 && r.chance(70)) { continue; } // limit overlap a little
            if (r.chance(p.epoch_wait)) {
                if (!any_fly) {
                    wait_epochs(1);
                } else if (try_epochs(1, 1500)) {
                    res.count("epochs_inside_calls");
                }
            }
            bool arm = !any_fly && r.chance(p.pause);
            std::uint64_t blocks = arm ? 1 + r.below(1ULL << r.below(12)) : 0;
            auto* t = c.txs[i].get();
            auto* w = worker(i);
            int my = pc[i];
            if (arm) {
                w->pc.paused.store(0);
                w->pc.release.store(0);
            }
            w->post([this, &c, t, w, my, arm, blocks] {
                if (arm) { standin::pause_arm(&w->pc, blocks); }
                step(c, *t, w->tok, my);
                if (arm) { standin::pause_disarm(); }
            });
            flying[i] = true;
            auto t0 = wall_us();
            bool stopped = false;
            for (;;) {
                if (w->wait(arm ? 20 : 1000)) { break; }
                if (arm && w->pc.paused.load() == 1) {
                    stopped = true;
                    break;
                }
                if (any_fly && wall_us() - t0 > 3000) { // maybe waiting for the one we stopped
                    for (std::size_t k = 0; k < n; ++k) {
                        if (k != i && flying[k]) { release(k); }
                    }
                }
            }
            if (stopped) {
                pause_sites.insert(w->pc.site.load());
                hold[i] = static_cast<int>(r.range(1, 6));
                continue;
            }
            flying[i] = false;
            settle(i);
            for (std::size_t k = 0; k < n; ++k) {
                if (flying[k] && hold[k] > 0 && --hold[k] == 0) {
                    release(k);
                    worker(k)->wait(2000);
                }
            }
        }
    }
    // commits answered later
    auto t0 = wall_us();
    std::size_t left = 0;
    for (;;) {
        left = 0;
        for (std::size_t i = 0; i < n; ++i) {
            auto& t = *c.txs[i];
            if (t.out != Out::PENDING) { continue; }
            poll_state(t);
            if (t.cb_n.load() == 0) {
                ++left;
                continue;
            }
            resolve(t, worker(i)->tok);
        }
        if (left == 0) { break; }
        sleep_us(40);
        if (wall_us() - t0 > 5000000 && wall_us() - t0 < 5001000) { res.count("slow_pending"); }
    }
    if (p.log) {
        if (standin::stall_durability.load()) {
            if (r.chance(50)) { wait_epochs(2); }
            for (auto& t : c.txs) { poll_state(*t); }
            standin::stall_durability.store(false);
        }
        if (!wait_durable()) { engine_failed("durable", "epochs pass but the log does not get durable"); }
        c.log_top = standin::disk_durable(loc_);
        c.log = standin::disk_entries_from(loc_, log_from);
        std::uint64_t top = 0;
        for (auto& t : c.txs) {
            if (t->committed() && t->use_cb) { top = std::max(top, t->marker); }
        }
        auto e = now_epoch();
        for (;;) {
            {
                std::lock_guard lk{notes_m_};
                if (!notes_.empty() && notes_.back().marker >= top) {
                    // the last one before the case may already cover it
                    c.notes.assign(notes_.begin() + static_cast<long>(notes_from > 0 ? notes_from - 1 : 0), notes_.end());
                    if (notes_.size() > 4096) { notes_.erase(notes_.begin(), notes_.end() - 1); }
                    break;
                }
            }
            sleep_us(40);
            if (now_epoch() > e + 5000) {
                res.violation("durable", "never_reported", "a marker handed out at commit is never reported durable\n" + describe(c));
                break;
            }
        }
    }
    if (!final_read(c, Kind::SHORT, c.fin, c.fin_c)) { throw Stop("engine stuck"); }
    if (r.chance(p.final_rtx)) {
        std::vector<StMap> o;
        std::uint64_t call{};
        wait_epochs(3);
        auto k = r.chance(75) ? Kind::RTX : Kind::LONG;
        if (!final_read(c, k, o, call)) { throw Stop("engine stuck"); }
        res.count("final_snapshot_reads");
        if (o != c.fin) {
            std::string d = describe(c);
            for (std::size_t i = 0; i < o.size(); ++i) {
                d += " later snapshot S" + std::to_string(i) + " {";
                for (auto& e : o[i]) { d += esc(e.first) + "=" + esc(e.second) + " "; }
                d += "}\n";
            }
            res.violation(k == Kind::RTX ? "rtx" : "ser", std::string("later_") + (k == Kind::RTX ? "rtx" : "ltx") + "_differs",
                          "contents read by a later snapshot differ from the last SHORT transaction\n" + d);
        }
    }
    if (states_) {
        for (std::size_t i = 0; i < n; ++i) {
            auto& t = *c.txs[i];
            poll_state(t);
            if (t.sh != undefined_handle) {
                auto rc = release_tx_state_handle(t.sh);
                if (rc != Status::OK) {
                    res.violation("state", "release:" + sstr(rc), "release_tx_state_handle returned " + sstr(rc));
                }
            }
        }
    }
    return true;
}

} // namespace vh
