// Crashes: the log is cut at a chosen durable epoch of a concurrent case, the engine is started on
// what survived, and what it shows is compared with what may have survived.
#include "litmus.h"

namespace vh {

static std::string show(std::vector<StMap> const& v) {
    std::string t;
    for (std::size_t i = 0; i < v.size(); ++i) {
        t += " S" + std::to_string(i) + " {";
        for (auto& e : v[i]) { t += esc(e.first) + "=" + esc(e.second) + " "; }
        t += "}";
    }
    return t;
}

static void recover_driver() {
    Runner run;
    std::uint64_t no = 0;
    auto depth = static_cast<std::uint64_t>(args.num("depth", 12));
    std::uint64_t only = static_cast<std::uint64_t>(args.num("only", -1));
    for (std::uint64_t blk = 0; no < args.cases; ++blk) {
        if (only != ~0ULL && blk != only) {
            no += depth;
            continue;
        }
        Rng r(mix(args.seed, blk));
        auto cfg = random_cfg(r);
        std::string rp = "recover --seed " + std::to_string(args.seed) + " --depth " + std::to_string(depth) + " --only " +
                         std::to_string(blk) + " --cases " + std::to_string((blk + 1) * depth);
        auto loc = fresh_location();
        set_case(rp + " start");
        auto up = [&](database_options::open_mode m) {
            cfg.restore_threads = r.chance(40) ? 0 : static_cast<std::size_t>(r.range(1, 4));
            auto s = start_engine(cfg, loc, m);
            if (s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s) + " " + rp); }
        };
        auto fail = [&](std::string const& key, std::string const& text) { res.violation("recover", key, text + "\n" + cfg.str(), rp); };
        up(database_options::open_mode::CREATE);
        run.open(loc);
        std::uint64_t sub = 0;
        for (std::uint64_t g = 0; g < depth && no < args.cases; ++g, ++no) {
            // some concurrent work
            std::vector<Case> cs;
            auto n = static_cast<std::size_t>(r.range(1, 3));
            auto p = profile_by_name(r.chance(70) ? "log" : "logstate");
            for (std::size_t i = 0; i < n; ++i) {
                auto c = make_case(p, mix(mix(args.seed, blk), 1000 + sub), sub + 1);
                ++sub;
                c.cfg = cfg.str();
                c.bypass = cfg.bypass;
                set_case(rp + " # generation " + std::to_string(g) + " case " + std::to_string(c.no) + " " + c.cfg);
                if (!run.run(c, p, r)) {
                    res.inconclusive("case");
                    continue;
                }
                check_case(c, p, rp);
                check_log(c, rp);
                cs.push_back(std::move(c));
            }
            if (cs.empty()) { continue; }
            // the moment of the crash
            auto& c = cs[r.below(cs.size())];
            std::vector<std::uint64_t> ds{c.log_base, c.log_top};
            for (auto& e : c.log) {
                ds.push_back(e.epoch);
                ds.push_back(e.epoch - 1);
            }
            std::uint64_t d = 0;
            while (d < c.log_base || d > c.log_top) { d = r.pick(ds); }
            auto before = r.chance(15); // no crash but the end of the process after everything is durable
            auto to = fresh_location();
            if (!before) { standin::disk_clone(loc, to, d); }
            run.close();
            stop_engine(r.chance(50));
            auto* last = &c;
            if (before) {
                last = &cs.back();
                d = standin::disk_durable(loc);
                standin::disk_clone(loc, to, d);
                if (standin::disk_durable(to) < last->log_top) { throw HarnessError("log went back"); }
            }
            standin::disk_erase(loc);
            loc = to;
            set_case(rp + " # generation " + std::to_string(g) + " restart at " + std::to_string(d));
            std::vector<StMap> first;
            auto again = r.chance(35) ? 2 : 1;
            for (int k = 0; k < again; ++k) {
                if (k > 0) {
                    run.close();
                    stop_engine(r.chance(50));
                }
                up(database_options::open_mode::RESTORE);
                std::vector<std::string> sts;
                list_storage(sts);
                if (sts.size() != static_cast<std::size_t>(run.storages())) {
                    fail("storages", "storages after recovery: " + std::to_string(sts.size()) + " instead of " + std::to_string(run.storages()));
                }
                for (int i = 0; i < run.storages(); ++i) {
                    Storage x{};
                    if (auto s = get_storage(run.st_name(i), x); s != Status::OK) {
                        fail("storage_lost", "storage S" + std::to_string(i) + " is not found after recovery: " + sstr(s));
                    } else if (x != run.st(i)) {
                        fail("storage_id", "storage S" + std::to_string(i) + " has another id after recovery");
                    }
                }
                run.open(loc);
                std::vector<StMap> got;
                std::vector<StMap> snap;
                if (!run.contents(Kind::SHORT, got) || !run.contents(Kind::RTX, snap)) {
                    engine_failed("recovered_read", "the recovered database cannot be read by a lone transaction " + rp);
                }
                if (got != snap) { fail("snapshot", "SHORT sees" + show(got) + "\nREAD_ONLY sees" + show(snap)); }
                if (k == 0) {
                    first = got;
                } else if (got != first) {
                    fail("not_repeatable", "first recovery" + show(first) + "\nsecond recovery" + show(got));
                }
            }
            auto mk = first.back()[Runner::marker()];
            first.back().erase(Runner::marker());
            bool rest = true;
            for (std::size_t i = static_cast<std::size_t>(last->nst); i < first.size(); ++i) { rest = rest && first[i].empty(); }
            auto text = "crash at durable epoch " + std::to_string(d) + " leaves" + show(first) + " marker " + mk + "\n" + describe(*last);
            if (mk != std::to_string(last->no) || !rest) {
                fail("foreign", "contents of another time: " + text);
            } else {
                std::vector<StMap> got(first.begin(), first.begin() + last->nst);
                std::string why;
                if (!last->bypass && !crash_state_ok(*last, got, d, why)) { fail(why, text); }
                res.eval();
                res.count("crashes");
                if (got != last->init && got != last->fin) { res.count("partial_recoveries"); }
                if (!c.bypass) {
                    auto s = signature(*last);
                    if (s != 0) { res.distinct(mix(s, hash_str(show(got)))); }
                }
                if (res.want_sample() && got != last->init && got != last->fin) { res.sample(text); }
            }
        }
        run.close();
        stop_engine();
        standin::disk_erase(loc);
    }
}

static Register reg("recover", recover_driver);

} // namespace vh
