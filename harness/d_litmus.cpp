#include "litmus.h"

namespace vh {

/// cases of the given profiles; the engine is restarted in another configuration now and then
static void litmus() {
    std::vector<std::string> names;
    std::string ps = args.get("profile", "mix");
    for (std::size_t a = 0; a <= ps.size();) {
        auto b = ps.find(',', a);
        if (b == std::string::npos) { b = ps.size(); }
        names.push_back(ps.substr(a, b - a));
        a = b + 1;
    }
    std::uint64_t per_engine = static_cast<std::uint64_t>(args.num("per_engine", 150));
    std::uint64_t only = static_cast<std::uint64_t>(args.num("only", -1)); // replay of one engine block
    Runner run;
    std::uint64_t no = 0;
    for (std::uint64_t blk = 0; no < args.cases; ++blk) {
        if (only != ~0ULL && blk != only) {
            no += per_engine;
            continue;
        }
        Rng r(mix(args.seed, blk));
        auto cfg = random_cfg(r);
        std::string pn = names[blk % names.size()];
        auto p = profile_by_name(pn);
        if (p.epoch_us != 0) { cfg.epoch_us = p.epoch_us; }
        cfg.bypass = args.num("bypass", cfg.bypass && p.bypass ? 1 : 0) != 0;
        p.threaded = static_cast<unsigned>(args.num("threaded", p.threaded));
        auto loc = fresh_location();
        set_case("litmus start " + cfg.str());
        if (auto s = start_engine(cfg, loc); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s)); }
        run.open(p.log ? loc : "");
        for (std::uint64_t i = 0; i < per_engine && no < args.cases; ++i, ++no) {
            auto cs = mix(mix(args.seed, blk), 1000 + i);
            auto c = make_case(p, cs, no);
            c.cfg = "profile=" + pn + " " + cfg.str();
            c.bypass = cfg.bypass;
            std::string rp = "litmus --profile " + ps + " --seed " + std::to_string(args.seed) + " --per_engine " +
                             std::to_string(per_engine) + " --only " + std::to_string(blk) + " --cases " +
                             std::to_string((blk + 1) * per_engine);
            set_case(rp + " # case " + std::to_string(no) + " " + c.cfg);
            if (!run.run(c, p, r)) {
                res.inconclusive("case");
                continue;
            }
            check_case(c, p, rp);
            if (p.log) { check_log(c, rp); }
            res.eval();
            for (auto& t : c.txs) {
                static const char* kn[] = {"short", "long", "rtx"};
                std::string k = kn[static_cast<int>(t->k)];
                if (t->committed()) { res.count("committed_" + k); }
                if (t->aborted()) { res.count("aborted_" + k); }
            }
            auto s = signature(c);
            if (s != 0) {
                res.distinct(s);
                res.count("interacting_cases");
                if (i > 3 && res.want_sample()) { res.sample(describe(c)); }
            }
            res.count(c.threaded ? "threaded_cases" : "scripted_cases");
        }
        run.close();
        stop_engine();
        res.count("engine_configurations");
    }
    res.count("pause_sites", run.pause_sites.size());
}

static Register reg("litmus", litmus);

} // namespace vh
