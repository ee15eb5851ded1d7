#include "litmus.h"

#include <algorithm>

namespace vh {

char const* out_str(Out o) {
    switch (o) {
        case Out::NONE: return "unfinished";
        case Out::COMMITTED: return "COMMITTED";
        case Out::ABORT_OP: return "aborted by an operation";
        case Out::ABORT_COMMIT: return "aborted at commit";
        case Out::ABORT_USER: return "aborted by the client";
        case Out::PENDING: return "commit pending";
        case Out::STALE: return "snapshot older than the case (ignored)";
    }
    return "?";
}

Profile profile_by_name(std::string const& n) {
    Profile p;
    if (n == "mix") { return p; }
    if (n == "short") { // optimistic transactions only, many mid-call stops
        p.kinds = {100, 0, 0};
        p.max_tx = 6;
        p.pause = 40;
        p.epoch_wait = 4;
        return p;
    }
    if (n == "ltx") { // long transactions overtaking each other
        p.kinds = {20, 75, 5};
        p.max_tx = 5;
        p.max_st = 3;
        p.max_keys = 3;
        p.wp_all = 15;
        p.epoch_wait = 25;
        p.read_area = 10;
        return p;
    }
    if (n == "ltxmix") {
        p.kinds = {45, 50, 5};
        p.max_st = 2;
        p.max_keys = 3;
        p.wp_all = 20;
        p.epoch_wait = 15;
        p.read_area = 5;
        p.wp_miss = 0;
        return p;
    }
    if (n == "young") { // small numbers everywhere: long and short transactions within one epoch
        p.kinds = {78, 22, 0};
        p.ops = {35, 2, 5, 15, 30, 5, 8};
        p.min_tx = 5;
        p.max_tx = 8;
        p.max_ops = 3;
        p.max_keys = 3;
        p.init_fill = 85;
        p.wp_all = 10;
        p.pause = 8;
        p.threaded = 10;
        p.epoch_wait = 2;
        p.share = 60;
        p.epoch_us = 2000;
        p.bypass = false;
        p.user_abort = 2;
        p.wp_miss = 0;
        return p;
    }
    if (n == "ring" || n == "ring_fast") {
        bool fast = n == "ring_fast";
        p.ring = true;
        p.kinds = {48, 52, 0};
        p.min_tx = 2;
        p.max_tx = 4;
        p.min_st = 4;
        p.max_st = 4;
        p.min_keys = 1;
        p.max_keys = 2;
        p.init_fill = 55;
        p.wp_all = 3;
        p.pause = fast ? 40 : 6;
        p.threaded = fast ? 55 : 8;
        p.epoch_wait = fast ? 8 : 2;
        p.epoch_us = fast ? 0 : 1500;
        p.share = 4;
        p.bypass = false;
        p.user_abort = 1;
        p.final_rtx = 2;
        return p;
    }
    if (n == "phantom") {
        p.kinds = {60, 38, 2};
        p.ops = {10, 8, 22, 12, 10, 14, 24};
        p.init_fill = 30;
        p.max_keys = 5;
        p.max_st = 2;
        p.wp_all = 25;
        p.pause = 35;
        p.user_abort = 4;
        return p;
    }
    if (n == "phantom_short") {
        p.kinds = {100, 0, 0};
        p.ops = {12, 8, 24, 8, 8, 14, 26};
        p.init_fill = 30;
        p.max_keys = 5;
        p.max_st = 2;
        p.pause = 45;
        p.user_abort = 4;
        return p;
    }
    if (n == "hollow") { // ranges found empty in one storage, reads and writes in another
        p.kinds = {62, 38, 0};
        p.ops = {12, 2, 18, 1, 26, 1, 40};
        p.init_fill = 6;
        p.min_tx = 2;
        p.max_tx = 3;
        p.max_ops = 3;
        p.max_keys = 2;
        p.min_st = 2;
        p.max_st = 2;
        p.wp_all = 5;
        p.wp_miss = 0;
        p.read_area = 0;
        p.epoch_wait = 2;
        p.pause = 45;
        p.threaded = 75;
        p.epoch_us = 100;
        p.bypass = false;
        p.user_abort = 2;
        return p;
    }
    if (n == "rtx") {
        p.kinds = {45, 25, 30};
        p.ops = {25, 5, 12, 12, 18, 10, 18};
        p.need_rtx = true;
        p.min_tx = 3;
        p.max_tx = 7;
        p.epoch_wait = 30;
        p.final_rtx = 40;
        p.max_st = 2;
        return p;
    }
    if (n == "abort") {
        p.kinds = {60, 30, 10};
        p.user_abort = 40;
        p.min_tx = 3;
        p.max_tx = 6;
        p.max_keys = 3;
        p.final_rtx = 15;
        return p;
    }
    if (n == "scan") {
        p.kinds = {55, 30, 15};
        p.ops = {4, 2, 16, 10, 10, 14, 44};
        p.min_keys = 4;
        p.max_keys = 14;
        p.max_st = 2;
        p.min_tx = 1;
        p.max_tx = 4;
        p.max_ops = 6;
        p.scan_limit = 25;
        p.scan_r2l = 15;
        p.final_rtx = 20;
        return p;
    }
    if (n == "single") { // one transaction at a time: pure model conformance
        p.ops = {18, 8, 16, 14, 16, 16, 12};
        p.min_tx = 1;
        p.max_tx = 1;
        p.min_ops = 4;
        p.max_ops = 14;
        p.threaded = 0;
        p.pause = 0;
        p.max_keys = 3;
        p.user_abort = 15;
        p.kinds = {60, 40, 0};
        p.read_area = 0;
        p.wp_all = 90;
        return p;
    }
    if (n == "area") { // declared areas
        p.kinds = {35, 65, 0};
        p.max_st = 4;
        p.read_area = 60;
        p.wp_all = 10;
        p.wp_miss = 35;
        p.min_tx = 2;
        p.max_tx = 4;
        return p;
    }
    if (n == "log" || n == "logstate") { // what reaches the log store
        p.kinds = {58, 40, 2};
        p.ops = {14, 1, 17, 22, 26, 16, 4};
        p.log = true;
        p.states = n == "logstate";
        p.max_keys = 3;
        p.min_tx = 2;
        p.max_tx = 6;
        p.epoch_wait = 18;
        p.final_rtx = 4;
        p.pause = 35;
        p.share = 45;
        return p;
    }
    if (n == "state") {
        p.kinds = {40, 40, 20};
        p.states = true;
        p.user_abort = 15;
        p.epoch_wait = 15;
        p.max_st = 3;
        return p;
    }
    if (n == "reason") { // as many aborts of different causes as possible
        p.kinds = {55, 45, 0};
        p.ops = {20, 3, 22, 20, 8, 20, 7};
        p.max_keys = 2;
        p.max_st = 3;
        p.min_tx = 3;
        p.max_tx = 6;
        p.pause = 30;
        p.user_abort = 10;
        p.read_area = 20;
        p.wp_all = 20;
        return p;
    }
    throw HarnessError("no such profile: " + n);
}

static std::vector<std::string> key_pool(Rng& r, int n) {
    static const std::vector<std::vector<std::string>> pools{
            {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"},
            {"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "ka", "kb", "kc", "kd", "ke", "kf"},
            {"", "a", "aa", "aaaaaaaa", "aaaaaaaaa", "aaaaaaaab", "b", "bb", "bbbbbbbbbbbbbbbb", "c", "ca",
             "cab", "d", "dd", "ddddddddd"},
            {std::string("\0", 1), std::string("\0\0", 2), std::string("a\0", 2),
             std::string("a\0b", 3), "a", "b", std::string(1, '\xff'), std::string(2, '\xff'), "\x7f",
             "\x80", "z", "zz", "zzzzzzzzz", "m", "mm"}};
    auto const& p = pools[r.below(pools.size())];
    std::vector<std::string> v(p.begin(), p.end());
    for (std::size_t i = v.size() - 1; i > 0; --i) { std::swap(v[i], v[r.below(i + 1)]); }
    v.resize(std::min<std::size_t>(v.size(), static_cast<std::size_t>(n)));
    return v;
}

/// transaction i reads cell i and writes the next one: whoever goes on with what they saw closes a circle
static void make_ring(Profile const& p, Rng& r, Case& c, std::vector<std::string> const& keys) {
    auto n = static_cast<std::size_t>(r.range(p.min_tx, p.max_tx));
    std::vector<std::pair<int, std::string>> cells;
    bool apart = r.chance(65);
    auto nst = static_cast<std::size_t>(c.nst);
    for (std::size_t i = 0; i < n; ++i) {
        cells.emplace_back(static_cast<int>(apart ? i % nst : r.below(std::min<std::size_t>(nst, 2))), r.pick(keys));
    }
    for (std::size_t i = 0; i < n; ++i) {
        auto x = std::make_unique<Tx>();
        x->k = static_cast<Kind>(r.weighted(p.kinds));
        x->user_abort = r.chance(p.user_abort);
        x->use_cb = x->k == Kind::LONG || r.chance(60);
        auto val = [&](std::size_t j) { return "v" + std::to_string(c.no) + "." + std::to_string(i) + "." + std::to_string(j); };
        Op rd;
        std::tie(rd.st, rd.key) = cells[i];
        auto how = r.below(10);
        rd.t = how < 6 ? OpT::SEARCH : how < 7 ? OpT::EXIST : OpT::SCAN;
        if (rd.t == OpT::SCAN && r.chance(60)) {
            rd.sc.l = rd.key;
            rd.sc.r = rd.key;
            rd.sc.le = scan_endpoint::INCLUSIVE;
            rd.sc.re = r.chance(50) ? scan_endpoint::INCLUSIVE : scan_endpoint::INF;
            if (rd.sc.re == scan_endpoint::INF) { rd.sc.r = ""; }
        }
        Op wr;
        std::tie(wr.st, wr.key) = cells[(i + 1) % n];
        bool there = c.init[static_cast<std::size_t>(wr.st)].count(wr.key) != 0;
        how = r.below(10);
        wr.t = how < 4 ? OpT::UPSERT : !there ? OpT::INSERT : how < 7 ? OpT::UPDATE : OpT::DELETE;
        if (x->k == Kind::LONG) {
            x->wp.insert(wr.st);
            if (r.chance(p.wp_all)) { x->wp.insert(rd.st); }
        }
        x->ops.push_back(std::move(rd));
        x->ops.push_back(std::move(wr));
        if (r.chance(15)) { std::swap(x->ops[0], x->ops[1]); }
        if (r.chance(12)) {
            Op o;
            o.t = OpT::SEARCH;
            std::tie(o.st, o.key) = r.pick(cells);
            x->ops.insert(x->ops.begin() + static_cast<long>(r.below(3)), std::move(o));
        }
        for (std::size_t j = 0; j < x->ops.size(); ++j) { x->ops[j].val = val(j); }
        x->res.resize(x->ops.size());
        c.txs.push_back(std::move(x));
        c.slot.push_back(i > 0 && r.chance(p.share) ? c.slot[r.below(i)] : i);
    }
}

Case make_case(Profile const& p, std::uint64_t seed, std::uint64_t no) {
    Rng r(seed);
    Case c;
    c.seed = seed;
    c.no = no;
    c.nst = static_cast<int>(r.range(p.min_st, p.max_st));
    c.threaded = r.chance(p.threaded);
    int nk = static_cast<int>(r.range(p.min_keys, p.max_keys));
    auto keys = key_pool(r, nk);
    std::string tag = std::to_string(no);
    c.init.resize(static_cast<std::size_t>(c.nst));
    int vi = 0;
    for (auto& m : c.init) {
        for (auto& k : keys) {
            if (r.chance(p.init_fill)) { m[k] = "i" + tag + "." + std::to_string(vi++); }
        }
    }
    if (p.ring) {
        make_ring(p, r, c, keys);
        return c;
    }
    int nt = static_cast<int>(r.range(p.min_tx, p.max_tx));
    bool have_rtx = false;
    for (int t = 0; t < nt; ++t) {
        auto x = std::make_unique<Tx>();
        x->k = static_cast<Kind>(r.weighted(p.kinds));
        if (p.need_rtx && t == nt - 1 && !have_rtx) { x->k = Kind::RTX; }
        have_rtx = have_rtx || x->k == Kind::RTX;
        x->user_abort = r.chance(p.user_abort);
        x->use_cb = x->k == Kind::LONG || r.chance(60);
        if (x->k == Kind::LONG) {
            if (r.chance(p.wp_all)) {
                for (int s = 0; s < c.nst; ++s) { x->wp.insert(s); }
            } else {
                for (int s = 0; s < c.nst; ++s) {
                    if (r.chance(60)) { x->wp.insert(s); }
                }
            }
            if (r.chance(p.read_area)) {
                for (int s = 0; s < c.nst; ++s) {
                    auto d = r.below(4);
                    if (d == 0) { x->ra_pos.insert(s); }
                    if (d == 1) { x->ra_neg.insert(s); }
                }
            }
        }
        int no_ops = static_cast<int>(r.range(p.min_ops, p.max_ops));
        for (int i = 0; i < no_ops; ++i) {
            Op o;
            o.t = static_cast<OpT>(r.weighted(p.ops));
            if (x->k == Kind::RTX && o.t != OpT::SEARCH && o.t != OpT::EXIST && !r.chance(4)) {
                o.t = r.chance(55) ? OpT::SEARCH : OpT::SCAN;
            }
            o.st = static_cast<int>(r.below(static_cast<std::uint64_t>(c.nst)));
            bool wr = o.t != OpT::SEARCH && o.t != OpT::EXIST && o.t != OpT::SCAN;
            if (wr && x->k == Kind::LONG && x->wp.count(o.st) == 0 && !r.chance(p.wp_miss)) {
                if (x->wp.empty()) {
                    o.t = OpT::SEARCH;
                } else {
                    auto it = x->wp.begin();
                    std::advance(it, static_cast<long>(r.below(x->wp.size())));
                    o.st = *it;
                }
            }
            o.key = r.pick(keys);
            o.val = "v" + tag + "." + std::to_string(t) + "." + std::to_string(i);
            if (r.chance(2)) { o.val += std::string(200, 'x'); }
            if (o.t == OpT::SCAN) {
                auto& s = o.sc;
                s.l = r.pick(keys);
                s.r = r.pick(keys);
                static const std::vector<scan_endpoint> e{scan_endpoint::INF, scan_endpoint::INCLUSIVE,
                                                          scan_endpoint::EXCLUSIVE};
                s.le = r.pick(e);
                s.re = r.pick(e);
                if (r.chance(35)) { s.le = scan_endpoint::INF; }
                if (r.chance(35)) { s.re = scan_endpoint::INF; }
                if (s.l > s.r && !r.chance(10)) { std::swap(s.l, s.r); }
                if (s.le == scan_endpoint::INF && r.chance(80)) { s.l = ""; }
                if (s.re == scan_endpoint::INF && r.chance(80)) { s.r = ""; }
                if (r.chance(p.scan_limit)) { s.max = static_cast<std::size_t>(r.range(1, 4)); }
                if (r.chance(p.scan_stop)) { s.stop_after = static_cast<int>(r.range(0, 2)); }
                if (x->k != Kind::LONG && r.chance(p.scan_r2l)) { // not offered for LONG
                    s.r2l = true;
                    s.max = 1;
                    s.re = scan_endpoint::INF;
                }
                if (r.chance(15)) { s.read = static_cast<int>(r.range(1, 2)); }
                s.close = r.chance(70);
            }
            x->ops.push_back(std::move(o));
        }
        x->res.resize(x->ops.size());
        c.txs.push_back(std::move(x));
        c.slot.push_back(t > 0 && r.chance(p.share) ? c.slot[r.below(static_cast<std::uint64_t>(t))] : static_cast<std::size_t>(t));
    }
    return c;
}

static std::string ep_str(scan_endpoint e) {
    return e == scan_endpoint::INF ? "INF" : e == scan_endpoint::INCLUSIVE ? "INC" : "EXC";
}

std::string describe(Case const& c) {
    std::string s = "case seed " + std::to_string(c.seed) + (c.threaded ? " threaded" : " scripted") +
                    " [" + c.cfg + "]\n";
    auto dump = [](StMap const& m) {
        std::string o = "{";
        for (auto& e : m) { o += esc(e.first) + "=" + esc(e.second) + " "; }
        return o + "}";
    };
    for (std::size_t i = 0; i < c.init.size(); ++i) {
        s += " initial S" + std::to_string(i) + " " + dump(c.init[i]) + " (t" + std::to_string(c.init_t) +
             ")\n";
    }
    static const char* kn[] = {"SHORT", "LONG", "READ_ONLY"};
    static const char* on[] = {"search", "exist", "insert", "update", "upsert", "delete", "scan"};
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto const& x = *c.txs[t];
        s += " T" + std::to_string(t) + " " + kn[static_cast<int>(x.k)];
        if (x.k == Kind::LONG) {
            s += " wp{";
            for (auto w : x.wp) { s += "S" + std::to_string(w) + " "; }
            s += "} ra+{";
            for (auto w : x.ra_pos) { s += "S" + std::to_string(w) + " "; }
            s += "} ra-{";
            for (auto w : x.ra_neg) { s += "S" + std::to_string(w) + " "; }
            s += "}";
        }
        s += " id=" + x.id + " begin " + sstr(x.begin_s) + " t" + std::to_string(x.begin_c) + ".." +
             std::to_string(x.begin_r) + " epoch~" + std::to_string(x.begin_ep) + "\n";
        for (std::size_t i = 0; i < x.ops.size(); ++i) {
            auto const& o = x.ops[i];
            auto const& r = x.res[i];
            if (!r.done) { continue; }
            s += "    " + std::string(on[static_cast<int>(o.t)]) + " S" + std::to_string(o.st) + " ";
            if (o.t == OpT::SCAN) {
                s += esc(o.sc.l) + ":" + ep_str(o.sc.le) + " " + esc(o.sc.r) + ":" + ep_str(o.sc.re) +
                     " max=" + std::to_string(o.sc.max) + (o.sc.r2l ? " r2l" : "") +
                     (o.sc.stop_after >= 0 ? " stop=" + std::to_string(o.sc.stop_after) : "") + " -> " +
                     sstr(r.s) + " {";
                for (auto& it : r.items) {
                    if (it.gap) {
                        s += "? ";
                    } else {
                        s += (it.has_key ? esc(it.key) : "_") + "=" + (it.has_val ? esc(it.val) : "_") + " ";
                    }
                }
                s += r.complete ? "}" : "...}";
            } else {
                s += esc(o.key);
                if (o.t != OpT::SEARCH && o.t != OpT::EXIST && o.t != OpT::DELETE) { s += " " + esc(o.val); }
                s += " -> " + sstr(r.s);
                if (o.t == OpT::SEARCH && r.s == Status::OK) { s += " " + esc(r.val); }
            }
            s += " t" + std::to_string(r.c) + ".." + std::to_string(r.r) + "\n";
        }
        s += "    => " + std::string(out_str(x.out));
        if (x.commit_c != 0) {
            s += " commit t" + std::to_string(x.commit_c) + " epoch~" + std::to_string(x.commit_ep) +
                 " result " + sstr(x.commit_ret) + " marker " + std::to_string(x.marker);
        }
        s += " known t" + std::to_string(x.out_t);
        if (x.have_info) {
            s += " reason " + std::to_string(static_cast<int>(x.info_reason));
            if (x.info_reason >= reason_code::UNKNOWN && x.info_reason <= reason_code::USER_ABORT) {
                s += "(" + std::string(to_string_view(x.info_reason)) + ")";
            }
            if (x.info_has_st) { s += " storage " + esc(x.info_st); }
            if (x.info_has_key) { s += " key " + esc(x.info_key); }
        }
        s += "\n";
    }
    for (std::size_t i = 0; i < c.fin.size(); ++i) {
        s += " final S" + std::to_string(i) + " " + dump(c.fin[i]) + "\n";
    }
    return s;
}

} // namespace vh
