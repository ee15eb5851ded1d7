#include <algorithm>

#include "litmus.h"

namespace vh {

namespace {

bool in_range(std::string const& k, ScanSpec const& s) {
    if (s.le == scan_endpoint::INCLUSIVE && k < s.l) { return false; }
    if (s.le == scan_endpoint::EXCLUSIVE && k <= s.l) { return false; }
    if (s.re == scan_endpoint::INCLUSIVE && k > s.r) { return false; }
    if (s.re == scan_endpoint::EXCLUSIVE && k >= s.r) { return false; }
    return true;
}


/// does the sequence of scanned items match the expected entries?
/// an unreadable entry (gap) stands for none or one; prefix: more entries may follow
bool match_items(std::vector<std::pair<std::string, std::string>> const& exp, std::size_t ei,
                 std::vector<ScanItem> const& it, std::size_t ii, bool prefix, bool subset) {
    if (ii == it.size()) { return prefix || subset || ei == exp.size(); }
    auto const& x = it[ii];
    if (x.gap) {
        if (match_items(exp, ei, it, ii + 1, prefix, subset)) { return true; }
        return ei < exp.size() && match_items(exp, ei + 1, it, ii + 1, prefix, subset);
    }
    for (; ei < exp.size(); ++ei) {
        bool ok = (!x.has_key || x.key == exp[ei].first) && (!x.has_val || x.val == exp[ei].second);
        if (ok && match_items(exp, ei + 1, it, ii + 1, prefix, subset)) { return true; }
        if (!subset) { return false; }
    }
    return false;
}

bool is_write(OpT t) { return t == OpT::INSERT || t == OpT::UPDATE || t == OpT::UPSERT || t == OpT::DELETE; }

} // namespace

bool Checker::apply(int ti, std::vector<StMap>& st, unsigned choice, bool relax, std::vector<Overlay>& ov) {
    auto const& t = *c_.txs[static_cast<std::size_t>(ti)];
    // existence as answered agrees with the view
    auto wrong = [&](bool answered, bool have) { return answered != have && !(relax && !answered); };
    ov.assign(st.size(), {});
    auto view = [&](int s, std::string const& k) -> std::optional<std::string> {
        auto& o = ov[static_cast<std::size_t>(s)];
        auto i = o.find(k);
        if (i != o.end()) { return i->second; }
        auto& m = st[static_cast<std::size_t>(s)];
        auto j = m.find(k);
        if (j == m.end()) { return std::nullopt; }
        return j->second;
    };
    unsigned nchoice = 0;
    for (std::size_t i = 0; i < t.ops.size(); ++i) {
        auto const& o = t.ops[i];
        auto const& r = t.res[i];
        if (!r.done) { break; }
        auto& mine = ov[static_cast<std::size_t>(o.st)];
        switch (o.t) {
            case OpT::SEARCH:
            case OpT::EXIST:
                if (r.s == Status::OK) {
                    auto v = view(o.st, o.key);
                    if (!v) { return false; }
                    if (o.t == OpT::SEARCH && *v != r.val) { return false; }
                } else if (r.s == Status::WARN_NOT_FOUND || r.s == Status::WARN_CONCURRENT_INSERT) {
                    if (!relax && view(o.st, o.key)) { return false; }
                }
                break;
            case OpT::INSERT:
                if (r.s == Status::OK) {
                    // an insert taken back by the same transaction claims nothing any more
                    bool cancelled = false;
                    for (std::size_t j = i + 1; j < t.ops.size() && t.res[j].done; ++j) {
                        if (t.ops[j].t == OpT::DELETE && t.ops[j].st == o.st && t.ops[j].key == o.key) {
                            cancelled = t.res[j].s == Status::WARN_CANCEL_PREVIOUS_INSERT;
                            break;
                        }
                    }
                    if (!cancelled && wrong(false, view(o.st, o.key).has_value())) { return false; }
                    mine[o.key] = o.val;
                } else if (r.s == Status::WARN_ALREADY_EXISTS) {
                    if (wrong(true, view(o.st, o.key).has_value())) { return false; }
                }
                break;
            case OpT::UPDATE:
                if (r.s == Status::OK) {
                    if (wrong(true, view(o.st, o.key).has_value())) { return false; }
                    mine[o.key] = o.val;
                } else if (r.s == Status::WARN_NOT_FOUND) {
                    if (wrong(false, view(o.st, o.key).has_value())) { return false; }
                }
                break;
            case OpT::UPSERT:
                if (r.s == Status::OK) { mine[o.key] = o.val; }
                break;
            case OpT::DELETE:
                if (r.s == Status::OK) {
                    if (wrong(true, view(o.st, o.key).has_value())) { return false; }
                    mine[o.key] = std::nullopt;
                } else if (r.s == Status::WARN_NOT_FOUND) {
                    if (wrong(false, view(o.st, o.key).has_value())) { return false; }
                } else if (r.s == Status::WARN_CANCEL_PREVIOUS_INSERT) {
                    mine.erase(o.key);
                } else if (r.s == Status::WARN_CANCEL_PREVIOUS_UPSERT) {
                    // either the blind write is taken back, or it became a deletion
                    if (((choice >> nchoice) & 1U) == 0) {
                        mine[o.key] = std::nullopt;
                    } else {
                        mine.erase(o.key);
                    }
                    ++nchoice;
                }
                break;
            case OpT::SCAN: {
                if (r.s != Status::OK && r.s != Status::WARN_NOT_FOUND) { break; }
                std::vector<std::pair<std::string, std::string>> exp;
                StMap merged = st[static_cast<std::size_t>(o.st)];
                for (auto& e : mine) {
                    if (e.second) {
                        merged[e.first] = *e.second;
                    } else {
                        merged.erase(e.first);
                    }
                }
                for (auto& e : merged) {
                    if (in_range(e.first, o.sc)) { exp.emplace_back(e.first, e.second); }
                }
                if (o.sc.r2l) { std::reverse(exp.begin(), exp.end()); }
                bool prefix = !r.complete || o.sc.max != 0;
                if (!match_items(exp, 0, r.items, 0, prefix, relax)) { return false; }
                break;
            }
        }
    }
    for (std::size_t s = 0; s < ov.size(); ++s) {
        for (auto& e : ov[s]) {
            if (e.second) {
                st[s][e.first] = *e.second;
            } else {
                st[s].erase(e.first);
            }
        }
    }
    return true;
}

bool Checker::dfs(std::vector<StMap>& st, std::uint64_t left, bool relax, Pos const& pos) {
    if (left == 0) {
        ++orders;
        return st == c_.fin;
    }
    for (std::size_t i = 0; i < nodes_.size(); ++i) {
        if (((left >> i) & 1U) == 0 || (pred_[i] & left) != 0) { continue; }
        for (unsigned ch = 0; ch < (1U << choices_[i]); ++ch) {
            auto s2 = st;
            std::vector<Overlay> ov;
            if (!apply(nodes_[i], s2, ch, relax, ov)) { continue; }
            auto p2 = pos;
            if (chain != nullptr) {
                bool ok = true;
                for (std::size_t s = 0; s < ov.size() && ok; ++s) {
                    for (auto& e : ov[s]) {
                        if (unlogged.count({nodes_[i], std::to_string(s) + "/" + e.first}) != 0) { continue; }
                        auto it = (*chain)[s].find(e.first);
                        auto n = p2[s][e.first]++;
                        ok = it != (*chain)[s].end() && n < it->second.size() && it->second[n] == e.second;
                        if (!ok) { break; }
                    }
                }
                if (!ok) { continue; }
            }
            witness.push_back(nodes_[i]);
            if (dfs(s2, left & ~(1ULL << i), relax, p2)) { return true; }
            witness.pop_back();
        }
    }
    return false;
}

bool Checker::sdfs(std::vector<StMap> const& st, std::uint64_t used, std::vector<StMap> const& target) {
    if ((req_ & ~used) == 0 && st == target) {
        bool ok = true;
        for (std::size_t b = 0; b < nodes_.size() && closed_ && ok; ++b) {
            if (((used >> b) & 1U) == 0) { continue; }
            for (std::size_t a = 0; a < nodes_.size() && ok; ++a) {
                auto const& x = *c_.txs[static_cast<std::size_t>(nodes_[a])];
                ok = ((used >> a) & 1U) != 0 || x.out_t > c_.txs[static_cast<std::size_t>(nodes_[b])]->begin_c;
            }
        }
        if (ok) { return true; }
    }
    for (std::size_t i = 0; i < nodes_.size(); ++i) {
        if (((used >> i) & 1U) != 0) { continue; }
        for (unsigned ch = 0; ch < (1U << choices_[i]); ++ch) {
            auto s2 = st;
            std::vector<Overlay> ov;
            if (!apply(nodes_[i], s2, ch, false, ov)) { continue; }
            std::uint64_t h = 5;
            for (auto& m : s2) {
                for (auto& e : m) { h = mix(mix(h, hash_str(e.first)), hash_str(e.second)); }
                h = mix(h, 3);
            }
            if (!tried_.insert({used | (1ULL << i), h}).second) { continue; }
            if (sdfs(s2, used | (1ULL << i), target)) { return true; }
        }
    }
    return false;
}

bool Checker::survivable(std::vector<StMap> const& contents, std::set<int> const& required, bool closed) {
    nodes(false, false);
    req_ = 0;
    for (std::size_t a = 0; a < nodes_.size(); ++a) {
        if (required.count(nodes_[a]) != 0) { req_ |= 1ULL << a; }
    }
    closed_ = closed;
    tried_.clear();
    return sdfs(c_.init, 0, contents);
}

void Checker::nodes(bool with_rtx, bool realtime) {
    nodes_.clear();
    pred_.clear();
    choices_.clear();
    witness.clear();
    for (std::size_t i = 0; i < c_.txs.size(); ++i) {
        auto const& t = *c_.txs[i];
        if (!t.committed() || (!with_rtx && t.k == Kind::RTX)) { continue; }
        nodes_.push_back(static_cast<int>(i));
        unsigned n = 0;
        for (std::size_t j = 0; j < t.ops.size() && t.res[j].done; ++j) {
            n += t.res[j].s == Status::WARN_CANCEL_PREVIOUS_UPSERT;
        }
        choices_.push_back(std::min(n, 4U));
    }
    pred_.assign(nodes_.size(), 0);
    for (std::size_t a = 0; a < nodes_.size(); ++a) {
        for (std::size_t b = 0; b < nodes_.size(); ++b) {
            auto const& x = *c_.txs[static_cast<std::size_t>(nodes_[a])];
            auto const& y = *c_.txs[static_cast<std::size_t>(nodes_[b])];
            if (realtime && a != b && y.k == Kind::SHORT && x.out_t < y.begin_c) { pred_[b] |= 1ULL << a; }
        }
    }
}

bool Checker::serializable(bool with_rtx, bool relax, bool realtime) {
    nodes(with_rtx, realtime);
    auto st = c_.init;
    return dfs(st, (1ULL << nodes_.size()) - 1, relax, Pos(st.size()));
}

// -----------------------------------------------------------------------------------------
namespace {

struct WriterRef {
    int tx{-1}; // -1: initial contents
    int op{-1};
};

void check_reads(Case& c, std::string const& replay) {
    // who wrote a value, and is it the last one this transaction wrote to the key
    std::map<std::string, WriterRef> by;
    for (auto& m : c.init) {
        for (auto& e : m) { by[e.second] = {}; }
    }
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto& x = *c.txs[t];
        for (std::size_t i = 0; i < x.ops.size(); ++i) {
            if (x.res[i].done && is_write(x.ops[i].t) && x.ops[i].t != OpT::DELETE && x.res[i].s == Status::OK) {
                by[x.ops[i].val] = {static_cast<int>(t), static_cast<int>(i)};
            }
        }
    }
    auto last_write = [&](int t, int i) {
        auto& x = *c.txs[static_cast<std::size_t>(t)];
        auto& o = x.ops[static_cast<std::size_t>(i)];
        for (std::size_t j = static_cast<std::size_t>(i) + 1; j < x.ops.size(); ++j) {
            if (!x.res[j].done || !is_write(x.ops[j].t)) { continue; }
            if (x.ops[j].st == o.st && x.ops[j].key == o.key &&
                (x.res[j].s == Status::OK || x.res[j].s == Status::WARN_CANCEL_PREVIOUS_INSERT ||
                 x.res[j].s == Status::WARN_CANCEL_PREVIOUS_UPSERT)) {
                return false;
            }
        }
        return true;
    };
    auto one = [&](int reader, int st, std::string const* key, std::string const& v, std::uint64_t t) {
        res.count("values_traced");
        auto w = by.find(v);
        std::string who = reader < 0 ? "the final read" : "T" + std::to_string(reader);
        if (w == by.end()) {
            res.violation("dirty", "unknown_value", who + " read " + esc(v) + " which nobody wrote in this case\n" + describe(c), replay);
            return;
        }
        auto wr = w->second;
        if (wr.tx < 0) { return; }
        auto& x = *c.txs[static_cast<std::size_t>(wr.tx)];
        auto& o = x.ops[static_cast<std::size_t>(wr.op)];
        if (o.st != st || (key != nullptr && *key != o.key)) {
            res.violation("dirty", "wrong_place", who + " read " + esc(v) + " at another key or storage than written\n" + describe(c), replay);
            return;
        }
        if (reader == wr.tx) { return; }
        if (x.aborted()) {
            res.violation("dirty", "aborted_value", who + " read " + esc(v) + " written by T" + std::to_string(wr.tx) + " which aborted\n" + describe(c), replay);
            return;
        }
        if (x.commit_c == 0 || x.commit_c > t) {
            res.violation("dirty", "uncommitted_value", who + " read " + esc(v) + " before T" + std::to_string(wr.tx) + " requested its commit\n" + describe(c), replay);
            return;
        }
        if (!last_write(wr.tx, wr.op)) {
            res.violation("dirty", "intermediate_value", who + " read " + esc(v) + ", not the last value T" + std::to_string(wr.tx) + " wrote to the key\n" + describe(c), replay);
        }
    };
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto& x = *c.txs[t];
        if (x.out == Out::STALE) { continue; }
        for (std::size_t i = 0; i < x.ops.size(); ++i) {
            auto& r = x.res[i];
            if (!r.done) { break; }
            if (x.ops[i].t == OpT::SEARCH && r.s == Status::OK) {
                one(static_cast<int>(t), x.ops[i].st, &x.ops[i].key, r.val, r.r);
            }
            if (x.ops[i].t == OpT::SCAN) {
                for (auto& it : r.items) {
                    if (it.has_val) {
                        one(static_cast<int>(t), x.ops[i].st, it.has_key ? &it.key : nullptr, it.val, r.r);
                    }
                }
            }
        }
    }
    for (std::size_t s = 0; s < c.fin.size(); ++s) {
        for (auto& e : c.fin[s]) { one(-1, static_cast<int>(s), &e.first, e.second, ~0ULL); }
    }
}

void check_scan_shape(Case& c, std::string const& replay) {
    for (auto& tp : c.txs) {
        auto& x = *tp;
        if (x.out == Out::STALE) { continue; }
        for (std::size_t i = 0; i < x.ops.size(); ++i) {
            auto& o = x.ops[i];
            auto& r = x.res[i];
            if (!r.done) { break; }
            if (o.t != OpT::SCAN) { continue; }
            std::string const* last = nullptr;
            std::size_t n = 0;
            for (auto& it : r.items) {
                ++n;
                if (!it.has_key) { continue; }
                res.count("scan_items");
                if (!in_range(it.key, o.sc)) {
                    res.violation("scan", "outside_range", "a scan returned a key outside of its range\n" + describe(c), replay);
                }
                if (last != nullptr && (o.sc.r2l ? !(it.key < *last) : !(*last < it.key))) {
                    res.violation("scan", "order", "a scan returned keys out of order or twice\n" + describe(c), replay);
                }
                last = &it.key;
            }
            if (o.sc.max != 0 && n > o.sc.max) {
                res.violation("scan", "limit", "a scan returned more entries than its limit\n" + describe(c), replay);
            }
        }
    }
}

bool ra_allows(Tx const& x, int st) {
    if (x.ra_pos.empty() && x.ra_neg.empty()) { return true; }
    if (x.ra_neg.count(st) != 0) { return false; }
    if (!x.ra_pos.empty() && x.ra_pos.count(st) == 0) { return false; }
    return true;
}

void check_status(Case& c, std::string const& replay) {
    auto bad = [&](std::size_t t, std::size_t i, char const* tag, std::string const& why) {
        auto& x = *c.txs[t];
        static const char* on[] = {"search", "exist", "insert", "update", "upsert", "delete", "scan"};
        static const char* kn[] = {"SHORT", "LONG", "RTX"};
        res.violation(tag, std::string(kn[static_cast<int>(x.k)]) + ":" + on[static_cast<int>(x.ops[i].t)] + ":" + sstr(x.res[i].s) + ":" + why,
                      "T" + std::to_string(t) + " operation " + std::to_string(i) + ": " + why + "\n" + describe(c), replay);
    };
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto& x = *c.txs[t];
        if (x.out == Out::STALE) { continue; }
        for (std::size_t i = 0; i < x.ops.size(); ++i) {
            auto& o = x.ops[i];
            auto& r = x.res[i];
            if (!r.done) { break; }
            auto s = r.s;
            bool wr = is_write(o.t);
            // statuses that can never be right here
            if (s == Status::ERR_FATAL || s == Status::ERR_FATAL_INDEX || s == Status::ERR_NOT_IMPLEMENTED ||
                s > Status::ERR_SESSION_LIMIT || s == Status::WARN_NOT_BEGIN || s == Status::WARN_STORAGE_NOT_FOUND ||
                s == Status::WARN_INVALID_HANDLE || s == Status::WARN_INVALID_KEY_LENGTH || s == Status::WARN_MAX_OPEN_SCAN ||
                s == Status::WARN_INVALID_ARGS || s == Status::WARN_PREMATURE || s == Status::WARN_ALREADY_BEGIN ||
                s == Status::WARN_NOT_INIT || s == Status::WARN_WAITING_FOR_OTHER_TX || s == Status::ERR_KVS) {
                bad(t, i, "status", "impossible status");
                continue;
            }
            if (x.k == Kind::RTX) {
                if (is_err(s)) { bad(t, i, "rtx", "read only transaction failed"); }
                if (wr && s != Status::WARN_ILLEGAL_OPERATION) { bad(t, i, "area", "write in a read only transaction accepted"); }
                if (!wr && s != Status::OK && s != Status::WARN_NOT_FOUND) { bad(t, i, "rtx", "read only transaction got this status"); }
                continue;
            }
            if (s == Status::WARN_ILLEGAL_OPERATION) { bad(t, i, "status", "illegal operation"); }
            if ((s == Status::WARN_CONCURRENT_INSERT || s == Status::WARN_CONCURRENT_UPDATE) && o.t != OpT::SCAN) {
                // somebody else writing this key must be under way
                bool found = false;
                for (std::size_t u = 0; u < c.txs.size() && !found; ++u) {
                    auto& y = *c.txs[u];
                    if (u == t || (y.ended() && y.out_t < r.c)) { continue; }
                    for (std::size_t j = 0; j < y.ops.size() && !found; ++j) {
                        found = is_write(y.ops[j].t) && y.ops[j].st == o.st && y.ops[j].key == o.key && y.res[j].done &&
                                y.res[j].c < r.r;
                    }
                }
                res.count("concurrent_answers_checked");
                if (!found) { bad(t, i, "status", "no transaction writing the key was active"); }
            }
            if (x.k == Kind::LONG) {
                bool in_wp = x.wp.count(o.st) != 0;
                res.count("area_ops");
                if (wr && !in_wp && s != Status::WARN_WRITE_WITHOUT_WP) { bad(t, i, "area", "write outside of the write preserve"); }
                if (s == Status::WARN_WRITE_WITHOUT_WP && (in_wp || !wr)) { bad(t, i, "area", "declared storage refused"); }
                if (!wr) {
                    if (!ra_allows(x, o.st) && s != Status::ERR_READ_AREA_VIOLATION) { bad(t, i, "area", "read outside of the read area"); }
                }
                if (s == Status::ERR_READ_AREA_VIOLATION && ra_allows(x, o.st)) { bad(t, i, "area", "allowed storage refused"); }
                if (s == Status::WARN_CONFLICT_ON_WRITE_PRESERVE) { bad(t, i, "area", "long transaction refused by write preserve"); }
            } else {
                if (s == Status::WARN_WRITE_WITHOUT_WP || s == Status::ERR_READ_AREA_VIOLATION) { bad(t, i, "area", "short transaction has no areas"); }
                if (s == Status::WARN_CONFLICT_ON_WRITE_PRESERVE && !wr) { bad(t, i, "area", "read refused this way"); }
            }
        }
    }
    // protection of preserved storages from SHORT transactions
    for (std::size_t l = 0; l < c.txs.size(); ++l) {
        auto& L = *c.txs[l];
        if (L.k != Kind::LONG || L.wp.empty() || L.begin_s != Status::OK) { continue; }
        // from when on the preserve was certainly effective: the first answered operation
        std::uint64_t from = ~0ULL;
        for (auto& r : L.res) {
            if (r.done) {
                from = r.r;
                break;
            }
        }
        std::uint64_t until = L.commit_c != 0 ? L.commit_c : 0;
        if (L.out == Out::ABORT_OP || L.out == Out::ABORT_USER) {
            until = 0;
            for (auto& r : L.res) {
                if (r.done) { until = std::max(until, r.c); }
            }
        }
        if (from >= until) { continue; }
        for (std::size_t t = 0; t < c.txs.size(); ++t) {
            auto& x = *c.txs[t];
            if (x.k != Kind::SHORT || x.begin_s != Status::OK) { continue; }
            for (std::size_t i = 0; i < x.ops.size(); ++i) {
                auto& o = x.ops[i];
                auto& r = x.res[i];
                if (!r.done) { break; }
                if (L.wp.count(o.st) == 0 || r.c < from || r.r > until) { continue; }
                res.count("short_ops_on_preserved");
                bool wr = is_write(o.t);
                if (wr && o.t != OpT::UPSERT && r.s != Status::WARN_CONFLICT_ON_WRITE_PRESERVE) {
                    bad(t, i, "area", "write to a preserved storage not refused");
                }
                if (!wr && r.s != Status::ERR_CC) { bad(t, i, "area", "read of a preserved storage not refused"); }
            }
        }
    }
}

bool reason_class_ok(Kind k, Status s, reason_code rc) {
    switch (rc) {
        case reason_code::KVS_DELETE:
        case reason_code::KVS_INSERT:
        case reason_code::KVS_UPDATE: return s == Status::ERR_KVS || (k == Kind::LONG && s == Status::ERR_CC);
        case reason_code::CC_LTX_PHANTOM_AVOIDANCE:
        case reason_code::CC_LTX_READ_UPPER_BOUND_VIOLATION:
        case reason_code::CC_LTX_WRITE_COMMITTED_READ_PROTECTION: return s == Status::ERR_CC && k == Kind::LONG;
        case reason_code::CC_LTX_READ_AREA_VIOLATION: return s == Status::ERR_READ_AREA_VIOLATION && k == Kind::LONG;
        case reason_code::CC_OCC_WP_VERIFY:
        case reason_code::CC_OCC_READ_VERIFY:
        case reason_code::CC_OCC_PHANTOM_AVOIDANCE: return s == Status::ERR_CC && k == Kind::SHORT;
        case reason_code::USER_ABORT:
        case reason_code::UNKNOWN: return false;
    }
    return false;
}

void check_reason(Case& c, std::string const& replay) {
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto& x = *c.txs[t];
        if (!x.aborted()) { continue; }
        auto bad = [&](std::string const& key, std::string const& why) {
            res.violation("reason", key, "T" + std::to_string(t) + ": " + why + "\n" + describe(c), replay);
        };
        if (!x.have_info) {
            bad("no_info", "no result information after an abort");
            continue;
        }
        res.count("reasons_checked");
        std::string rn = x.info_reason >= reason_code::UNKNOWN && x.info_reason <= reason_code::USER_ABORT
                                 ? std::string(to_string_view(x.info_reason))
                                 : "code " + std::to_string(static_cast<int>(x.info_reason));
        if (x.out == Out::ABORT_USER) {
            if (x.info_reason != reason_code::USER_ABORT) { bad("user:" + rn, "the client's abort is reported as " + rn); }
            continue;
        }
        Status s = x.commit_ret;
        if (x.out == Out::ABORT_OP) {
            for (auto& r : x.res) {
                if (r.done) { s = r.s; }
            }
        }
        if (x.out == Out::ABORT_COMMIT && x.use_cb && x.cb_reason != x.info_reason) {
            bad("cb_differs:" + rn, "the callback carried reason " + std::to_string(static_cast<int>(x.cb_reason)) + " but the result information says " + rn);
        }
        if (!reason_class_ok(x.k, s, x.info_reason)) {
            bad("class:" + sstr(s) + ":" + rn, "status " + sstr(s) + " does not go with reason " + rn);
            continue;
        }
        res.count("reason_" + rn);
        if (c.txs.size() == 1 && (x.info_reason == reason_code::KVS_INSERT || x.info_reason == reason_code::KVS_UPDATE ||
                                  x.info_reason == reason_code::KVS_DELETE)) {
            res.violation("status", "lone:" + rn, "T0 was alone and refused for " + rn + "\n" + describe(c), replay);
        }
        // the storage / key named must be ones the transaction worked on in a fitting way
        auto uses = [&](auto&& f) {
            for (std::size_t i = 0; i < x.ops.size(); ++i) {
                if (!x.res[i].done) { break; }
                auto& o = x.ops[i];
                if (x.info_has_st && c.st_names[static_cast<std::size_t>(o.st)] != x.info_st) { continue; }
                if (f(o, x.res[i])) { return true; }
            }
            return false;
        };
        auto key_op = [&](OpT want) {
            return uses([&](Op const& o, OpRes const&) {
                if (x.info_has_key && o.key != x.info_key) { return false; }
                return o.t == want;
            });
        };
        // somebody else could have changed the existence / contents of the key
        auto other_wrote = [&](auto&& f) {
            for (std::size_t u = 0; u < c.txs.size(); ++u) {
                if (u == t) { continue; }
                auto& y = *c.txs[u];
                for (std::size_t i = 0; i < y.ops.size(); ++i) {
                    if (!y.res[i].done) { break; }
                    auto& o = y.ops[i];
                    if (x.info_has_st && c.st_names[static_cast<std::size_t>(o.st)] != x.info_st) { continue; }
                    if (f(y, o, y.res[i])) { return true; }
                }
            }
            return false;
        };
        bool ok = true;
        std::string why;
        switch (x.info_reason) {
            case reason_code::KVS_INSERT:
                ok = key_op(OpT::INSERT) || key_op(OpT::UPSERT);
                why = "names a key this transaction did not insert";
                if (ok && !other_wrote([&](Tx const& y, Op const& o, OpRes const& r) {
                        return (y.committed() || y.commit_c != 0) && o.key == x.info_key && r.s == Status::OK && (o.t == OpT::INSERT || o.t == OpT::UPSERT);
                    })) {
                    ok = false;
                    why = "no other transaction inserted that key";
                }
                break;
            case reason_code::KVS_UPDATE:
                ok = key_op(OpT::UPDATE) || key_op(OpT::UPSERT) || key_op(OpT::INSERT);
                why = "names a key this transaction did not update";
                if (ok && !other_wrote([&](Tx const& y, Op const& o, OpRes const& r) {
                        return y.commit_c != 0 && o.key == x.info_key && o.t == OpT::DELETE && !is_err(r.s);
                    })) {
                    ok = false;
                    why = "no other transaction deleted that key";
                }
                break;
            case reason_code::KVS_DELETE:
                ok = key_op(OpT::DELETE);
                why = "names a key this transaction did not delete";
                if (ok && !other_wrote([&](Tx const& y, Op const& o, OpRes const& r) {
                        return y.commit_c != 0 && o.key == x.info_key && o.t == OpT::DELETE && !is_err(r.s);
                    })) {
                    ok = false;
                    why = "no other transaction deleted that key";
                }
                break;
            case reason_code::CC_OCC_READ_VERIFY:
                ok = uses([&](Op const& o, OpRes const&) {
                    if (o.t == OpT::SCAN) {
                        return !x.info_has_key || in_range(x.info_key, o.sc);
                    }
                    if (x.info_has_key && o.key != x.info_key) { return false; }
                    // insert, update and delete observe the existence; a key newly created beside an
                    // observed absence counts as read
                    return true;
                });
                why = "names a key this transaction did not read";
                if (ok && x.info_has_key && !other_wrote([&](Tx const& y, Op const& o, OpRes const& r) {
                        return y.k != Kind::RTX && o.key == x.info_key && is_write(o.t) && !is_err(r.s);
                    })) {
                    // the background reclamation may have taken out a deleted key; only keys deleted before qualify
                    bool was_present = false;
                    for (std::size_t s2 = 0; s2 < c.init.size(); ++s2) {
                        if (c.st_names[s2] == x.info_st) { was_present = c.init[s2].count(x.info_key) != 0; }
                    }
                    if (was_present) {
                        ok = false;
                        why = "no other transaction wrote that key";
                    }
                }
                break;
            case reason_code::CC_OCC_WP_VERIFY:
                ok = uses([&](Op const&, OpRes const&) { return true; });
                why = "names a storage this transaction did not use";
                if (ok) {
                    ok = false;
                    why = "no long transaction had preserved that storage";
                    for (std::size_t u = 0; u < c.txs.size() && !ok; ++u) {
                        auto& y = *c.txs[u];
                        if (y.k != Kind::LONG) { continue; }
                        for (auto w : y.wp) {
                            bool used = false;
                            for (std::size_t i = 0; i < x.ops.size(); ++i) { used = used || (x.res[i].done && x.ops[i].st == w); }
                            if (used && (!x.info_has_st || c.st_names[static_cast<std::size_t>(w)] == x.info_st)) { ok = true; }
                        }
                    }
                }
                break;
            case reason_code::CC_OCC_PHANTOM_AVOIDANCE:
                ok = uses([&](Op const& o, OpRes const& r) {
                    return o.t == OpT::SCAN || r.s == Status::WARN_NOT_FOUND || r.s == Status::ERR_CC || o.t == OpT::INSERT || o.t == OpT::UPSERT;
                });
                why = "this transaction observed no range or absence there";
                break;
            case reason_code::CC_LTX_READ_AREA_VIOLATION:
                ok = uses([&](Op const& o, OpRes const&) { return !ra_allows(x, o.st); });
                why = "names a storage inside of the declared area";
                break;
            case reason_code::CC_LTX_WRITE_COMMITTED_READ_PROTECTION:
            case reason_code::CC_LTX_PHANTOM_AVOIDANCE:
                ok = uses([&](Op const& o, OpRes const&) {
                    if (x.info_has_key && o.key != x.info_key) { return false; }
                    return is_write(o.t);
                });
                why = "names a key this transaction did not write";
                break;
            case reason_code::CC_LTX_READ_UPPER_BOUND_VIOLATION:
                ok = uses([&](Op const&, OpRes const&) { return true; });
                why = "names a storage this transaction did not use";
                break;
            default: break;
        }
        if (!ok) { bad("unfounded:" + rn + ":" + why, rn + " " + why); }
    }
}

void check_callback(Case& c, std::string const& replay) {
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto& x = *c.txs[t];
        if (x.k == Kind::RTX && x.out == Out::ABORT_COMMIT) {
            res.violation("rtx", "commit:" + sstr(x.commit_ret), "a read only transaction's commit failed\n" + describe(c), replay);
        }
        if (x.commit_c == 0 || x.out == Out::STALE) { continue; }
        if (x.use_cb) {
            res.count("callbacks_checked");
            auto n = x.cb_n.load();
            if (n != 1) {
                res.violation("callback", "count:" + std::to_string(n), "callback called " + std::to_string(n) + " times\n" + describe(c), replay);
            }
            if (x.cb_s == Status::OK && x.cb_reason != reason_code::UNKNOWN) {
                res.violation("reason", "ok_with_reason", "the callback of a successful commit carried an abort reason\n" + describe(c), replay);
            }
            if (x.cb_s != Status::OK && x.cb_s != Status::ERR_CC && x.cb_s != Status::ERR_KVS) {
                res.violation("callback", "status:" + sstr(x.cb_s), "callback carried " + sstr(x.cb_s) + "\n" + describe(c), replay);
            }
        } else if (x.commit_ret != Status::OK && x.commit_ret != Status::ERR_CC && x.commit_ret != Status::ERR_KVS) {
            res.violation("callback", "ret:" + sstr(x.commit_ret), "commit answered " + sstr(x.commit_ret) + "\n" + describe(c), replay);
        }
    }
}

void check_states(Case& c, std::string const& replay) {
    using SK = TxState::StateKind;
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto& x = *c.txs[t];
        if (x.states.empty()) { continue; }
        auto rank = [&](SK k) -> int {
            switch (k) {
                case SK::WAITING_START: return 1;
                case SK::STARTED: return 2;
                case SK::WAITING_CC_COMMIT: return 3;
                case SK::WAITING_DURABLE: return 4;
                case SK::DURABLE: return 5;
                case SK::ABORTED: return 6;
                default: return -1;
            }
        };
        std::string seq;
        bool ok = true;
        std::string why;
        int last = 0;
        auto fail = [&](std::string const& w) {
            if (ok) { why = w; }
            ok = false;
        };
        for (auto& s : x.states) {
            seq += std::string(to_string_view(s.second)) + "@t" + std::to_string(s.first) + " ";
            int rk = rank(s.second);
            if (rk < 0) { fail("unknown state"); }
            if (rk <= last) { fail("state went back"); }
            if (rk == 6 && (last == 4 || last == 5)) { fail("aborted after commit"); }
            last = std::max(last, rk);
            if (x.k == Kind::SHORT && (s.second == SK::WAITING_START)) { fail("state does not exist for SHORT"); }
            if (x.k != Kind::LONG && s.second == SK::WAITING_CC_COMMIT) { fail("state does not exist for this kind"); }
            if ((rk == 4 || rk == 5) && (x.commit_c == 0 || s.first < x.commit_c)) { fail("committed state before commit"); }
            if ((rk == 4 || rk == 5) && x.out != Out::COMMITTED) { fail("committed state of an aborted transaction"); }
            if (rk == 6 && !x.aborted() && x.out != Out::STALE) { fail("aborted state of a committed transaction"); }
        }
        auto lastk = x.states.back().second;
        auto seen = [&](SK k) {
            auto i = x.seen.find(k);
            return i == x.seen.end() ? 0 : i->second;
        };
        if (x.premature_after_start != 0) { fail("too early for a call after it had started"); }
        if (seen(SK::WAITING_START) != 0) { res.count("state_waiting_start_seen"); }
        for (std::size_t j = 0; j < x.res.size(); ++j) {
            auto& r = x.res[j];
            bool looked = r.s == Status::OK || r.s == Status::WARN_NOT_FOUND || r.s == Status::WARN_ALREADY_EXISTS;
            if (x.ops[j].t != OpT::UPSERT && r.done && looked && seen(SK::WAITING_START) > r.r) { fail("waiting for its start after it worked"); }
        }
        if (x.commit_c != 0 && x.out != Out::STALE && x.commit_r != 0 && std::max(seen(SK::WAITING_START), seen(SK::STARTED)) > x.commit_r) {
            fail("running after the commit request");
        }
        if (x.out_t != 0 && seen(SK::WAITING_CC_COMMIT) > x.out_t) { fail("waiting for commit after the answer"); }
        if (x.aborted() && std::max(seen(SK::WAITING_START), seen(SK::STARTED)) > x.out_t) { fail("running after the abort"); }
        if (seen(SK::WAITING_CC_COMMIT) != 0) { res.count("state_waiting_commit_seen"); }
        if (x.out == Out::COMMITTED && lastk != SK::WAITING_DURABLE && lastk != SK::DURABLE) { fail("no committed state after commit"); }
        if (x.aborted() && lastk != SK::ABORTED) { fail("no aborted state after abort"); }
        res.count("state_sequences");
        res.count("state_last_" + std::string(to_string_view(lastk)));
        if (!ok) {
            static const char* kn[] = {"SHORT", "LONG", "RTX"};
            res.violation("state", std::string(kn[static_cast<int>(x.k)]) + ":" + why,
                          "T" + std::to_string(t) + ": " + why + ": " + seq + "\n" + describe(c), replay);
        }
    }
}

} // namespace

/// LONG transactions by age: what they were told, whether they had to wait, why they were aborted
void check_priority(Case& c, std::string const& replay) {
    for (std::size_t i = 0; i < c.txs.size(); ++i) {
        auto& x = *c.txs[i];
        if (x.k != Kind::LONG || x.begin_s != Status::OK) { continue; }
        auto bad = [&](std::string const& key, std::string const& why) {
            res.violation("priority", key, "T" + std::to_string(i) + ": " + why + "\n" + describe(c), replay);
        };
        // may an older one have been alive at that moment?
        auto older_maybe = [&](std::uint64_t at) {
            for (auto& y : c.txs) {
                if (y.get() != &x && y->k == Kind::LONG && y->begin_s == Status::OK && y->begin_c < x.begin_r && y->out_t > at) { return true; }
            }
            return false;
        };
        auto older_surely = [&](std::uint64_t from, std::uint64_t to) {
            for (auto& y : c.txs) {
                if (y.get() != &x && y->k == Kind::LONG && y->begin_s == Status::OK && y->begin_r < x.begin_c && y->begin_r < from &&
                    y->step_c > to) {
                    return true;
                }
            }
            return false;
        };
        for (auto& q : x.prio) {
            bool no = !older_maybe(q.c);
            bool yes = older_surely(q.c, q.r);
            if (no) { res.count("priority_first"); }
            if (yes) { res.count("priority_later"); }
            if (no && !q.highest) { bad("not_first", "told not to have the highest priority though every older LONG transaction had ended"); }
            if (yes && q.highest) { bad("not_last", "told to have the highest priority though an older LONG transaction was running"); }
        }
        if (x.commit_c != 0 && x.use_cb && x.commit_r != 0 && !older_maybe(x.commit_c)) {
            res.count("oldest_commits");
            if (!x.commit_bool) { bad("oldest_waits", "the commit had to wait though every older LONG transaction had ended"); }
        }
        if (!older_maybe(x.begin_c)) {
            res.count("oldest_lives");
            if ((x.out == Out::ABORT_OP || x.out == Out::ABORT_COMMIT) && x.have_info &&
                x.info_reason != reason_code::CC_LTX_READ_AREA_VIOLATION) {
                bad("oldest_aborted", "aborted with reason " + std::string(to_string_view(x.info_reason)) +
                                              " though no older LONG transaction was running since it began");
            }
        }
    }
}

void check_case(Case& c, Profile const& p, std::string const& replay) {
    check_reads(c, replay);
    check_scan_shape(c, replay);
    check_status(c, replay);
    check_reason(c, replay);
    check_priority(c, replay);
    check_callback(c, replay);
    if (p.states) { check_states(c, replay); }
    Checker ck(c);
    if (!ck.serializable()) {
        Checker a(c);
        std::string tag = "ser";
        std::string key;
        if (a.serializable(false)) {
            tag = "rtx";
            key = "rtx_inconsistent";
        } else if (a.serializable(true, true)) {
            tag = "phantom";
            key = "absence";
        } else if (a.serializable(true, false, false)) {
            key = "realtime";
        } else {
            key = "cycle";
        }
        // overtaking a waiting long transaction is an option of its own
        if (c.bypass) { key = "waiting_bypass_" + key; }
        res.violation(tag, key, "no serial order explains the committed transactions (" + key + ")\n" + describe(c), replay);
    }
    res.maxi("orders_tried", ck.orders);
}

std::uint64_t signature(Case const& c) {
    bool inter = false;
    for (std::size_t a = 0; a < c.txs.size() && !inter; ++a) {
        for (std::size_t b = 0; b < c.txs.size() && !inter; ++b) {
            auto& x = *c.txs[a];
            auto& y = *c.txs[b];
            if (a == b || x.out == Out::STALE || y.out == Out::STALE) { continue; }
            if (x.out_t < y.begin_c || y.out_t < x.begin_c) { continue; }
            for (std::size_t i = 0; i < x.ops.size() && !inter; ++i) {
                if (!x.res[i].done || !is_write(x.ops[i].t)) { continue; }
                for (std::size_t j = 0; j < y.ops.size(); ++j) {
                    if (!y.res[j].done || y.ops[j].st != x.ops[i].st) { continue; }
                    if (y.ops[j].t == OpT::SCAN ? in_range(x.ops[i].key, y.ops[j].sc) : y.ops[j].key == x.ops[i].key) {
                        inter = true;
                        break;
                    }
                }
            }
        }
    }
    if (!inter && c.txs.size() > 1) { return 0; }
    // names of the written values do not matter, who wrote them does
    auto strip = [](std::string const& v) {
        auto d = v.find('.');
        return v.substr(0, 1) + (d == std::string::npos ? v : v.substr(d));
    };
    std::uint64_t h = 17;
    auto add = [&](std::uint64_t v) { h = mix(h, v); };
    for (auto& m : c.init) {
        for (auto& e : m) { add(hash_str(e.first)); }
        add(7);
    }
    for (auto& tp : c.txs) {
        auto& x = *tp;
        add(static_cast<std::uint64_t>(x.k) * 31 + static_cast<std::uint64_t>(x.out));
        for (auto w : x.wp) { add(static_cast<std::uint64_t>(w) + 100); }
        for (std::size_t i = 0; i < x.ops.size(); ++i) {
            if (!x.res[i].done) { break; }
            add(static_cast<std::uint64_t>(x.ops[i].t) * 16 + static_cast<std::uint64_t>(x.ops[i].st));
            add(hash_str(x.ops[i].key));
            add(static_cast<std::uint64_t>(static_cast<int>(x.res[i].s) + 1000));
            if (x.res[i].s == Status::OK && x.ops[i].t == OpT::SEARCH) { add(hash_str(strip(x.res[i].val))); }
            for (auto& it : x.res[i].items) { add(hash_str(it.key + strip(it.val))); }
        }
    }
    return h == 0 ? 1 : h;
}

} // namespace vh
