// What the engine sent to the log store during a case: exactly the committed changes, versions in
// the order of the transactions, every crash image a prefix, nothing reported durable too early.
#include <algorithm>

#include "litmus.h"

namespace vh {

std::vector<blob_id_type> blobs_of(std::string const& val) {
    auto h = hash_str(val);
    std::vector<blob_id_type> v;
    if (h % 4 == 0) {
        for (std::uint64_t i = 0; i <= (h >> 8U) % 3; ++i) { v.push_back(mix(h, i)); }
    }
    return v;
}

namespace {

std::string entry_str(Case const& c, standin::log_entry const& e) {
    static const char* kn[] = {"add", "remove", "add_storage", "remove_storage"};
    std::string st = "storage " + std::to_string(e.storage);
    for (std::size_t i = 0; i < c.st_ids.size(); ++i) {
        if (c.st_ids[i] == e.storage) { st = "S" + std::to_string(i); }
    }
    return std::string(" log ") + kn[static_cast<int>(e.kind)] + " " + st + " " + esc(e.key) + " " + esc(e.value) + " version " +
           std::to_string(e.major) + "." + std::to_string(e.minor) + " log epoch " + std::to_string(e.epoch) + " session " +
           std::to_string(e.session) + "\n";
}

std::string describe_log(Case const& c) {
    auto s = describe(c);
    s += " durable before " + std::to_string(c.log_base) + " after " + std::to_string(c.log_top) + "\n";
    for (auto& e : c.log) { s += entry_str(c, e); }
    s += " notifications (marker@durable):";
    for (auto& n : c.notes) { s += " " + std::to_string(n.marker) + "@" + std::to_string(n.durable); }
    return s + "\n";
}

/// net effect of a committed transaction; maybe: it may also be no effect
struct Effect {
    bool maybe{false};
    std::optional<std::string> val;
};
using Effects = std::map<std::pair<int, std::string>, Effect>;

Effects effects(Tx const& t) {
    Effects m;
    for (std::size_t i = 0; i < t.ops.size(); ++i) {
        auto& o = t.ops[i];
        auto& r = t.res[i];
        if (!r.done) { break; }
        auto k = std::make_pair(o.st, o.key);
        if (o.t == OpT::INSERT || o.t == OpT::UPDATE || o.t == OpT::UPSERT) {
            if (r.s == Status::OK) { m[k] = {false, o.val}; }
        } else if (o.t == OpT::DELETE) {
            if (r.s == Status::OK) { m[k] = {false, std::nullopt}; }
            if (r.s == Status::WARN_CANCEL_PREVIOUS_INSERT) { m.erase(k); }
            if (r.s == Status::WARN_CANCEL_PREVIOUS_UPSERT) { m[k] = {true, std::nullopt}; }
        }
    }
    return m;
}

bool newer(standin::log_entry const& a, standin::log_entry const& b) {
    return a.major != b.major ? a.major > b.major : a.minor > b.minor;
}

std::vector<StMap> image(Case const& c, std::uint64_t d, std::map<std::uint64_t, int> const& st) {
    auto s = c.init;
    std::map<std::pair<int, std::string>, standin::log_entry const*> best;
    for (auto& e : c.log) {
        auto i = st.find(e.storage);
        if (i == st.end() || i->second >= c.nst || e.epoch > d) { continue; }
        auto& b = best[{i->second, e.key}];
        if (b == nullptr || !newer(*b, e)) { b = &e; }
    }
    for (auto& b : best) {
        auto& m = s[static_cast<std::size_t>(b.first.first)];
        if (b.second->kind == standin::log_kind::ADD) {
            m[b.first.second] = b.second->value;
        } else {
            m.erase(b.first.second);
        }
    }
    return s;
}

} // namespace

std::set<int> reported_durable(Case const& c, std::uint64_t d) {
    std::set<int> s;
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto& x = *c.txs[t];
        if (!x.committed()) { continue; }
        bool rep = x.durable_seen != 0 && x.durable_seen <= d;
        for (auto& n : c.notes) { rep = rep || (x.use_cb && n.durable <= d && x.marker <= n.marker); }
        if (rep) { s.insert(static_cast<int>(t)); }
    }
    return s;
}

bool crash_state_ok(Case const& c, std::vector<StMap> const& got, std::uint64_t d, std::string& why) {
    Checker a(c);
    auto req = reported_durable(c, d);
    if (a.survivable(got, req, true)) { return true; }
    if (!a.survivable(got, {}, false)) {
        why = "inconsistent";
    } else if (!a.survivable(got, req, false)) {
        why = "reported_durable_lost";
    } else {
        why = "later_without_earlier";
    }
    return false;
}

void check_log(Case& c, std::string const& replay) {
    auto fail = [&](char const* tag, std::string const& key, std::string const& text) {
        res.violation(tag, key, text + "\n" + describe_log(c), replay);
    };
    auto pe = standin::protocol_error();
    if (!pe.empty()) {
        standin::clear_protocol_error();
        fail("log", "protocol:" + pe, "misuse of the log store: " + pe);
    }
    std::map<std::uint64_t, int> st;
    for (std::size_t i = 0; i < c.st_ids.size(); ++i) { st[c.st_ids[i]] = static_cast<int>(i); }
    // who wrote what
    std::map<std::string, std::pair<int, int>> owner;
    std::map<std::pair<int, std::string>, std::pair<int, int>> removes; // least, most
    std::vector<Effects> eff(c.txs.size());
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        auto& x = *c.txs[t];
        for (std::size_t i = 0; i < x.ops.size(); ++i) { owner[x.ops[i].val] = {static_cast<int>(t), static_cast<int>(i)}; }
        if (!x.committed()) { continue; }
        eff[t] = effects(x);
        for (auto& e : eff[t]) {
            if (e.second.val) { continue; }
            auto& r = removes[e.first];
            // a long transaction ordered before others of its epoch may leave out an overwritten
            // deletion; the crash images show whether that was right
            bool other = false;
            for (std::size_t u = 0; u < c.txs.size(); ++u) {
                other = other || (u != t && c.txs[u]->committed() && x.k == Kind::LONG && effects(*c.txs[u]).count(e.first) != 0);
            }
            if (!e.second.maybe && !other) { ++r.first; }
            ++r.second;
        }
    }
    std::map<std::pair<int, std::string>, int> seen; // (tx, storage/key of an add) -> times
    std::map<std::pair<int, std::string>, int> removed;
    std::map<int, std::set<std::uint64_t>> epochs_of;
    bool exact = true;
    for (auto& e : c.log) {
        auto i = st.find(e.storage);
        if (i == st.end() || i->second >= c.nst || (e.kind != standin::log_kind::ADD && e.kind != standin::log_kind::REMOVE)) {
            fail("log", "foreign_entry", "an entry nobody asked for:" + entry_str(c, e));
            exact = false;
            continue;
        }
        res.count("log_entries_checked");
        if (e.kind == standin::log_kind::REMOVE) {
            ++removed[{i->second, e.key}];
            continue;
        }
        auto w = owner.find(e.value);
        if (w == owner.end()) {
            fail("log", "unknown_value", "logged value was never written:" + entry_str(c, e));
            exact = false;
            continue;
        }
        auto t = static_cast<std::size_t>(w->second.first);
        auto& op = c.txs[t]->ops[static_cast<std::size_t>(w->second.second)];
        if (op.st != i->second || op.key != e.key) {
            fail("log", "wrong_place", "logged under another storage or key:" + entry_str(c, e));
            exact = false;
            continue;
        }
        if (!c.txs[t]->committed()) {
            fail("log", "aborted_logged", "change of a transaction which did not commit is in the log:" + entry_str(c, e));
            exact = false;
            continue;
        }
        auto f = eff[t].find({i->second, e.key});
        if (f == eff[t].end() || f->second.val != e.value) {
            fail("log", "superseded_logged", "not the last change of this key by its transaction:" + entry_str(c, e));
            exact = false;
            continue;
        }
        if (e.blobs != blobs_of(e.value)) {
            fail("log", "large_objects", "large object references differ:" + entry_str(c, e));
        }
        ++seen[{static_cast<int>(t), std::to_string(i->second) + "/" + e.key}];
        epochs_of[static_cast<int>(t)].insert(e.epoch);
    }
    std::set<std::pair<int, std::string>> unlogged;
    for (std::size_t t = 0; t < c.txs.size(); ++t) {
        for (auto& e : eff[t]) {
            if (!e.second.val) { continue; }
            auto n = seen[{static_cast<int>(t), std::to_string(e.first.first) + "/" + e.first.second}];
            if (n == 0) {
                // a blind change overwritten by another one before anybody could see it may be left out
                bool other = false;
                for (std::size_t u = 0; u < c.txs.size(); ++u) { other = other || (u != t && eff[u].count(e.first) != 0); }
                bool seen_by = false;
                for (auto& y : c.txs) {
                    for (std::size_t j = 0; j < y->ops.size(); ++j) {
                        if (y == c.txs[t] || !y->res[j].done) { continue; }
                        seen_by = seen_by || y->res[j].val == *e.second.val;
                        for (auto& it : y->res[j].items) { seen_by = seen_by || it.val == *e.second.val; }
                    }
                }
                for (auto& m : c.fin) {
                    for (auto& q : m) { seen_by = seen_by || q.second == *e.second.val; }
                }
                if (other && !seen_by) {
                    unlogged.insert({static_cast<int>(t), std::to_string(e.first.first) + "/" + e.first.second});
                    res.count("unlogged_invisible");
                    continue;
                }
            }
            if (n != 1) {
                fail("log", n == 0 ? "missing" : "twice",
                     "change of " + esc(e.first.second) + " by committed T" + std::to_string(t) + " is in the log " + std::to_string(n) + " times");
                exact = false;
            }
        }
    }
    bool all_deletes = true;
    for (auto& r : removed) { removes[r.first]; }
    for (auto& r : removes) {
        auto n = removed[r.first];
        if (n != r.second.second) { all_deletes = false; }
        if (n < r.second.first || n > r.second.second) {
            fail("log", n < r.second.first ? "delete_missing" : "delete_extra",
                 "deletions of " + esc(r.first.second) + " in the log: " + std::to_string(n) + ", expected " +
                         std::to_string(r.second.first) + ".." + std::to_string(r.second.second));
            exact = false;
        }
    }
    // order of versions
    Checker base(c);
    bool usable = exact && !c.bypass && base.serializable(false);
    if (usable) {
        auto es = c.log;
        std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return newer(b, a); });
        Checker::Chain ch(static_cast<std::size_t>(c.nst));
        std::map<std::pair<int, std::string>, standin::log_entry const*> last;
        for (auto& e : es) {
            auto s = st[e.storage];
            auto& l = last[{s, e.key}];
            if (l != nullptr && !newer(e, *l)) {
                fail("log", "equal_versions", "two changes of one key carry the same version:" + entry_str(c, *l) + entry_str(c, e));
                usable = false;
            }
            l = &e;
            auto& q = ch[static_cast<std::size_t>(s)][e.key];
            if (e.kind == standin::log_kind::ADD) {
                q.emplace_back(e.value);
            } else {
                q.emplace_back(std::nullopt);
            }
        }
        Checker ck(c);
        ck.chain = &ch;
        ck.unlogged = unlogged;
        if (usable && all_deletes && !ck.serializable(false)) {
            fail("log", "order", "no serial order agrees with the versions of the log entries");
        }
        if (all_deletes) { res.count("log_orders_checked"); }
    }
    // every crash image
    if (usable) {
        std::set<std::uint64_t> ds{c.log_base};
        for (auto& e : c.log) { ds.insert(e.epoch); }
        for (auto& n : c.notes) {
            if (n.durable >= c.log_base && n.durable <= c.log_top) { ds.insert(n.durable); }
        }
        std::vector<StMap> prev;
        for (auto d : ds) {
            auto im = image(c, d, st);
            std::string why;
            if (!crash_state_ok(c, im, d, why)) {
                std::string t;
                for (std::size_t i = 0; i < im.size(); ++i) {
                    t += " image S" + std::to_string(i) + " {";
                    for (auto& e : im[i]) { t += esc(e.first) + "=" + esc(e.second) + " "; }
                    t += "}";
                }
                fail("crash", "image:" + why, "a crash at durable epoch " + std::to_string(d) + " leaves (" + why + ")" + t);
            }
            res.count("crash_images_checked");
            if (im != prev && im != c.init && im != c.fin) { res.count("crash_images_partial"); }
            prev = im;
        }
    }
    // nothing reported durable before it is
    for (std::size_t t = 0; t < c.txs.size() && exact; ++t) {
        auto& x = *c.txs[t];
        if (!x.committed() || eff[t].empty()) { continue; }
        std::uint64_t need = 0;
        for (auto e : epochs_of[static_cast<int>(t)]) { need = std::max(need, e); }
        if (need == 0) { continue; } // deletions only: no entry of its own to recognise
        if (x.durable_seen != 0) {
            res.count("durable_states_checked");
            if (need > x.durable_seen) {
                fail("durable", "state_early", "T" + std::to_string(t) + " was shown durable when the log was durable up to " +
                                                       std::to_string(x.durable_seen) + ", its changes are in epoch " + std::to_string(need));
            }
        }
        if (!x.use_cb) { continue; }
        bool done = false;
        for (auto& n : c.notes) {
            if (n.marker < x.marker || n.durable < c.log_base) { continue; }
            res.count(done ? "durable_notes_more" : "durable_notes_checked");
            if (n.durable < need) {
                fail("durable", "marker_early", "notification " + std::to_string(n.marker) + " covers T" + std::to_string(t) + " (marker " +
                                                        std::to_string(x.marker) + ") when the log was durable up to " + std::to_string(n.durable) +
                                                        ", its changes are in epoch " + std::to_string(need));
                break;
            }
            done = true;
        }
        if (!done && !c.notes.empty() && c.notes.back().marker < x.marker) {
            fail("durable", "not_reported", "T" + std::to_string(t) + " was never reported durable");
        }
    }
}

} // namespace vh
