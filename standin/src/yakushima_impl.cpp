#include "yakushima/include/kvs.h"

#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <shared_mutex>

#include "monitor.h"

#ifndef YAKUSHIMA_MAX_PARALLEL_SESSIONS
#define YAKUSHIMA_MAX_PARALLEL_SESSIONS 300
#endif

namespace yakushima {

namespace {

struct leaf {
    node_version64 ver;
    std::uint32_t vid{0};
    std::uint32_t vs{0};
    std::vector<std::pair<std::string, void*>> ents; // sorted
    void publish() { ver.si_store(vid, vs); }
    auto find(std::string_view k) {
        return std::lower_bound(ents.begin(), ents.end(), k,
                                [](auto const& e, std::string_view x) {
                                    return std::string_view(e.first) < x;
                                });
    }
};

} // namespace

class tree_instance {
public:
    tree_instance() {
        auto l = std::make_unique<leaf>();
        l->publish();
        leaves_.emplace(std::string{}, std::move(l));
    }
    ~tree_instance() { uncount(); }

    /// its entries are no longer part of any tree in use
    void uncount() {
        if (uncounted_) { return; }
        uncounted_ = true;
        for (auto& l : leaves_) {
            standin::idx_entries.fetch_sub(static_cast<std::int64_t>(l.second->ents.size()),
                                           std::memory_order_relaxed);
        }
    }

    using map_t = std::map<std::string, std::unique_ptr<leaf>, std::less<>>;

    std::shared_mutex mtx;

    // lock needed by caller for all below ---------------------------------------
    map_t::iterator cover(std::string_view key) { // leaf whose region contains key
        auto it = leaves_.upper_bound(key);
        --it; // the first leaf has lower bound ""
        return it;
    }

    status put(std::string_view key, void* val, bool unique, inserted_node_info* info) {
        auto it = cover(key);
        leaf& l = *it->second;
        auto pos = l.find(key);
        if (pos != l.ents.end() && pos->first == key) {
            if (unique) { return status::WARN_UNIQUE_RESTRICTION; }
            pos->second = val;
            return status::OK;
        }
        auto cap = standin::leaf_capacity.load(std::memory_order_relaxed);
        if (l.ents.size() < cap) {
            l.ents.emplace(pos, std::string(key), val);
            ++l.vid;
            l.publish();
            if (info != nullptr) { *info = {&l.ver, nullptr}; }
        } else {
            standin::idx_splits.fetch_add(1, std::memory_order_relaxed);
            l.ents.emplace(pos, std::string(key), val);
            auto mid = l.ents.size() / 2;
            auto nl = std::make_unique<leaf>();
            nl->ents.assign(std::make_move_iterator(l.ents.begin() + static_cast<long>(mid)),
                            std::make_move_iterator(l.ents.end()));
            l.ents.resize(mid);
            ++l.vid;
            ++l.vs;
            nl->vid = l.vid;
            nl->vs = l.vs;
            nl->publish();
            l.publish();
            if (info != nullptr) { *info = {&l.ver, &nl->ver}; }
            std::string lb = nl->ents.front().first;
            leaves_.emplace(std::move(lb), std::move(nl));
        }
        if (!uncounted_) { standin::idx_entries.fetch_add(1, std::memory_order_relaxed); }
        return status::OK;
    }

    status remove(std::string_view key) {
        auto it = cover(key);
        leaf& l = *it->second;
        auto pos = l.find(key);
        if (pos == l.ents.end() || pos->first != key) { return status::OK_NOT_FOUND; }
        l.ents.erase(pos); // unhooking an entry leaves the node version as it is
        if (!uncounted_) { standin::idx_entries.fetch_sub(1, std::memory_order_relaxed); }
        if (l.ents.empty() && leaves_.size() > 1) {
            ++l.vid; // a node taken out of the tree never compares equal again
            ++l.vs;
            l.publish();
            standin::idx_leaf_removals.fetch_add(1, std::memory_order_relaxed);
            if (it == leaves_.begin()) {
                auto nx = std::next(it);
                retired_.emplace_back(std::move(it->second));
                it->second = std::move(nx->second); // region of the next leaf grows to the left
                leaves_.erase(nx);
            } else {
                retired_.emplace_back(std::move(it->second));
                leaves_.erase(it); // region of the previous leaf grows to the right
            }
        }
        return status::OK;
    }

    bool uncounted_{false};
    map_t leaves_;
    std::vector<std::unique_ptr<leaf>> retired_;
};

namespace {

struct registry {
    std::shared_mutex mtx;
    std::map<std::string, std::unique_ptr<tree_instance>, std::less<>> trees;
    std::vector<std::unique_ptr<tree_instance>> retired;
    std::mutex tok_mtx;
    std::set<void*> tokens;
};

registry& reg() {
    static auto* r = new registry(); // NOLINT: lives until process end
    return *r;
}

tree_instance* find_tree(std::string_view name) {
    auto& r = reg();
    std::shared_lock lk{r.mtx};
    auto it = r.trees.find(name);
    return it == r.trees.end() ? nullptr : it->second.get();
}

bool below_left(std::string_view k, std::string_view l, scan_endpoint le) {
    if (le == scan_endpoint::INF) { return false; }
    if (le == scan_endpoint::INCLUSIVE) { return k < l; }
    return k <= l;
}
bool above_right(std::string_view k, std::string_view r, scan_endpoint re) {
    if (re == scan_endpoint::INF) { return false; }
    if (re == scan_endpoint::INCLUSIVE) { return k > r; }
    return k >= r;
}

struct range {
    std::string l;
    scan_endpoint le;
    std::string r;
    scan_endpoint re;
};

// one pass, leaf by leaf. hold=true keeps the lock over the whole pass.
void scan_pass(tree_instance& t, range const& g, std::size_t max_size, bool r2l, bool hold,
               std::vector<std::pair<std::string, void*>>& out, std::vector<nv_pair>& nvec) {
    out.clear();
    nvec.clear();
    std::shared_lock lk{t.mtx};
    if (!r2l) {
        std::string cursor = g.le == scan_endpoint::INF ? std::string{} : g.l;
        std::string last;
        bool have_last{false};
        for (;;) {
            auto it = t.cover(cursor);
            leaf& lf = *it->second;
            nv_pair nv{lf.ver.get_body(), &lf.ver};
            bool pushed{false};
            bool done{false};
            for (auto& e : lf.ents) {
                if (below_left(e.first, g.l, g.le)) { continue; }
                if (have_last && e.first <= last) { continue; }
                if (above_right(e.first, g.r, g.re)) {
                    done = true;
                    break;
                }
                out.emplace_back(e);
                nvec.emplace_back(nv);
                pushed = true;
                if (max_size != 0 && out.size() >= max_size) { return; }
            }
            if (!pushed) { nvec.emplace_back(nv); }
            if (done) { return; }
            if (pushed) {
                last = out.back().first;
                have_last = true;
            }
            auto nx = std::next(it);
            if (nx == t.leaves_.end()) { return; }
            if (above_right(nx->first, g.r, g.re)) { return; }
            cursor = nx->first;
            if (!hold) {
                lk.unlock();
                standin::noise();
                lk.lock();
            }
        }
    }
    // right to left, unbounded on the right
    auto it = t.leaves_.end();
    while (it != t.leaves_.begin()) {
        --it;
        leaf& lf = *it->second;
        nv_pair nv{lf.ver.get_body(), &lf.ver};
        bool pushed{false};
        for (auto e = lf.ents.rbegin(); e != lf.ents.rend(); ++e) {
            if (above_right(e->first, g.r, g.re)) { continue; }
            if (below_left(e->first, g.l, g.le)) {
                if (!pushed) { nvec.emplace_back(nv); }
                return;
            }
            out.emplace_back(*e);
            nvec.emplace_back(nv);
            pushed = true;
            if (max_size != 0 && out.size() >= max_size) { return; }
        }
        if (!pushed) { nvec.emplace_back(nv); }
        if (below_left(it->first, g.l, g.le)) { return; }
    }
}

} // namespace

namespace core {

status get(std::string_view st, std::string_view key, void*& out, nv_pair* checked) {
    standin::noise();
    standin::idx_gets.fetch_add(1, std::memory_order_relaxed);
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    status rc{status::WARN_NOT_EXIST};
    {
        std::shared_lock lk{t->mtx};
        leaf& l = *t->cover(key)->second;
        if (checked != nullptr) { *checked = {l.ver.get_body(), &l.ver}; }
        auto pos = l.find(key);
        if (pos != l.ents.end() && pos->first == key) {
            out = pos->second;
            rc = status::OK;
        }
    }
    standin::noise();
    return rc;
}

status put(std::string_view st, std::string_view key, void* val, bool unique,
           inserted_node_info* info) {
    standin::uncounted_scope us;
    standin::noise();
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    status rc{};
    {
        std::unique_lock lk{t->mtx};
        rc = t->put(key, val, unique, info);
    }
    (rc == status::OK ? standin::idx_puts : standin::idx_dup_puts)
            .fetch_add(1, std::memory_order_relaxed);
    standin::noise();
    return rc;
}

status remove(std::string_view st, std::string_view key) {
    standin::uncounted_scope us;
    standin::noise();
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    status rc{};
    {
        std::unique_lock lk{t->mtx};
        rc = t->remove(key);
    }
    if (rc == status::OK) { standin::idx_removes.fetch_add(1, std::memory_order_relaxed); }
    standin::noise();
    return rc;
}

status scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
            scan_endpoint re, std::vector<std::pair<std::string, void*>>& out,
            std::vector<nv_pair>& nvec, std::size_t max_size, bool right_to_left) {
    standin::noise();
    standin::idx_scans.fetch_add(1, std::memory_order_relaxed);
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    if (right_to_left && (max_size != 1 || re != scan_endpoint::INF)) {
        return status::ERR_BAD_USAGE;
    }
    range g{std::string(l), le, std::string(r), re};
    for (int i = 0; i < 4; ++i) {
        scan_pass(*t, g, max_size, right_to_left, i == 3, out, nvec);
        if (nvec.size() <= out.size() + 2 || out.empty()) { break; }
        // the leaves moved while walking: walk again, at last under the lock
    }
    standin::noise();
    return status::OK;
}

} // namespace core

storage* storage::get_storages() {
    static storage s;
    return &s;
}

void storage::store_root_ptr(void* p) {
    standin::uncounted_scope us;
    if (p != nullptr) { return; }
    auto& r = reg();
    std::unique_lock lk{r.mtx};
    for (auto& t : r.trees) { r.retired.emplace_back(std::move(t.second)); }
    r.trees.clear();
}

void init() {}

void fin() {
    auto& r = reg();
    std::unique_lock lk{r.mtx};
    r.trees.clear();
    r.retired.clear();
    std::unique_lock lk2{r.tok_mtx};
    for (auto* t : r.tokens) { delete static_cast<char*>(t); } // NOLINT
    r.tokens.clear();
    standin::idx_open_tokens.store(0);
}

status enter(Token& token) {
    standin::uncounted_scope us;
    auto& r = reg();
    std::unique_lock lk{r.tok_mtx};
    if (r.tokens.size() >= YAKUSHIMA_MAX_PARALLEL_SESSIONS) { return status::WARN_MAX_SESSIONS; }
    token = new char; // NOLINT
    r.tokens.insert(token);
    standin::idx_open_tokens.store(r.tokens.size());
    return status::OK;
}

status leave(Token token) {
    auto& r = reg();
    std::unique_lock lk{r.tok_mtx};
    if (r.tokens.erase(token) == 0) { return status::WARN_INVALID_TOKEN; }
    delete static_cast<char*>(token); // NOLINT
    standin::idx_open_tokens.store(r.tokens.size());
    return status::OK;
}

status create_storage(std::string_view name) {
    standin::uncounted_scope us;
    auto& r = reg();
    std::unique_lock lk{r.mtx};
    auto [it, ok] = r.trees.try_emplace(std::string(name), nullptr);
    if (!ok) { return status::WARN_UNIQUE_RESTRICTION; }
    it->second = std::make_unique<tree_instance>();
    return status::OK;
}

status find_storage(std::string_view name, tree_instance** out) {
    auto* t = find_tree(name);
    if (out != nullptr) { *out = t; }
    return t == nullptr ? status::WARN_NOT_EXIST : status::OK;
}

status delete_storage(std::string_view name) {
    standin::uncounted_scope us;
    auto& r = reg();
    std::unique_lock lk{r.mtx};
    auto it = r.trees.find(name);
    if (it == r.trees.end()) { return status::WARN_NOT_EXIST; }
    {
        std::unique_lock lk2{it->second->mtx};
        it->second->uncount();
    }
    r.retired.emplace_back(std::move(it->second)); // readers may still hold it
    r.trees.erase(it);
    return status::OK;
}

status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out) {
    auto& r = reg();
    std::shared_lock lk{r.mtx};
    out.clear();
    for (auto& t : r.trees) { out.emplace_back(t.first, t.second.get()); }
    return out.empty() ? status::WARN_NOT_EXIST : status::OK;
}

status remove(Token /*token*/, std::string_view st, std::string_view key) {
    return core::remove(st, key);
}

// iterator based scan ---------------------------------------------------------------

class iscan_context {
public:
    tree_instance* t{};
    range g{};
    bool r2l{};
    bool started{false};
    bool ended{false};
    std::string last{};
    // leaf reported last
    node_version64* nvp{nullptr};
    node_version64_body nvb{};

    status step(void*& value, bnv_callback const& cb) {
        if (ended) { return status::OK_SCAN_END; }
        std::shared_lock lk{t->mtx};
        // upper/lower edge of the region already walked
        std::optional<std::string> cursor;
        for (;;) {
            tree_instance::map_t::iterator it;
            if (!r2l) {
                if (cursor) {
                    it = t->cover(*cursor);
                } else if (started) {
                    it = t->cover(last);
                } else {
                    it = t->cover(g.le == scan_endpoint::INF ? std::string{} : g.l);
                }
            } else {
                if (cursor) { // strictly below the region starting at *cursor
                    it = t->leaves_.lower_bound(*cursor);
                    if (it == t->leaves_.begin()) {
                        ended = true;
                        return status::OK_SCAN_END;
                    }
                    --it;
                } else if (started) {
                    it = t->cover(last);
                } else if (g.re == scan_endpoint::INF) {
                    it = std::prev(t->leaves_.end());
                } else {
                    it = t->cover(g.r);
                }
            }
            leaf& lf = *it->second;
            auto body = lf.ver.get_body();
            if (nvp != &lf.ver || nvb != body) {
                nvp = &lf.ver;
                nvb = body;
                if (cb && cb(nvp, nvb)) { return status::WARN_ABORTED_BY_USER; }
            }
            auto hit = [&](std::pair<std::string, void*> const& e) {
                last = e.first;
                started = true;
                value = e.second;
            };
            if (!r2l) {
                for (auto& e : lf.ents) {
                    if (below_left(e.first, g.l, g.le)) { continue; }
                    if (started && e.first <= last) { continue; }
                    if (above_right(e.first, g.r, g.re)) {
                        ended = true;
                        return status::OK_SCAN_END;
                    }
                    hit(e);
                    return status::OK;
                }
                auto nx = std::next(it);
                if (nx == t->leaves_.end() || above_right(nx->first, g.r, g.re)) {
                    ended = true;
                    return status::OK_SCAN_END;
                }
                cursor = nx->first;
            } else {
                for (auto e = lf.ents.rbegin(); e != lf.ents.rend(); ++e) {
                    if (above_right(e->first, g.r, g.re)) { continue; }
                    if (started && e->first >= last) { continue; }
                    if (below_left(e->first, g.l, g.le)) {
                        ended = true;
                        return status::OK_SCAN_END;
                    }
                    hit(*e);
                    return status::OK;
                }
                if (it == t->leaves_.begin() ||
                    (g.le != scan_endpoint::INF && it->first <= g.l)) {
                    ended = true;
                    return status::OK_SCAN_END;
                }
                cursor = it->first;
            }
            lk.unlock();
            standin::noise();
            lk.lock();
        }
    }
};

status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
                  scan_endpoint re, bool right_to_left, bool /*early_abort*/, iscan_context*& ctx,
                  void*& value, bnv_callback const& cb) {
    standin::noise();
    standin::idx_scans.fetch_add(1, std::memory_order_relaxed);
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    ctx = new iscan_context(); // NOLINT
    standin::idx_open_iscans.fetch_add(1);
    ctx->t = t;
    ctx->g = range{std::string(l), le, std::string(r), re};
    ctx->r2l = right_to_left;
    return ctx->step(value, cb);
}

status iscan_next(iscan_context* ctx, void*& value, bnv_callback const& cb) {
    standin::noise();
    return ctx->step(value, cb);
}

void iscan_close(iscan_context*& ctx) {
    standin::idx_open_iscans.fetch_sub(1);
    delete ctx; // NOLINT
    ctx = nullptr;
}

} // namespace yakushima
