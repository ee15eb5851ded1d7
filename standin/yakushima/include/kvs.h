/**
 * Stand-in for yakushima (the in-memory index): ordered map per storage, cut into leaves of
 * bounded size, each with a node version, so that the engine's phantom checks see the same
 * kind of information as with the real index:
 *  - every insert/remove in a leaf raises its insert/delete counter by one;
 *  - a split gives both halves the same insert/delete counter and raises the split counter;
 *  - an emptied leaf is unlinked (its version changes) unless it is the only one;
 *  - node version objects stay readable until fin().
 * Scans walk leaf by leaf, releasing the tree lock in between, so they are not atomic.
 */
#pragma once

#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

#include "scheme.h"
#include "version.h"

namespace yakushima {

struct inserted_node_info {
    node_version64* modified_nvp{nullptr};
    node_version64* created_nvp{nullptr};
};

class tree_instance;
class iscan_context;

using nv_pair = std::pair<node_version64_body, node_version64*>;
using bnv_callback = std::function<bool(node_version64*, node_version64_body)>;

// type-erased core, in standin/src/yakushima_impl.cpp
namespace core {
status get(std::string_view st, std::string_view key, void*& out, nv_pair* checked);
status put(std::string_view st, std::string_view key, void* val, bool unique,
           inserted_node_info* info);
status remove(std::string_view st, std::string_view key);
status scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
            scan_endpoint re, std::vector<std::pair<std::string, void*>>& out,
            std::vector<nv_pair>& nvec, std::size_t max_size, bool right_to_left);
} // namespace core

class storage {
public:
    static storage* get_storages();
    void store_root_ptr(void* p);
};

void init();
void fin();
status enter(Token& token);
status leave(Token token);
status create_storage(std::string_view name);
status find_storage(std::string_view name, tree_instance** out = nullptr);
status delete_storage(std::string_view name);
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out);
status remove(Token token, std::string_view st, std::string_view key);

status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
                  scan_endpoint re, bool right_to_left, bool early_abort, iscan_context*& ctx,
                  void*& value, bnv_callback const& cb = nullptr);
status iscan_next(iscan_context* ctx, void*& value, bnv_callback const& cb = nullptr);
void iscan_close(iscan_context*& ctx); // ends and clears the handle

template<class V>
status get(std::string_view st, std::string_view key, std::pair<V*, std::size_t>& out,
           nv_pair* checked_version = nullptr) {
    static_assert(sizeof(V) == sizeof(void*));
    void* p{nullptr};
    auto rc = core::get(st, key, p, checked_version);
    if (rc == status::OK) { out = {reinterpret_cast<V*>(p), sizeof(V)}; } // value is inlined
    return rc;
}

template<class V>
status put(Token /*token*/, std::string_view st, std::string_view key, V* value,
           std::size_t /*len*/ = sizeof(V), V** /*created*/ = nullptr,
           value_align_type /*align*/ = static_cast<value_align_type>(alignof(V)),
           bool unique_restriction = true, inserted_node_info* info = nullptr) {
    static_assert(sizeof(V) == sizeof(void*));
    void* p{nullptr};
    std::memcpy(&p, value, sizeof(p));
    return core::put(st, key, p, unique_restriction, info);
}

template<class V>
status scan(std::string_view st, std::string_view l_key, scan_endpoint l_end,
            std::string_view r_key, scan_endpoint r_end,
            std::vector<std::tuple<std::string, V*, std::size_t>>& out,
            std::vector<nv_pair>* nvec = nullptr, std::size_t max_size = 0,
            bool right_to_left = false) {
    static_assert(sizeof(V) == sizeof(void*));
    std::vector<std::pair<std::string, void*>> res;
    std::vector<nv_pair> nv;
    auto rc = core::scan(st, l_key, l_end, r_key, r_end, res, nv, max_size, right_to_left);
    out.clear();
    if (nvec != nullptr) { nvec->clear(); }
    if (rc != status::OK) { return rc; }
    out.reserve(res.size());
    for (auto& e : res) {
        out.emplace_back(std::move(e.first), reinterpret_cast<V*>(e.second), sizeof(V));
    }
    if (nvec != nullptr) { *nvec = std::move(nv); }
    return rc;
}

} // namespace yakushima
