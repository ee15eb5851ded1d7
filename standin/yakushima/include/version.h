/**
 * Stand-in for yakushima's node versions: a leaf carries a pair of counters, one for
 * inserts/deletes and one for splits, readable at any time without locks.
 */
#pragma once

#include <atomic>
#include <cstdint>
#include <ostream>

namespace yakushima {

class node_version64_body {
public:
    node_version64_body() = default;
    explicit node_version64_body(std::uint64_t v) : v_(v) {}
    [[nodiscard]] std::uint32_t get_vinsert_delete() const {
        return static_cast<std::uint32_t>(v_);
    }
    [[nodiscard]] std::uint32_t get_vsplit() const {
        return static_cast<std::uint32_t>(v_ >> 32U);
    }
    bool operator==(node_version64_body const& r) const { return v_ == r.v_; }
    bool operator!=(node_version64_body const& r) const { return v_ != r.v_; }

private:
    std::uint64_t v_{0};
};

inline std::ostream& operator<<(std::ostream& out, node_version64_body const& b) {
    return out << "{vi:" << b.get_vinsert_delete() << ",vs:" << b.get_vsplit() << "}";
}

class node_version64 {
public:
    [[nodiscard]] node_version64_body get_body() const {
        return node_version64_body{v_.load(std::memory_order_acquire)};
    }
    [[nodiscard]] node_version64_body get_stable_version() const { return get_body(); }

    // stand-in internals
    void si_store(std::uint32_t vid, std::uint32_t vs) {
        v_.store((static_cast<std::uint64_t>(vs) << 32U) | vid, std::memory_order_release);
    }

private:
    std::atomic<std::uint64_t> v_{0};
};

} // namespace yakushima
