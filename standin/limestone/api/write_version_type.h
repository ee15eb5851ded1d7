#pragma once
#include <cstdint>
#include <tuple>
#include "epoch_t.h"
namespace limestone::api {
class write_version_type {
public:
    write_version_type() = default;
    write_version_type(epoch_t major, std::uint64_t minor) : major_(major), minor_(minor) {}
    [[nodiscard]] epoch_t get_major() const { return major_; }
    [[nodiscard]] std::uint64_t get_minor() const { return minor_; }
    bool operator<(write_version_type const& r) const {
        return std::tie(major_, minor_) < std::tie(r.major_, r.minor_);
    }
    bool operator==(write_version_type const& r) const {
        return major_ == r.major_ && minor_ == r.minor_;
    }

private:
    epoch_t major_{};
    std::uint64_t minor_{};
};
} // namespace limestone::api
