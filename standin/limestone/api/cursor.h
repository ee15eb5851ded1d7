#pragma once
#include <memory>
#include <string>
#include <vector>
#include "storage_id_type.h"
namespace limestone::api {
struct si_row {
    storage_id_type storage{};
    std::string key{};
    std::string value{};
};
class cursor {
public:
    explicit cursor(std::vector<si_row> rows) : rows_(std::move(rows)) {}
    bool next() { return ++pos_ < static_cast<long>(rows_.size()); }
    [[nodiscard]] storage_id_type storage() const { return rows_[static_cast<std::size_t>(pos_)].storage; }
    void key(std::string& out) const { out = rows_[static_cast<std::size_t>(pos_)].key; }
    void value(std::string& out) const { out = rows_[static_cast<std::size_t>(pos_)].value; }

private:
    std::vector<si_row> rows_;
    long pos_{-1};
};
} // namespace limestone::api
