#pragma once
#include <memory>
#include <vector>
#include "cursor.h"
namespace limestone::api {
class snapshot {
public:
    explicit snapshot(std::vector<si_row> rows) : rows_(std::move(rows)) {}
    [[nodiscard]] std::unique_ptr<cursor> get_cursor() const {
        return std::make_unique<cursor>(rows_);
    }
    [[nodiscard]] std::vector<std::unique_ptr<cursor>> get_partitioned_cursors(std::size_t n) const {
        std::vector<std::vector<si_row>> parts(n);
        for (std::size_t i = 0; i < rows_.size(); ++i) { parts[i % n].emplace_back(rows_[i]); }
        std::vector<std::unique_ptr<cursor>> out;
        for (auto& p : parts) { out.emplace_back(std::make_unique<cursor>(std::move(p))); }
        return out;
    }

private:
    std::vector<si_row> rows_;
};
} // namespace limestone::api
