#pragma once
#include <filesystem>
namespace limestone::api {
class configuration {
public:
    configuration() = default;
    void set_data_location(std::filesystem::path const& p) { location_ = p; }
    [[nodiscard]] std::filesystem::path const& get_data_location() const { return location_; }
    void set_recover_max_parallelism(int n) { para_ = n; }

private:
    std::filesystem::path location_{};
    int para_{};
};
} // namespace limestone::api
