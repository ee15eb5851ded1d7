#pragma once
#include <cstdint>
namespace limestone::api {
using epoch_t = std::uint64_t;
} // namespace limestone::api
