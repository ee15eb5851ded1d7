/**
 * Memory in use by the engine (plain variant only; the sanitizer variants bring their own allocator).
 */
#pragma once
#include <cstdint>

namespace vh {

struct Mem {
    std::int64_t bytes{0};
    std::int64_t blocks{0};
};
/// memory obtained outside of the stand-ins' index and not yet returned
Mem mem_in_use();
bool mem_counted();

} // namespace vh
