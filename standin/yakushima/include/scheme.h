/**
 * Stand-in for yakushima's common definitions.
 */
#pragma once

#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string_view>

namespace yakushima {

using Token = void*;
using value_align_type = std::align_val_t;
using value_length_type = std::size_t;

enum class scan_endpoint : char { EXCLUSIVE, INCLUSIVE, INF };

enum class status : std::int32_t {
    WARN_BAD_USAGE,
    WARN_CONCURRENT_OPERATIONS,
    WARN_ABORTED_BY_USER,
    WARN_EXIST,
    WARN_INVALID_TOKEN,
    WARN_MAX_SESSIONS,
    WARN_NOT_EXIST,
    WARN_STORAGE_NOT_EXIST,
    WARN_UNIQUE_RESTRICTION,
    OK,
    OK_NOT_FOUND,
    OK_ROOT_IS_NULL,
    OK_SCAN_END,
    ERR_BAD_USAGE,
    ERR_FATAL,
};

inline std::string_view to_string_view(status s) {
    switch (s) {
        case status::WARN_BAD_USAGE: return "WARN_BAD_USAGE";
        case status::WARN_CONCURRENT_OPERATIONS: return "WARN_CONCURRENT_OPERATIONS";
        case status::WARN_ABORTED_BY_USER: return "WARN_ABORTED_BY_USER";
        case status::WARN_EXIST: return "WARN_EXIST";
        case status::WARN_INVALID_TOKEN: return "WARN_INVALID_TOKEN";
        case status::WARN_MAX_SESSIONS: return "WARN_MAX_SESSIONS";
        case status::WARN_NOT_EXIST: return "WARN_NOT_EXIST";
        case status::WARN_STORAGE_NOT_EXIST: return "WARN_STORAGE_NOT_EXIST";
        case status::WARN_UNIQUE_RESTRICTION: return "WARN_UNIQUE_RESTRICTION";
        case status::OK: return "OK";
        case status::OK_NOT_FOUND: return "OK_NOT_FOUND";
        case status::OK_ROOT_IS_NULL: return "OK_ROOT_IS_NULL";
        case status::OK_SCAN_END: return "OK_SCAN_END";
        case status::ERR_BAD_USAGE: return "ERR_BAD_USAGE";
        case status::ERR_FATAL: return "ERR_FATAL";
    }
    return "?";
}

inline std::ostream& operator<<(std::ostream& out, status s) {
    return out << to_string_view(s);
}

} // namespace yakushima
