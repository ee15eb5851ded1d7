/**
 * Harness side of the log store stand-in: full record of what the engine logged, and the
 * means to produce the image that survives a crash.
 */
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace standin {

enum class log_kind : std::uint8_t { ADD, REMOVE, ADD_STORAGE, REMOVE_STORAGE };

struct log_entry {
    std::uint64_t seq{};      ///< position among all log events of the disk
    std::uint64_t session{};  ///< log session number
    std::uint64_t epoch{};    ///< epoch of the log session
    log_kind kind{};
    std::uint64_t storage{};
    std::string key{};
    std::string value{};
    std::uint64_t major{};
    std::uint64_t minor{};
    std::vector<std::uint64_t> blobs{};
};

/// copy of all entries the disk at `location` holds now
std::vector<log_entry> disk_entries(std::string const& location);
/// the entries from position `seq` on
std::vector<log_entry> disk_entries_from(std::string const& location, std::uint64_t seq);
/// position of the next entry
std::uint64_t disk_seq(std::string const& location);
/// epoch that is durable on the disk now
std::uint64_t disk_durable(std::string const& location);
/// copy the image surviving a crash at the moment durable epoch `epoch` was recorded
void disk_clone(std::string const& from, std::string const& to, std::uint64_t epoch);
void disk_erase(std::string const& location);
/// epochs at which the disk became durable so far (distinct crash images)
std::vector<std::uint64_t> disk_durable_history(std::string const& location);

/// last epoch switched by the engine (0: none yet), over all datastores
extern std::atomic<std::uint64_t> current_epoch;
extern std::atomic<std::uint64_t> current_durable;
extern std::atomic<std::uint64_t> log_sessions;
extern std::atomic<std::uint64_t> log_entries_total;
extern std::atomic<std::uint64_t> epoch_regressions;
/// misuse of the log store by the engine (entry outside a session, ...): first message
std::string protocol_error();
void clear_protocol_error();

/// called (under the disk lock) whenever an epoch becomes durable
void set_durable_observer(std::function<void(std::uint64_t)> fn);
/// called on every epoch switch
void set_epoch_observer(std::function<void(std::uint64_t)> fn);
/// blocks persistence: while true no epoch becomes durable (a stalled disk)
extern std::atomic<bool> stall_durability;
/// entries are counted but not kept
extern std::atomic<bool> discard_log;
/// seed for distributing rows over recovery cursors
} // namespace standin
