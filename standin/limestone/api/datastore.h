/**
 * Stand-in for limestone (the log store). Disk images live in memory, keyed by location, and
 * survive the datastore object, so a process can shut down and restart the engine on them.
 *
 * Durability as in limestone: a log session belongs to the epoch current at its begin; epoch E
 * is durable when the epoch switched past E and no session of an epoch <= E is open. What
 * survives a crash are the sessions of durable epochs.
 */
#pragma once
#include <functional>
#include <future>
#include <memory>
#include "blob_id_type.h"
#include "configuration.h"
#include "cursor.h"
#include "epoch_t.h"
#include "log_channel.h"
#include "snapshot.h"
#include "storage_id_type.h"
#include "write_version_type.h"
namespace limestone::api {
class datastore {
public:
    datastore();
    explicit datastore(configuration const& conf);
    virtual ~datastore();
    datastore(datastore const&) = delete;
    datastore& operator=(datastore const&) = delete;

    log_channel& create_channel();
    [[nodiscard]] std::unique_ptr<snapshot> get_snapshot() const;
    void ready();
    void recover();
    [[nodiscard]] epoch_t last_epoch() const;
    void switch_epoch(epoch_t ep);
    void switch_available_boundary_version(write_version_type version);
    void add_persistent_callback(std::function<void(epoch_t)> cb);
    void remove_persistent_callback();
    std::future<void> shutdown();

    struct impl;
    impl* si() const { return impl_.get(); }

private:
    std::unique_ptr<impl> impl_;
    friend class log_channel;
};
} // namespace limestone::api
