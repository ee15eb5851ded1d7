#pragma once
#include <string_view>
#include <vector>
#include "blob_id_type.h"
#include "epoch_t.h"
#include "storage_id_type.h"
#include "write_version_type.h"
namespace limestone::api {
class datastore;
class log_channel {
public:
    log_channel(datastore& ds, std::size_t no) : ds_(ds), no_(no) {}
    void begin_session();
    void end_session();
    void add_entry(storage_id_type storage_id, std::string_view key, std::string_view value,
                   write_version_type write_version);
    void add_entry(storage_id_type storage_id, std::string_view key, std::string_view value,
                   write_version_type write_version,
                   std::vector<blob_id_type> const& large_objects);
    void remove_entry(storage_id_type storage_id, std::string_view key,
                      write_version_type write_version);
    void add_storage(storage_id_type storage_id, write_version_type write_version);
    void remove_storage(storage_id_type storage_id, write_version_type write_version);

private:
    datastore& ds_;
    std::size_t no_;
};
} // namespace limestone::api
