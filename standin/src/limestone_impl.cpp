#include "limestone/api/datastore.h"

#include <algorithm>
#include <map>
#include <mutex>
#include <optional>

#include "limestone_monitor.h"
#include "monitor.h"

namespace standin {

std::atomic<std::uint64_t> current_epoch{0};
std::atomic<std::uint64_t> current_durable{0};
std::atomic<std::uint64_t> log_sessions{0};
std::atomic<std::uint64_t> log_entries_total{0};
std::atomic<std::uint64_t> epoch_regressions{0};
std::atomic<bool> stall_durability{false};
std::atomic<bool> discard_log{false};

namespace {

struct disk {
    std::mutex mtx;
    std::vector<log_entry> entries;
    std::uint64_t durable{0};
    std::vector<std::uint64_t> history;
    std::uint64_t seq{0};
    std::uint64_t sessions{0};
};

struct globals {
    std::mutex mtx;
    std::map<std::string, std::shared_ptr<disk>> disks;
    std::mutex err_mtx;
    std::string err;
    std::mutex obs_mtx;
    std::function<void(std::uint64_t)> durable_obs;
    std::function<void(std::uint64_t)> epoch_obs;
};

globals& G() {
    static auto* g = new globals(); // NOLINT
    return *g;
}

std::shared_ptr<disk> get_disk(std::string const& loc) {
    std::lock_guard lk{G().mtx};
    auto& d = G().disks[loc];
    if (!d) { d = std::make_shared<disk>(); }
    return d;
}

void set_err(std::string const& m) {
    std::lock_guard lk{G().err_mtx};
    if (G().err.empty()) { G().err = m; }
}

} // namespace

std::vector<log_entry> disk_entries(std::string const& location) {
    auto d = get_disk(location);
    std::lock_guard lk{d->mtx};
    return d->entries;
}

std::vector<log_entry> disk_entries_from(std::string const& location, std::uint64_t seq) {
    auto d = get_disk(location);
    std::lock_guard lk{d->mtx};
    auto i = d->entries.end();
    while (i != d->entries.begin() && std::prev(i)->seq >= seq) { --i; }
    return {i, d->entries.end()};
}

std::uint64_t disk_seq(std::string const& location) {
    auto d = get_disk(location);
    std::lock_guard lk{d->mtx};
    return d->seq;
}

std::uint64_t disk_durable(std::string const& location) {
    auto d = get_disk(location);
    std::lock_guard lk{d->mtx};
    return d->durable;
}

std::vector<std::uint64_t> disk_durable_history(std::string const& location) {
    auto d = get_disk(location);
    std::lock_guard lk{d->mtx};
    return d->history;
}

void disk_clone(std::string const& from, std::string const& to, std::uint64_t epoch) {
    auto s = get_disk(from);
    auto t = get_disk(to);
    std::scoped_lock lk{s->mtx, t->mtx};
    t->entries.clear();
    for (auto& e : s->entries) {
        if (e.epoch <= epoch) { t->entries.emplace_back(e); }
    }
    t->durable = epoch;
    t->history = {epoch};
    t->seq = s->seq;
    t->sessions = s->sessions;
}

void disk_erase(std::string const& location) {
    std::lock_guard lk{G().mtx};
    G().disks.erase(location);
}

std::string protocol_error() {
    std::lock_guard lk{G().err_mtx};
    return G().err;
}
void clear_protocol_error() {
    std::lock_guard lk{G().err_mtx};
    G().err.clear();
}

void set_durable_observer(std::function<void(std::uint64_t)> fn) {
    std::lock_guard lk{G().obs_mtx};
    G().durable_obs = std::move(fn);
}
void set_epoch_observer(std::function<void(std::uint64_t)> fn) {
    std::lock_guard lk{G().obs_mtx};
    G().epoch_obs = std::move(fn);
}

} // namespace standin

namespace limestone::api {

using standin::disk;

struct channel_state {
    bool open{false};
    std::uint64_t epoch{0};
    std::uint64_t session{0};
};

struct datastore::impl {
    std::shared_ptr<disk> dk;
    std::vector<std::unique_ptr<log_channel>> channels;
    std::vector<channel_state> st;
    std::uint64_t switched{0};
    bool is_ready{false};
    bool closed{false};
    std::mutex cb_mtx; // serializes notifications
    std::function<void(epoch_t)> cb;
    std::uint64_t informed{0};
    std::vector<si_row> rows;
    bool recovered{false};

    void add(std::size_t no, standin::log_entry e) {
        standin::noise();
        std::lock_guard lk{dk->mtx};
        auto& c = st.at(no);
        if (!c.open) {
            standin::set_err("log entry outside of a log session");
            return;
        }
        if (closed) {
            standin::set_err("log entry after shutdown");
            return;
        }
        e.seq = dk->seq++;
        e.session = c.session;
        e.epoch = c.epoch;
        if (!standin::discard_log.load()) { dk->entries.emplace_back(std::move(e)); }
        standin::log_entries_total.fetch_add(1, std::memory_order_relaxed);
    }

    void update_durable() {
        std::lock_guard lk{cb_mtx};
        std::uint64_t d{};
        {
            std::lock_guard lk2{dk->mtx};
            if (!is_ready || switched == 0 ||
                standin::stall_durability.load(std::memory_order_acquire)) {
                return;
            }
            d = switched - 1;
            for (auto& c : st) {
                if (c.open && c.epoch <= d) { d = c.epoch - 1; }
            }
            if (d <= dk->durable) { return; }
            dk->durable = d;
            if (!standin::discard_log.load()) { dk->history.emplace_back(d); }
            standin::current_durable.store(d, std::memory_order_release);
        }
        {
            std::lock_guard lk3{standin::G().obs_mtx};
            if (standin::G().durable_obs) { standin::G().durable_obs(d); }
        }
        if (cb) { cb(d); }
    }
};

datastore::datastore() : datastore(configuration{}) {}

datastore::datastore(configuration const& conf) : impl_(std::make_unique<impl>()) {
    impl_->dk = standin::get_disk(conf.get_data_location().string());
    std::lock_guard lk{impl_->dk->mtx};
    // sessions that were not durable when the previous owner stopped are lost
    auto& es = impl_->dk->entries;
    auto d = impl_->dk->durable;
    es.erase(std::remove_if(es.begin(), es.end(), [d](auto& e) { return e.epoch > d; }), es.end());
}

datastore::~datastore() = default;

log_channel& datastore::create_channel() {
    std::lock_guard lk{impl_->dk->mtx};
    impl_->channels.emplace_back(std::make_unique<log_channel>(*this, impl_->channels.size()));
    impl_->st.emplace_back();
    return *impl_->channels.back();
}

void datastore::recover() { impl_->recovered = true; }

void datastore::ready() {
    std::lock_guard lk{impl_->dk->mtx};
    // newest version per key, removed storages and keys dropped
    std::map<std::uint64_t, write_version_type> cleared;
    for (auto& e : impl_->dk->entries) {
        if (e.kind == standin::log_kind::REMOVE_STORAGE) {
            write_version_type wv{e.major, e.minor};
            auto [it, ok] = cleared.try_emplace(e.storage, wv);
            if (!ok && it->second < wv) { it->second = wv; }
        }
    }
    std::map<std::pair<std::uint64_t, std::string>, standin::log_entry const*> best;
    for (auto& e : impl_->dk->entries) {
        if (e.kind != standin::log_kind::ADD && e.kind != standin::log_kind::REMOVE) { continue; }
        write_version_type wv{e.major, e.minor};
        auto c = cleared.find(e.storage);
        if (c != cleared.end() && wv < c->second) { continue; }
        auto [it, ok] = best.try_emplace({e.storage, e.key}, &e);
        if (!ok) {
            write_version_type o{it->second->major, it->second->minor};
            if (!(wv < o)) { it->second = &e; }
        }
    }
    impl_->rows.clear();
    for (auto& b : best) {
        if (b.second->kind == standin::log_kind::ADD) {
            impl_->rows.emplace_back(si_row{b.first.first, b.first.second, b.second->value});
        }
    }
    impl_->is_ready = true;
}

std::unique_ptr<snapshot> datastore::get_snapshot() const {
    return std::make_unique<snapshot>(impl_->rows);
}

epoch_t datastore::last_epoch() const {
    std::lock_guard lk{impl_->dk->mtx};
    return impl_->dk->durable;
}

void datastore::switch_epoch(epoch_t ep) {
    {
        std::lock_guard lk{impl_->dk->mtx};
        if (ep <= impl_->switched) {
            standin::epoch_regressions.fetch_add(1);
            return;
        }
        impl_->switched = ep;
        standin::current_epoch.store(ep, std::memory_order_release);
    }
    {
        std::lock_guard lk{standin::G().obs_mtx};
        if (standin::G().epoch_obs) { standin::G().epoch_obs(ep); }
    }
    impl_->update_durable();
}

void datastore::switch_available_boundary_version(write_version_type /*version*/) {}

void datastore::add_persistent_callback(std::function<void(epoch_t)> cb) {
    std::lock_guard lk{impl_->cb_mtx};
    impl_->cb = std::move(cb);
}

void datastore::remove_persistent_callback() {
    std::lock_guard lk{impl_->cb_mtx};
    impl_->cb = nullptr;
}

std::future<void> datastore::shutdown() {
    {
        std::lock_guard lk{impl_->dk->mtx};
        impl_->closed = true;
    }
    std::promise<void> p;
    p.set_value();
    return p.get_future();
}

void log_channel::begin_session() {
    standin::noise();
    std::lock_guard lk{ds_.impl_->dk->mtx};
    auto& c = ds_.impl_->st.at(no_);
    if (c.open) { standin::set_err("nested log session on one channel"); }
    if (ds_.impl_->switched == 0) { standin::set_err("log session before the first epoch"); }
    c.open = true;
    c.epoch = ds_.impl_->switched;
    c.session = ++ds_.impl_->dk->sessions;
    standin::log_sessions.fetch_add(1, std::memory_order_relaxed);
}

void log_channel::end_session() {
    standin::noise();
    {
        std::lock_guard lk{ds_.impl_->dk->mtx};
        auto& c = ds_.impl_->st.at(no_);
        if (!c.open) { standin::set_err("end of a log session that was not begun"); }
        c.open = false;
    }
    ds_.impl_->update_durable();
}

void log_channel::add_entry(storage_id_type storage_id, std::string_view key,
                            std::string_view value, write_version_type wv) {
    add_entry(storage_id, key, value, wv, {});
}

void log_channel::add_entry(storage_id_type storage_id, std::string_view key,
                            std::string_view value, write_version_type wv,
                            std::vector<blob_id_type> const& large_objects) {
    standin::log_entry e{};
    e.kind = standin::log_kind::ADD;
    e.storage = storage_id;
    e.key = key;
    e.value = value;
    e.major = wv.get_major();
    e.minor = wv.get_minor();
    e.blobs = large_objects;
    ds_.impl_->add(no_, std::move(e));
}

void log_channel::remove_entry(storage_id_type storage_id, std::string_view key,
                               write_version_type wv) {
    standin::log_entry e{};
    e.kind = standin::log_kind::REMOVE;
    e.storage = storage_id;
    e.key = key;
    e.major = wv.get_major();
    e.minor = wv.get_minor();
    ds_.impl_->add(no_, std::move(e));
}

void log_channel::add_storage(storage_id_type storage_id, write_version_type wv) {
    standin::log_entry e{};
    e.kind = standin::log_kind::ADD_STORAGE;
    e.storage = storage_id;
    e.major = wv.get_major();
    e.minor = wv.get_minor();
    ds_.impl_->add(no_, std::move(e));
}

void log_channel::remove_storage(storage_id_type storage_id, write_version_type wv) {
    standin::log_entry e{};
    e.kind = standin::log_kind::REMOVE_STORAGE;
    e.storage = storage_id;
    e.major = wv.get_major();
    e.minor = wv.get_minor();
    ds_.impl_->add(no_, std::move(e));
}

} // namespace limestone::api
