/**
 * Counts memory in use: every block carries its size and whether it belongs to the stand-ins.
 */
#include "alloc.h"

#include <atomic>
#include <cstddef>
#include <cstdlib>
#include <new>

#include "monitor.h"

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)

namespace vh {
Mem mem_in_use() { return {}; }
bool mem_counted() { return false; }
} // namespace vh

#else

namespace {

struct head {
    void* base;
    std::uint64_t size_flag; ///< size * 2 + counted
};
static_assert(sizeof(head) == 16);

struct alignas(64) shard {
    std::atomic<std::int64_t> bytes{0};
    std::atomic<std::int64_t> blocks{0};
};
shard shards[64];
std::atomic<unsigned> next_shard{0};

shard& mine() {
    static thread_local unsigned no = next_shard.fetch_add(1) % 64;
    return shards[no];
}

void* get(std::size_t n, std::size_t align) {
    if (align < 16) { align = 16; }
    auto total = n + sizeof(head) + align;
    auto* base = static_cast<char*>(std::malloc(total));
    if (base == nullptr) { return nullptr; }
    auto at = reinterpret_cast<std::uintptr_t>(base) + sizeof(head);
    at = (at + align - 1) / align * align;
    auto* h = reinterpret_cast<head*>(at - sizeof(head));
    bool counted = standin::uncounted == 0;
    h->base = base;
    h->size_flag = static_cast<std::uint64_t>(n) * 2 + (counted ? 1 : 0);
    if (counted) {
        auto& s = mine();
        s.bytes.fetch_add(static_cast<std::int64_t>(n), std::memory_order_relaxed);
        s.blocks.fetch_add(1, std::memory_order_relaxed);
    }
    return reinterpret_cast<void*>(at);
}

void put(void* p) {
    if (p == nullptr) { return; }
    auto* h = reinterpret_cast<head*>(reinterpret_cast<std::uintptr_t>(p) - sizeof(head));
    if ((h->size_flag & 1U) != 0) {
        auto& s = mine();
        s.bytes.fetch_sub(static_cast<std::int64_t>(h->size_flag / 2), std::memory_order_relaxed);
        s.blocks.fetch_sub(1, std::memory_order_relaxed);
    }
    std::free(h->base);
}

void* must(std::size_t n, std::size_t align) {
    auto* p = get(n, align);
    if (p == nullptr) { throw std::bad_alloc(); }
    return p;
}

} // namespace

void* operator new(std::size_t n) { return must(n, 16); }
void* operator new[](std::size_t n) { return must(n, 16); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return get(n, 16); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return get(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return must(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return must(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return get(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return get(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { put(p); }

namespace vh {
Mem mem_in_use() {
    Mem m;
    for (auto& s : shards) {
        m.bytes += s.bytes.load();
        m.blocks += s.blocks.load();
    }
    return m;
}
bool mem_counted() { return true; }
} // namespace vh

#endif
