// Allocation accounting: live blocks that were allocated while the tag was on.
#include <atomic>
#include <cstdlib>
#include <cstdint>
#include <new>
static std::atomic<long> live(0);
static std::atomic<int> tag(0);
extern "C" void vp_memtag(int on) { tag = on; }
extern "C" long vp_memlive() { return live; }
struct alignas(16) Hdr { uint64_t magic; uint64_t t; };
static void* get(size_t n) {
    Hdr* h = static_cast<Hdr*>(malloc(n + sizeof(Hdr)));
    if (!h) throw std::bad_alloc();
    h->magic = 0x5ca1ab1e5ca1ab1eULL; h->t = tag;
    if (h->t) ++live;
    return h + 1;
}
static void put(void* p) noexcept {
    if (!p) return;
    Hdr* h = static_cast<Hdr*>(p) - 1;
    if (h->magic != 0x5ca1ab1e5ca1ab1eULL) abort();      // double or foreign free
    h->magic = 0xdeadULL;
    if (h->t) --live;
    free(h);
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
