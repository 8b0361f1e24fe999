#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#endif
#endif
#include <cstring>
using std::memset;
// Native runtime: replays a file of inputs against the same harness, compiled
// against the real headers.  usage: prog INPUTS   (one decimal value per line)
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <pthread.h>
extern "C" void sx_main(void);
#if defined(__SANITIZE_THREAD__)
#define SX_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define SX_TSAN 1
#endif
#endif

static uint64_t in_buf[1 << 16];
static size_t in_n, in_pos;
static uint64_t live;
// A sorted table in malloc'd memory: the harness replaces operator new, and the memory sanitizer knows only
// code it has instrumented, so the library's containers are not for use here.
template <class V> struct Map {
    struct value_type { uintptr_t first; V second; };
    typedef value_type* iterator;
    value_type* p; size_t n, cap;
    Map() : p(0), n(0), cap(0) {}
    iterator begin() { return p; }
    iterator end() { return p + n; }
    size_t size() const { return n; }
    iterator lower_bound(uintptr_t k) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; if (p[m].first < k) lo = m + 1; else hi = m; } return p + lo; }
    iterator find(uintptr_t k) { iterator i = lower_bound(k); return i != end() && i->first == k ? i : end(); }
    void erase(iterator i) { for (iterator e = end() - 1; i != e; ++i) *i = i[1]; --n; }
    V& operator[](uintptr_t k) {
        iterator i = lower_bound(k);
        if (i != end() && i->first == k) return i->second;
        size_t at = (size_t)(i - p);
        if (n == cap) { cap = cap ? cap * 2 : 64; value_type* q = (value_type*)malloc(cap * sizeof(value_type)); for (size_t j = 0; j < n; ++j) q[j] = p[j]; free(p); p = q; }
        for (size_t j = n; j > at; --j) p[j] = p[j - 1];
        ++n; p[at].first = k; p[at].second = V();
        return p[at].second;
    }
};
struct R { size_t n; int tag; };
typedef Map<R> Reg;
typedef Map<size_t> Heap;
static Reg* reg; static Heap* heap;

[[noreturn]] static void fail(const char* kind, const char* msg) {
    printf("SXFAIL %s: %s\n", kind, msg);
    fflush(stdout);
    _Exit(1);
}
static uint64_t next(const char* name) {
    if (in_pos >= in_n) { printf("SXEXHAUSTED %s\n", name); fflush(stdout); _Exit(78); }
    return in_buf[in_pos++];
}
extern "C" {
uint32_t sx_u32(const char* n) { return (uint32_t)next(n); }
uint64_t sx_u64(const char* n) { return next(n); }
int sx_bool(const char* n) { return (int)(next(n) & 1); }
uint32_t sx_below(uint32_t lim, const char* n) { uint32_t v = (uint32_t)next(n); if (v >= lim) { printf("SXRANGE %s\n", n); fflush(stdout); _Exit(77); } return v; }
void sx_assume(int c) { if (!c) { printf("SXASSUME\n"); fflush(stdout); _Exit(77); } }
void sx_assert(int c, const char* m) { if (!c) fail("assert", m); }
void sx_obs(uint64_t v) { printf("OBS %" PRIu64 "\n", v); }
void sx_cover(const char*) {}
#ifdef SX_TSAN  // no bookkeeping of our own, whose locks would order the threads
void* sx_malloc(size_t n) { return malloc(n ? n : 1); }
void sx_free(void* p) { free(p); }
#else
void* sx_malloc(size_t n) { void* p = malloc(n ? n : 1); ++live; (*heap)[(uintptr_t)p] = n; return p; }
void sx_free(void* p) {
    if (!p) return;
    Heap::iterator it = heap->find((uintptr_t)p);
    if (it == heap->end()) fail("memory", "free of an invalid or already freed pointer");
    Reg::iterator r = reg->lower_bound((uintptr_t)p);
    if (r != reg->end() && r->first < (uintptr_t)p + it->second) fail("lifetime", "memory released while an object in it is alive");
    heap->erase(it); --live;
    free(p);
}
#endif
struct Th { void (*f)(void*); void* arg; };
static void* th_run(void* p) { ((Th*)p)->f(((Th*)p)->arg); return 0; }
int sx_shared(int) { return 1; }
void sx_threads(void (*f)(void*), void* arg) {
#ifdef SX_TSAN
    Th t = {f, arg}; pthread_t a, b;
    if (pthread_create(&a, 0, th_run, &t) || pthread_create(&b, 0, th_run, &t)) { printf("SXASSUME threads\n"); fflush(stdout); _Exit(77); }
    pthread_join(a, 0); pthread_join(b, 0);
#else
    (void)th_run; f(arg);
#endif
}
uint64_t sx_heap_live(void) { return live; }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_alloc_inside(const void* in, size_t n, const void* out, size_t m) { return (const char*)in >= (const char*)out && (const char*)in + n <= (const char*)out + m; }
void sx_reg_add(const void* p, size_t n, int tag) {
    uintptr_t a = (uintptr_t)p;
    Reg::iterator it = reg->lower_bound(a);
    if (it != reg->end() && it->first < a + n) fail("lifetime", "object constructed over a live object");
    if (it != reg->begin()) { --it; if (it->first + it->second.n > a) fail("lifetime", "object constructed over a live object"); }
    R r = {n, tag};
    (*reg)[a] = r;
}
void sx_reg_del(const void* p, int tag) {
    Reg::iterator it = reg->find((uintptr_t)p);
    if (it == reg->end() || it->second.tag != tag) fail("lifetime", "destruction of an object that is not alive");
    size_t n = it->second.n;
    reg->erase(it);
    memset(const_cast<void*>(p), 0xDD, n);  // what is left of a destroyed object is indeterminate
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
    __msan_poison(p, n);
#endif
#endif
}
void sx_reg_check(const void* p, int tag) {
    Reg::iterator it = reg->find((uintptr_t)p);
    if (it == reg->end() || it->second.tag != tag) fail("lifetime", "use of an object that is not alive");
}
int sx_reg_has(const void* p, int tag) { Reg::iterator it = reg->find((uintptr_t)p); return it != reg->end() && it->second.tag == tag; }
uint64_t sx_reg_count(void) { return reg->size(); }
}
int main(int argc, char** argv) {
    static char rb[sizeof(Reg)], hb[sizeof(Heap)];
    reg = ::new ((void*)rb) Reg; heap = ::new ((void*)hb) Heap;
    FILE* f = argc > 1 ? fopen(argv[1], "r") : 0;
    if (!f) { fprintf(stderr, "usage: %s INPUTS\n", argv[0]); return 2; }
    char line[256];
    while (in_n < (1 << 16) && fgets(line, sizeof line, f)) { char* e; uint64_t v = strtoull(line, &e, 10); if (e != line) in_buf[in_n++] = v; }
    fclose(f);
#ifndef SX_NO_EXCEPTIONS
    try { sx_main(); } catch (...) { fail("uncaught", "exception left the harness"); }
#else
    sx_main();
#endif
    if (live && !getenv("SX_NO_LEAK_CHECK")) fail("leak", "heap memory still allocated at the end");
    printf("SXOK\n");
    fflush(stdout);
    _Exit(0);
}
