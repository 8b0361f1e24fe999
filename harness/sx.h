// Interface between harnesses, the symbolic engine and the native runtime, and the
// instrumented element types the variants are instantiated with.
//
// Under the engine the sx_* functions are builtins: inputs are fresh bit-vector
// variables and sx_assert is a solver query. Natively (replay) they read a file.
#ifndef SX_H
#define SX_H
#include <cstddef>
#include <exception>
#include <typeinfo>
#include <cstdint>
#include <new>
#include <utility>
#include <type_traits>
#include <functional>
#include <memory>

extern "C" {
uint32_t sx_u32(const char* name);
uint64_t sx_u64(const char* name);
int sx_bool(const char* name);
uint32_t sx_below(uint32_t limit, const char* name);  // symbolic value < limit
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_obs(uint64_t v);            // observation compared between engine and native run
void sx_cover(const char* label);   // reachability witness
void* sx_malloc(size_t n);
void sx_free(void* p);
uint64_t sx_heap_live(void);
uint64_t sx_concretize(uint64_t v);  // fork over the feasible values
int sx_alloc_inside(const void* in, size_t n, const void* out, size_t m);
// registry of live instrumented objects
void sx_reg_add(const void* p, size_t n, int tag);
void sx_reg_del(const void* p, int tag);
void sx_reg_check(const void* p, int tag);
int sx_reg_has(const void* p, int tag);
uint64_t sx_reg_count(void);
void sx_main(void);
#ifdef SX_SIDE  // one side of a pair (h_pair.cpp): inputs come from, observations go to, a shared tape
uint32_t sxt_u32(const char* name); uint64_t sxt_u64(const char* name); int sxt_bool(const char* name);
uint32_t sxt_below(uint32_t limit, const char* name); void sxt_obs(uint64_t v);
void SX_SIDE(void);
#define sx_u32 sxt_u32
#define sx_u64 sxt_u64
#define sx_bool sxt_bool
#define sx_below sxt_below
#define sx_obs sxt_obs
#define sx_main SX_SIDE
#endif
}

// SX_PLAIN: no bookkeeping of any kind in the element types, for runs in several threads
#ifdef SX_PLAIN
#define SX_COUNT(i, k) ((void)0)
#define sx_reg_add(p, n, t) ((void)0)
#define sx_reg_del(p, t) ((void)0)
#define sx_reg_check(p, t) ((void)0)
#define sx_reg_has(p, t) 1
#define sx_reg_count() 0
#else
#define SX_COUNT(i, k) ++stat[i].k
#endif
extern "C" {
// sx_shared(1): what exists now is visible to other threads too; under the engine, which returns 0, a plain write to
// any of it is an error until sx_shared(0). Natively it returns 1, and sx_threads runs f in two threads at once.
int sx_shared(int on);
void sx_threads(void (*f)(void*), void* arg);
}

namespace sx {

inline void in_parallel(void (*f)(void*), void* arg) { if (sx_shared(1)) sx_threads(f, arg); else f(arg); sx_shared(0); }

struct boom { int site; unsigned serial; };
struct boomx : boom { unsigned magic; };  // what is thrown: a derived class, so that slicing shows
// what types with tag 1, 3, 4 (modulo 5) throw, so that handlers for standard exceptions show; others throw boomx itself
struct boomstd : boomx, std::exception {};
struct boombad : boomx, std::bad_alloc {};
struct boomcast : boomx, std::bad_cast {};

// ---- faults -------------------------------------------------------------
// budget: how many faults may still be injected; every point that may throw asks
// the solver for a fresh bit while the budget lasts.
extern int budget;
extern bool alloc_faults;
extern unsigned raised;        // faults raised so far
extern int last_site;          // site of the last fault: element tag*8+kind, or -1 for bad_alloc
extern unsigned news;          // operator new calls so far
extern int quiet;              // >0: harness-internal code, no faults

enum Kind { K_DEF = 0, K_COPY, K_MOVE, K_CASG, K_MASG, K_CONV, K_OP, K_VISIT };

inline bool fault() { return quiet == 0 && budget > 0 && sx_bool("fault"); }
inline void raise_fault(int site) {
        --budget; ++raised; last_site = site;
        switch ((site >> 3) % 5) {
            case 1: { boomstd b; b.site = site; b.serial = raised; b.magic = 0x5EED0000u + raised; throw b; }
            case 3: { boombad b; b.site = site; b.serial = raised; b.magic = 0x5EED0000u + raised; throw b; }
            case 4: { boomcast b; b.site = site; b.serial = raised; b.magic = 0x5EED0000u + raised; throw b; }
            default: { boomx b; b.site = site; b.serial = raised; b.magic = 0x5EED0000u + raised; throw b; }
        }
}
inline void maybe_throw(int site) {
    if (fault()) raise_fault(site);
}
#ifdef SX_PLAIN
struct Quiet { Quiet() {} ~Quiet() {} };
#else
struct Quiet { Quiet() { ++quiet; } ~Quiet() { --quiet; } };
#endif

struct Stat { unsigned def, copy, move, casg, masg, conv, dtor, cmp; };
#ifndef MAXID
#define MAXID 40
#endif
extern Stat stat[MAXID];
inline Stat total() {
    Stat t = Stat();
    for (int i = 0; i < MAXID; ++i) {
        t.def += stat[i].def; t.copy += stat[i].copy; t.move += stat[i].move; t.casg += stat[i].casg;
        t.masg += stat[i].masg; t.conv += stat[i].conv; t.dtor += stat[i].dtor; t.cmp += stat[i].cmp;
    }
    return t;
}
inline void reset_stats() { for (int i = 0; i < MAXID; ++i) stat[i] = Stat(); }

// moved-from, half-assigned and default contents are recognisable: a move that throws may have taken the
// source's value, an assignment that throws may have lost the target's
inline uint32_t moved_val(int id) { return 0xEE000000u + (uint32_t)id; }
inline uint32_t torn_val(int id) { return 0xCC000000u + (uint32_t)id; }
inline uint32_t def_val(int id) { return 0xDD000000u + (uint32_t)id; }

// what may throw: DN/CN/MN/AN/BN = default ctor, copy ctor, move ctor, copy assign, move assign are noexcept
enum { DN = 1, CN = 2, MN = 4, AN = 8, BN = 16, ALLN = 31 };

struct val_t { uint32_t v; explicit val_t(uint32_t x) : v(x) {} };

#define SX_EL_BODY(El, ID, F)                                                                       \
    const void* self; uint32_t val; uint32_t guard; char pad[PAD];                                  \
    enum { id = ID };                                                                               \
    void born() { self = this; guard = 0xA11CE000u + ID; sx_reg_add(this, sizeof(*this), ID); }     \
    void use() const { sx_reg_check(this, ID); sx_assert(self == (const void*)this && guard == 0xA11CE000u + ID, "content object is intact"); } \
    explicit El(val_t v) : val(v.v) { born(); }                                                     \
    ~El() { use(); sx_reg_del(this, ID); SX_COUNT(ID, dtor); }
#define SX_EL_DEF(El, ID, F)                                                                        \
    El() noexcept(((F) & DN) != 0) : val(def_val(ID)) { if (!((F) & DN)) maybe_throw(ID * 8 + K_DEF); SX_COUNT(ID, def); born(); }
#define SX_EL_COPY(El, ID, F)                                                                       \
    El(El const& o) noexcept(((F) & CN) != 0) : val(o.val) { o.use(); if (!((F) & CN)) maybe_throw(ID * 8 + K_COPY); SX_COUNT(ID, copy); born(); } \
    El& operator=(El const& o) noexcept(((F) & AN) != 0) { use(); o.use(); if (!((F) & AN) && fault()) { val = torn_val(ID); raise_fault(ID * 8 + K_CASG); } SX_COUNT(ID, casg); val = o.val; return *this; }
#define SX_EL_MOVE(El, ID, F)                                                                       \
    El(El&& o) noexcept(((F) & MN) != 0) : val(o.val) { o.use(); if (!((F) & MN) && fault()) { o.val = moved_val(ID); raise_fault(ID * 8 + K_MOVE); } SX_COUNT(ID, move); o.val = moved_val(ID); born(); } \
    El& operator=(El&& o) noexcept(((F) & BN) != 0) { use(); o.use(); if (!((F) & BN) && fault()) { val = torn_val(ID); o.val = moved_val(ID); raise_fault(ID * 8 + K_MASG); } SX_COUNT(ID, masg); if (this != std::addressof(o)) { val = o.val; o.val = moved_val(ID); } return *this; }

// E: everything.  N: no default ctor.  C: copy only (no move members declared).
// M: move only, no default.  MD: move only with default.
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) E { SX_EL_BODY(E, ID, F) SX_EL_DEF(E, ID, F) SX_EL_COPY(E, ID, F) SX_EL_MOVE(E, ID, F) };
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) N { SX_EL_BODY(N, ID, F) SX_EL_COPY(N, ID, F) SX_EL_MOVE(N, ID, F) };
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) C { SX_EL_BODY(C, ID, F) SX_EL_COPY(C, ID, F) };
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) CD { SX_EL_BODY(CD, ID, F) SX_EL_DEF(CD, ID, F) SX_EL_COPY(CD, ID, F) };
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) M { SX_EL_BODY(M, ID, F) SX_EL_MOVE(M, ID, F) };
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) MD { SX_EL_BODY(MD, ID, F) SX_EL_DEF(MD, ID, F) SX_EL_MOVE(MD, ID, F) };

// Sm: small (4 bytes, less than a pointer), everything but a default constructor.  Ov: operator& overloaded, no default.
template <int ID, int F = 0> struct Sm {
    uint32_t val;
    enum { id = ID };
    void born() { sx_reg_add(this, sizeof(*this), ID); }
    void use() const { sx_reg_check(this, ID); }
    explicit Sm(val_t v) : val(v.v) { born(); }
    ~Sm() { use(); sx_reg_del(this, ID); SX_COUNT(ID, dtor); }
    SX_EL_COPY(Sm, ID, F) SX_EL_MOVE(Sm, ID, F)
};
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) Ov { SX_EL_BODY(Ov, ID, F) SX_EL_COPY(Ov, ID, F) SX_EL_MOVE(Ov, ID, F)
    Ov* operator&() { return reinterpret_cast<Ov*>(16); } const Ov* operator&() const { return reinterpret_cast<const Ov*>(16); } };

// Po: polymorphic.  Fi: final.  Both without default constructor.
#define SX_EL_BODY2(El, ID, F, V)                                                                  \
    const void* self; uint32_t val; uint32_t guard; char pad[PAD];                                  \
    enum { id = ID };                                                                               \
    void born() { self = this; guard = 0xA11CE000u + ID; sx_reg_add(this, sizeof(*this), ID); }     \
    void use() const { sx_reg_check(this, ID); sx_assert(self == (const void*)this && guard == 0xA11CE000u + ID && V, "content object is intact"); } \
    explicit El(val_t v) : val(v.v) { born(); }
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) Po { SX_EL_BODY2(Po, ID, F, tag() == ID) SX_EL_COPY(Po, ID, F) SX_EL_MOVE(Po, ID, F)
    virtual int tag() const { return ID; } virtual ~Po() { use(); SX_COUNT(ID, dtor); sx_reg_del(this, ID); } };
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) Fi final { SX_EL_BODY2(Fi, ID, F, true) SX_EL_COPY(Fi, ID, F) SX_EL_MOVE(Fi, ID, F)
    ~Fi() { use(); SX_COUNT(ID, dtor); sx_reg_del(this, ID); } };

// Sw: has a swap of its own (which may throw unless SN is given), no default constructor
enum { SN = 64 };
extern unsigned own_swaps;
template <int ID, int F = 0, int PAD = 4, int AL = 8> struct alignas(AL) Sw { SX_EL_BODY(Sw, ID, F) SX_EL_COPY(Sw, ID, F) SX_EL_MOVE(Sw, ID, F)
    friend void swap(Sw& a, Sw& b) noexcept(((F) & SN) != 0) { a.use(); b.use(); if (!((F) & SN)) maybe_throw(ID * 8 + K_OP); ++own_swaps; uint32_t t = a.val; a.val = b.val; b.val = t; } };

template <class T> struct is_el : std::false_type {};
#define SX_IS_EL(X) template <int I, int F, int P, int A> struct is_el< X<I, F, P, A> > : std::true_type {};
template <int I, int F> struct is_el< Sm<I, F> > : std::true_type {};
SX_IS_EL(Sw) SX_IS_EL(Ov) SX_IS_EL(Po) SX_IS_EL(Fi) SX_IS_EL(E) SX_IS_EL(N) SX_IS_EL(C) SX_IS_EL(CD) SX_IS_EL(M) SX_IS_EL(MD)

template <class T> struct has_move : std::true_type {};  // declares move operations of its own
template <int I, int F, int P, int A> struct has_move< C<I, F, P, A> > : std::false_type {};
template <int I, int F, int P, int A> struct has_move< CD<I, F, P, A> > : std::false_type {};

// The contents' own operators; a harness may define SX_EQ, SX_LT, SX_HASH to give them any meaning.
#ifndef SX_EQ
#define SX_EQ(a, b) ((a).val == (b).val)
#endif
#ifndef SX_LT
#define SX_LT(a, b) ((a).val < (b).val)
#endif
#ifndef SX_HASH
#define SX_HASH(a) ((std::size_t)(a).val * 3 + 1)
#endif
extern bool op_faults;  // comparison and hashing may throw
template <class T> typename std::enable_if<is_el<T>::value, bool>::type operator==(T const& a, T const& b) { a.use(); b.use(); SX_COUNT(T::id, cmp); if (op_faults) maybe_throw(T::id * 8 + K_OP); return SX_EQ(a, b); }
template <class T> typename std::enable_if<is_el<T>::value, bool>::type operator<(T const& a, T const& b) { a.use(); b.use(); SX_COUNT(T::id, cmp); if (op_faults) maybe_throw(T::id * 8 + K_OP); return SX_LT(a, b); }
template <class T> typename std::enable_if<is_el<T>::value, std::size_t>::type hash_value(T const& a) { a.use(); if (op_faults) maybe_throw(T::id * 8 + K_OP); return SX_HASH(a); }

// the exception that reached the caller is the one raised last, itself
inline void same_exception(boom const& e) {
    bool whole = false; int kind = 0, tag = (e.site >> 3) % 5;
    try { throw; } catch (boomx const& x) { whole = &x == static_cast<boomx const*>(&e) && x.magic == 0x5EED0000u + x.serial; } catch (...) {}
    try { throw; } catch (std::bad_alloc const&) { kind = 3; } catch (std::bad_cast const&) { kind = 4; } catch (std::exception const&) { kind = 1; } catch (...) {}
    sx_assert(whole && kind == (tag == 2 ? 0 : tag) && e.site == last_site && e.serial == raised, "the exception that reaches the caller is the very one that was raised");
}
// ---- generic access to content -----------------------------------------
template <class T, bool = is_el<T>::value> struct Info {
    static int id() { return T::id; }
    static uint32_t val(T const& t) { t.use(); return t.val; }
    static bool live(T const& t) { if (!sx_reg_has(std::addressof(t), T::id)) return false; t.use(); return true; }
    static T make(uint32_t v) { return T(val_t(v)); }
};

// ---- type lists ----------------------------------------------------------
template <class... T> struct TL {};
template <class L, int I> struct at;
template <class H, class... T> struct at<TL<H, T...>, 0> { typedef H type; };
template <class H, class... T, int I> struct at<TL<H, T...>, I> : at<TL<T...>, I - 1> {};
template <class L> struct len;
template <class... T> struct len<TL<T...> > { enum { value = sizeof...(T) }; };

// call f.template run<T, index>() for the type at run-time position i
template <class L, int I, int N> struct pick_ {
    template <class F> static void go(uint32_t i, F& f) {
        if (i == (uint32_t)I) f.template run<typename at<L, I>::type, I>();
        else pick_<L, I + 1, N>::go(i, f);
    }
};
template <class L, int N> struct pick_<L, N, N> { template <class F> static void go(uint32_t, F&) { sx_assert(0, "harness: index out of range"); } };
template <class L, class F> void pick(uint32_t i, F& f) { pick_<L, 0, len<L>::value>::go(i, f); }

}  // namespace sx

#define SX_CAT_(a, b) a##b
#define SX_CAT(a, b) SX_CAT_(a, b)

#ifdef SX_DEFINE
namespace sx {
unsigned own_swaps = 0;
int budget = 0; bool alloc_faults = false; unsigned raised = 0; int last_site = 0; unsigned news = 0; int quiet = 0; bool op_faults = false;
Stat stat[MAXID];
}
#if defined(__clang__)
#pragma clang diagnostic ignored "-Winline-new-delete"
#endif
void* operator new(std::size_t n) {
    using namespace sx;
#ifndef SX_PLAIN
    if (quiet == 0) {
        ++news;
        if (alloc_faults && budget > 0 && sx_bool("alloc_fault")) { --budget; ++raised; last_site = -1; throw std::bad_alloc(); }
    }
#endif
    return sx_malloc(n);
}
void operator delete(void* p) noexcept { sx_free(p); }
void operator delete(void* p, std::size_t) noexcept { sx_free(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { sx_free(p); }
void operator delete[](void* p, std::size_t) noexcept { sx_free(p); }
#endif
#endif
