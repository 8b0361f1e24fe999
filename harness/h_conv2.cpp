// C16: converting construction and assignment over further sets of bounded types (LIST): base and derived
// classes, pointers, arithmetic types of every rank, class types with converting templates, move-only types,
// conversion functions to references.  The oracle is C++ overload resolution itself.
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/variant/get.hpp>
using namespace sx;

struct Z : N<2, ELF, 12> { explicit Z(val_t v) : N<2, ELF, 12>(v) {} };
struct ZD : Z { uint32_t more; explicit ZD(val_t v) : Z(v), more(v.v + 1) {} };
struct ZDD : ZD { uint32_t third; explicit ZDD(val_t v) : ZD(v), third(v.v ^ 5) {} };
struct ZE : ZD { uint32_t other; explicit ZE(val_t v) : ZD(v), other(v.v * 3) {} };
struct P0 : N<4, ELF> { explicit P0(val_t v) : N<4, ELF>(v) {} };
struct MO : M<5, ELF> { explicit MO(val_t v) : M<5, ELF>(v) {} };
struct MOD : MO { explicit MOD(val_t v) : MO(v) {} };
struct ToMO { uint32_t u; operator MO() const { return MO(val_t(u ^ 9)); } };
struct ToZr { Z z; explicit ToZr(val_t v) : z(v) {} operator Z const&() const { return z; } operator Z&() { return z; } };
enum class Sc : uint32_t { A, B = 0x80000000u };
enum Un : unsigned char { UA = 3, UB = 250 };
// accepts anything, as boost::any does
struct Gy : E<6, ELF> {
    explicit Gy(val_t v) : E<6, ELF>(v) {}
    template <class T, class = typename std::enable_if<!std::is_base_of<Gy, typename std::decay<T>::type>::value && !std::is_same<val_t, typename std::decay<T>::type>::value>::type>
    Gy(T const& t) : E<6, ELF>(val_t((uint32_t)sizeof(T) * 1000u + val_of(t))) { maybe_throw(48 + K_CONV); }
    static uint32_t val_of(uint32_t v) { return v; } static uint32_t val_of(Z const& z) { return z.val; } static uint32_t val_of(P0 const& z) { return z.val; }
    static uint32_t val_of(short v) { return (uint16_t)v; } static uint32_t val_of(Sc v) { return (uint32_t)v; }
};
struct Bs { uint32_t b; }; struct Ds : Bs { uint32_t d; };
typedef uint32_t (*Fn)(uint32_t); typedef uint32_t Bs::*Mp;
static uint32_t f1(uint32_t x) { return x + 1; }
static uint32_t f2(uint32_t x) { return x ^ 1; }

static uint64_t key(bool v) { return v; }
static uint64_t key(int v) { return (uint64_t)(int64_t)v; }
static uint64_t key(unsigned long v) { return v; }
static uint64_t key(long long v) { return (uint64_t)v; }
static uint64_t key(signed char v) { return (uint64_t)(int64_t)v; }
static uint64_t key(char v) { return (uint64_t)(int64_t)v; }
static uint64_t key(unsigned char v) { return v; }
static uint64_t key(short v) { return (uint64_t)(int64_t)v; }
static uint64_t key(unsigned short v) { return v; }
static uint64_t key(unsigned v) { return v; }
static uint64_t key(char16_t v) { return v; }
static uint64_t key(wchar_t v) { return (uint64_t)(int64_t)v; }
static uint64_t key(double v) { uint64_t k; __builtin_memcpy(&k, &v, 8); return k; }
static uint64_t key(float v) { uint32_t k; __builtin_memcpy(&k, &v, 4); return k; }
static uint64_t key(Un v) { return v; }
static uint64_t key(Sc v) { return (uint64_t)v; }
static uint64_t key(const void* v) { return (uint64_t)(uintptr_t)v; }
static uint64_t key(Fn v) { return v(40); }
static uint64_t key(Mp v) { Ds d; d.b = 17; d.d = 18; return d.*v; }
static uint64_t key(Z const& z) { z.use(); return z.val; }
static uint64_t key(ZD const& z) { z.use(); return z.val * (uint64_t)0x100000001ull ^ z.more; }
static uint64_t key(ZDD const& z) { z.use(); return (z.val ^ z.third) * (uint64_t)0x100000001ull ^ z.more; }
static uint64_t key(ZE const& z) { z.use(); return (z.val ^ z.other) * (uint64_t)0x100000001ull ^ z.more; }
static uint64_t key(P0 const& z) { z.use(); return z.val; }
static uint64_t key(MO const& z) { z.use(); return z.val; }
static uint64_t key(Gy const& z) { z.use(); return z.val; }
static uint64_t key(ToMO const& z) { return z.u; }
static uint64_t key(ToZr const& z) { z.z.use(); return z.z.val; }

static Bs gb[2]; static Ds gd[2]; static int gi[2]; static char gc[2];
template <class T, class = void> struct Mk { static T make(uint32_t x) { return T(val_t(x)); } };
template <class T> struct Mk<T, typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> { static T make(uint32_t x) { return (T)x; } };
template <> struct Mk<const char*> { static const char* make(uint32_t x) { return x & 1 ? gc : gc + 1; } };
template <> struct Mk<char*> { static char* make(uint32_t x) { return x & 1 ? gc : gc + 1; } };
template <> struct Mk<const void*> { static const void* make(uint32_t x) { return x & 1 ? (void*)gi : 0; } };
template <> struct Mk<Bs*> { static Bs* make(uint32_t x) { return x & 1 ? gb : x & 2 ? gb + 1 : 0; } };
template <> struct Mk<Ds*> { static Ds* make(uint32_t x) { return x & 1 ? gd : gd + 1; } };
template <> struct Mk<int*> { static int* make(uint32_t x) { return x & 1 ? gi : gi + 1; } };
template <> struct Mk<Fn> { static Fn make(uint32_t x) { return x & 1 ? f1 : f2; } };
template <> struct Mk<Mp> { static Mp make(uint32_t) { return &Bs::b; } };
template <> struct Mk<ToMO> { static ToMO make(uint32_t x) { ToMO t; t.u = x; return t; } };

#if LIST == 1
#define BOUNDED Z, ZD, P0
typedef boost::variant<Z, ZD, P0> V; typedef TL<Z, ZD, ZDD, ZE, P0> Ops;
#elif LIST == 2
#define BOUNDED ZD, boost::blank, Z, ZDD
typedef boost::variant<ZD, boost::recursive_wrapper<boost::blank>, Z, boost::recursive_wrapper<ZDD> > V; typedef TL<Z, ZD, ZDD, ZE, ToZr> Ops;
static uint64_t key(boost::blank const&) { return 7; }
template <> struct Mk<boost::blank> { static boost::blank make(uint32_t) { return boost::blank(); } };
#elif LIST == 3
#define BOUNDED bool, const char*, const void*, Bs*, Fn, Mp
typedef boost::variant<BOUNDED> V; typedef TL<bool, int, unsigned char, const char*, char*, const void*, Bs*, Ds*, int*, Fn, Mp, Un> Ops;
#elif LIST == 4
#define BOUNDED int, unsigned long, signed char, Sc
typedef boost::variant<BOUNDED> V; typedef TL<int, short, unsigned short, unsigned char, char, bool, signed char, unsigned long, char16_t, Un, Sc> Ops;
#elif LIST == 5
#define BOUNDED Gy, int, P0
typedef boost::variant<BOUNDED> V; typedef TL<int, short, unsigned, Z, P0, Gy, Sc> Ops;
#elif LIST == 6
#define BOUNDED MO, int
typedef boost::variant<BOUNDED> V; typedef TL<int, short, MO, MOD, ToMO> Ops;
#elif LIST == 7
#define BOUNDED int, P0, MO
typedef boost::variant<int, P0, boost::recursive_wrapper<MO> > V; typedef TL<int, bool, P0, MO> Ops;
#elif LIST == 8
#define BOUNDED int, double, P0
typedef boost::variant<BOUNDED> V; typedef TL<int, double, float, short, bool, signed char, unsigned short, Un, P0> Ops;
#elif LIST == 9
#define BOUNDED P0, float, const char*
typedef boost::variant<BOUNDED> V; typedef TL<float, double, int, long long, unsigned char, bool, Un, const char*, char*> Ops;
#elif LIST == 10
#define BOUNDED bool, float, double, unsigned
typedef boost::variant<BOUNDED> V; typedef TL<bool, float, double, unsigned> Ops;
#endif
typedef TL<BOUNDED> Types;
enum { NT = len<Types>::value };

template <int I> using Ix = std::integral_constant<int, I>;
template <class L, int I> struct Set;
template <class T, int I> struct Set<TL<T>, I> { static Ix<I> ov(T const&); static Ix<I> ov(T&&); };
template <class T, class U, class... R, int I> struct Set<TL<T, U, R...>, I> : Set<TL<U, R...>, I + 1> { using Set<TL<U, R...>, I + 1>::ov; static Ix<I> ov(T const&); static Ix<I> ov(T&&); };
typedef Set<Types, 0> OV;
template <class L, class T> struct index_of;
template <class T, class... R> struct index_of<TL<T, R...>, T> { enum { value = 0 }; };
template <class U, class... R, class T> struct index_of<TL<U, R...>, T> { enum { value = 1 + index_of<TL<R...>, T>::value }; };

struct Seen { int which; uint64_t k; const void* addr; };
struct Look : boost::static_visitor<void> { Seen* s; explicit Look(Seen* p) : s(p) {} template <class T> void operator()(T const& t) const { sx_assert(s->which == (int)index_of<Types, T>::value, "which() names the type of the content"); s->k = key(t); s->addr = std::addressof(t); } };
static Seen look(V const& v) { Quiet q; Seen s; s.which = v.which(); s.k = 0; s.addr = 0; boost::apply_visitor(Look(&s), v); return s; }
template <class VV> struct Raw { alignas(VV) unsigned char buf[sizeof(VV)]; VV& v() { return *reinterpret_cast<VV*>(buf); } };

struct Put { void* p; uint32_t x; template <class T, int I> void run() { ::new (p) V(Mk<T>::make(x)); } };
template <class T, class OP> struct Conv {  // what C++ gives for converting the operand to the selected type
    static uint64_t get(OP& op) { Quiet q; return sel(op, std::is_copy_constructible<OP>()); }
    static uint64_t sel(OP& op, std::true_type) { OP tmp(op); T t(std::move(tmp)); return key(t); }
    static uint64_t sel(OP& op, std::false_type) { return key(static_cast<T&>(op)); }
};
template <class T> struct is_mo { enum { value = std::is_base_of<MO, T>::value }; };
template <class OP, bool L> struct Do {
    static void go(Raw<V>& h, OP& op, uint32_t f) {
        OP const& cop = op;
        switch (f) {
            case 0: ::new ((void*)h.buf) V(cop); break;
            case 1: ::new ((void*)h.buf) V(op); break;
            case 2: ::new ((void*)h.buf) V(std::move(op)); break;
            case 3: h.v() = cop; break;
            case 4: h.v() = op; break;
            default: h.v() = std::move(op); break;
        }
    }
    static int want(uint32_t f) { return f % 3 == 0 ? (int)decltype(OV::ov(std::declval<OP const&>()))::value : f % 3 == 1 ? (int)decltype(OV::ov(std::declval<OP&>()))::value : (int)decltype(OV::ov(std::declval<OP&&>()))::value; }
};
template <class OP> struct Do<OP, false> {  // move-only operands: as rvalues
    static void go(Raw<V>& h, OP& op, uint32_t f) { if (f < 3) ::new ((void*)h.buf) V(std::move(op)); else h.v() = std::move(op); }
    static int want(uint32_t) { return (int)decltype(OV::ov(std::declval<OP&&>()))::value; }
};
struct Form {
    uint32_t x, f;
    template <class OP, int> void run() {
        enum { L = !is_mo<OP>::value, SEL = decltype(OV::ov(std::declval<OP&&>()))::value };
        Raw<V> h;
        OP op(Mk<OP>::make(x));
        typedef typename at<Types, SEL>::type T;
        int wi = Do<OP, L>::want(f);
        sx_assert(wi == (int)SEL, "harness: one selection");
        uint64_t want = Conv<T, OP>::get(op), before = key(op);
        bool constructs = f < 3, exact = false;
        Seen s0; s0.which = -1; s0.k = 0; s0.addr = 0;
        if (!constructs) {
            uint32_t pi = (uint32_t)sx_concretize(sx_below(NT, "pre"));
            Put p; p.p = (void*)h.buf; p.x = sx_u32("pre_val");
            { Quiet q; pick<Types>(pi, p); }
            s0 = look(h.v());
            sx_assert(s0.which == (int)pi, "construction from a value of a bounded type holds that type");
            exact = std::is_same<OP, T>::value && s0.which == wi;
        }
        reset_stats(); raised = 0; budget = BUDGET; alloc_faults = true;
        bool threw = false;
        try { Do<OP, L>::go(h, op, f); } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
        budget = 0;
        Stat st = total();
        sx_obs(threw); sx_obs(wi);
        sx_assert(threw == (raised > 0), "throws exactly when a conversion, an element operation or an allocation does");
        if (f % 3 != 2 && L) sx_assert(key(op) == before, "an lvalue operand is not modified");
        if (threw) {
            sx_cover("failed");
            if (constructs) return;
            look(h.v());
        } else {
            Seen s = look(h.v());
            sx_obs(s.which); if (LIST != 3 && LIST != 9) sx_obs((uint32_t)s.k);
            sx_assert(s.which == wi, "the bounded type overload resolution selects is held");
            sx_assert(s.k == want, "the converted value is stored");
            if (exact) {
                sx_cover("in place");
                sx_assert(s.addr == s0.addr, "the existing object is assigned in place");
                sx_assert(st.dtor == 0 && st.copy == 0 && st.move == 0 && st.def == 0, "assignment in place constructs and destroys nothing");
            }
        }
        h.v().~V();
    }
};
static void body() {
    uint32_t o = (uint32_t)sx_concretize(sx_below(len<Ops>::value, "operand"));
    Form fm; fm.f = (uint32_t)sx_concretize(sx_below(6, "form")); fm.x = sx_u32("x");
    pick<Ops>(o, fm);
}
extern "C" void sx_main() { body(); sx_assert(sx_reg_count() == 0, "every contained object was destroyed"); sx_cover("end"); }
