// C23: streaming a variant streams its content, once. The stream is a recording
// specialisation of std::basic_ostream, so that every use of it is seen.
#define SX_DEFINE
#include <iosfwd>
#include <cstdint>
#include <cstddef>
#include "sx.h"
#ifdef WIDE
typedef wchar_t CH;
#else
typedef char CH;
#endif
struct RecTraits { typedef CH char_type; typedef int int_type; };
struct Event { int kind; uint32_t val; const void* addr; };
namespace std {
template <> class basic_ostream<CH, RecTraits> {
public:
    typedef CH char_type; typedef RecTraits traits_type; typedef int int_type; typedef basic_ostream ostream_type;
    Event log[12]; int n; int st; long w; CH f; unsigned fl;
    basic_ostream() : n(0), st(0), w(0), f(' '), fl(0) {}
    void rec(int k, uint32_t v, const void* a) { if (n < 12) { log[n].kind = k; log[n].val = v; log[n].addr = a; } ++n; }
    bool good() const { return st == 0; } bool fail() const { return st != 0; } bool bad() const { return (st & 1) != 0; } bool eof() const { return false; }
    explicit operator bool() const { return st == 0; } bool operator!() const { return st != 0; }
    int rdstate() const { return st; } void setstate(int s) { rec(900, (uint32_t)s, 0); st |= s; } void clear(int s = 0) { rec(901, (uint32_t)s, 0); st = s; }
    long width() const { return w; } long width(long x) { long o = w; w = x; rec(902, (uint32_t)x, 0); return o; }
    CH fill() const { return f; } CH fill(CH c) { CH o = f; f = c; rec(903, (uint32_t)c, 0); return o; }
    unsigned flags() const { return fl; } unsigned flags(unsigned x) { unsigned o = fl; fl = x; rec(904, x, 0); return o; }
    basic_ostream& put(CH c) { rec(905, (uint32_t)c, 0); return *this; }
    basic_ostream& write(const CH*, long k) { rec(906, (uint32_t)k, 0); return *this; }
    basic_ostream& flush() { rec(907, 0, 0); return *this; }
    basic_ostream& operator<<(basic_ostream& (*m)(basic_ostream&)) { rec(908, 0, 0); return m(*this); }
    basic_ostream& operator<<(bool x) { rec(909, x, 0); return *this; }
    basic_ostream& operator<<(int x) { rec(910, (uint32_t)x, 0); return *this; }
    basic_ostream& operator<<(unsigned x) { rec(911, x, 0); return *this; }
    basic_ostream& operator<<(long x) { rec(912, (uint32_t)x, 0); return *this; }
    basic_ostream& operator<<(unsigned long x) { rec(913, (uint32_t)x, 0); return *this; }
    basic_ostream& operator<<(double) { rec(914, 0, 0); return *this; }
    basic_ostream& operator<<(const void*) { rec(915, 0, 0); return *this; }
private:
    basic_ostream(basic_ostream const&); basic_ostream& operator=(basic_ostream const&);
};
inline basic_ostream<CH, RecTraits>& operator<<(basic_ostream<CH, RecTraits>& o, char c) { o.rec(920, (uint32_t)c, 0); return o; }
inline basic_ostream<CH, RecTraits>& operator<<(basic_ostream<CH, RecTraits>& o, const char* s) { o.rec(921, 0, s); return o; }
}
typedef std::basic_ostream<CH, RecTraits> OS;
namespace sx {
// the contents' own inserter: it may fail and it may use the stream
template <class T> typename std::enable_if<is_el<T>::value, OS&>::type operator<<(OS& o, T const& t) { t.use(); if (op_faults) maybe_throw(T::id * 8 + K_OP); o.rec(T::id, t.val, std::addressof(t)); if (t.val & 1) o.st |= 4; return o; }
}
#include "pre.h"
#include <boost/variant/detail/variant_io.hpp>

static bool same(Snap const& x, Snap const& y) { return x.id == y.id && x.val == y.val && x.addr == y.addr; }
typedef boost::variant<T1, V> Outer;          // a variant of a variant
typedef boost::variant<Outer, T1> Outer2;
struct Ref { template <class X> static void go(); };

extern "C" void sx_main() {
    Holder<V> ha;
    Pre a = make_pre(ha, "ia", "va", true);
    bool blank = a.s.id == BLANK_AT + 1;
    uint32_t op = (uint32_t)sx_concretize(sx_below(6, "op"));
    OS out;
    out.st = (int)sx_below(2, "state") * 4; out.w = 7; out.fl = 5;
    int st0 = out.st;
    raised = 0; news = 0;
    reset_stats();
    bool threw = false;
    V& v = ha.v(); V const& c = v;
    OS* r = 0;
    int times = 1;
#if COPYABLE
    // copies for the nested forms are made beforehand
    Quiet* q = 0; (void)q;
    quiet++;
    Outer o1(c); Outer2 o2(o1);
    Outer plain((T1(val_t(9))));
    quiet--;
    Snap n1 = Snap(), n2 = Snap();
    n1 = check(boost::get<V>(o1)); n2 = check(boost::get<V>(boost::get<Outer>(o2)));
    reset_stats(); news = 0;
#endif
    budget = 1; op_faults = true; alloc_faults = true;
    try {
        switch (op) {
            case 0: r = &(out << c); break;
            case 1: r = &(out << v); break;
            case 2: times = 2; r = &(out << c << c); break;
#if COPYABLE
            case 3: r = &(out << o1); break;
            case 4: r = &(out << o2); break;
            case 5: r = &(out << plain); break;
#endif
            default: sx_assume(0);
        }
    } catch (boom const& e) { threw = true; same_exception(e); sx_cover("failed"); }
    budget = 0; op_faults = false;
    sx_obs(op); sx_obs(threw); sx_obs(out.n);
    sx_assert(threw == (raised > 0), "streaming throws exactly when the content's inserter does");
    Stat t = total();
    sx_assert(t.copy + t.move + t.casg + t.masg + t.def + t.dtor == 0 && news == 0, "streaming copies nothing");
    sx_assert(out.w == 7 && out.fl == 5 && out.f == (CH)' ', "the stream's formatting is left to the content's inserter");
    if (!threw) {
        sx_assert(r == &out, "the same stream is returned");
        int id = a.s.id; uint32_t val = a.s.val; const void* addr = a.s.addr;
#if COPYABLE
        if (op == 3) { addr = n1.addr; } else if (op == 4) { addr = n2.addr; } else if (op == 5) { id = 1; val = 9; addr = boost::get<T1>(&plain); blank = false; }
#endif
        if (blank) sx_assert(out.n == 0, "blank inserts nothing");
        else {
            sx_assert(out.n == times, "the content is inserted once and nothing else is");
            for (int k = 0; k < times && k < out.n; ++k) sx_assert(out.log[k].kind == id && out.log[k].val == val && out.log[k].addr == addr, "what is inserted is the content itself, by its own inserter");
            sx_assert(out.st == (st0 | ((val & 1) ? 4 : 0)), "the stream's state is what the content's inserter left");
        }
    } else sx_assert(out.n == 0 || (times == 2 && out.n == 1), "nothing is inserted after a failure");
    Snap s = check(v); sx_assert(same(s, a.s), "the variant is not modified");
    ha.v().~V();
    sx_cover("end");
}
