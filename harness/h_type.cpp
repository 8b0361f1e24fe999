// C15: which(), type() and empty() for polymorphic classes held by value, in a wrapper and by reference (where
// the object referred to is of a derived class), const alternatives, built-in types and recursive lists.
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
#include <boost/type_index.hpp>
#include <vector>
using namespace sx;
struct PB { uint32_t b; explicit PB(uint32_t x) : b(x) {} virtual ~PB() {} };
struct PD : PB { uint32_t d; explicit PD(uint32_t x) : PB(x), d(x) {} };
struct PE : PD { explicit PE(uint32_t x) : PD(x) {} };
template <class... T> struct Desc {};
template <class V, class T> bool is(V const& v) { return boost::typeindex::type_index(v.type()) == boost::typeindex::type_id<T>(); }
template <class V, class... T> void holds(V const& v, int i) {
    bool got[] = {is<V, T>(v)...};
    sx_assert(v.which() == i && !v.empty(), "which() and empty() describe the content");
    for (int k = 0; k < (int)sizeof...(T); ++k) sx_assert(got[k] == (k == i), "type() identifies the type held and no other");
}
extern "C" void sx_main() {
    uint32_t kind = (uint32_t)sx_concretize(sx_below(5, "kind")), i = (uint32_t)sx_concretize(sx_below(4, "alt")), j = (uint32_t)sx_concretize(sx_below(4, "alt2")), x = sx_u32("x");
    if (kind == 0) {  // by value and in a wrapper
        typedef boost::variant<PB, int, boost::recursive_wrapper<PE>, PD> V;
        auto mk = [&](uint32_t a) -> V { if (a == 0) return V(PB(x)); if (a == 1) return V((int)x); if (a == 2) return V(PE(x)); return V(PD(x)); };
        V v(mk(i)); holds<V, PB, int, PE, PD>(v, (int)i);
        V w(mk(j)); v = w; holds<V, PB, int, PE, PD>(v, (int)j); holds<V, PB, int, PE, PD>(w, (int)j);
        V u(mk(i)); u.swap(w); holds<V, PB, int, PE, PD>(u, (int)j); holds<V, PB, int, PE, PD>(w, (int)i);
    } else if (kind == 1) {  // by reference: the static type is the bounded type
        PB b(x); PD d(x); PE e(x); long l = 1;
        typedef boost::variant<PB&, long&> V;
        PB& r = i == 0 ? b : i == 1 ? static_cast<PB&>(d) : static_cast<PB&>(e);
        if (i == 3) { V v(l); holds<V, PB, long>(v, 1); V w(v); holds<V, PB, long>(w, 1); }
        else { V v(r); holds<V, PB, long>(v, 0); V w(v); holds<V, PB, long>(w, 0); }
        typedef boost::variant<PD const&, PB&, int> W;
        PD const& cd = i & 1 ? static_cast<PD const&>(e) : d;
        if (j == 0) { W v(cd); holds<W, PD, PB, int>(v, 0); } else if (j == 1) { W v(r); holds<W, PD, PB, int>(v, 1); } else { W v((int)x); holds<W, PD, PB, int>(v, 2); }
    } else if (kind == 2) {  // const alternatives
        typedef boost::variant<const PB, const int, unsigned> V;
        if (i == 0) { V v((PB(x))); holds<V, PB, int, unsigned>(v, 0); V w(v); holds<V, PB, int, unsigned>(w, 0); }
        else if (i == 1) { V v((int)x); holds<V, PB, int, unsigned>(v, 1); V w(v); holds<V, PB, int, unsigned>(w, 1); }
        else { V v((unsigned)x); holds<V, PB, int, unsigned>(v, 2); }
    } else if (kind == 3) {  // built-in types
        typedef boost::variant<char, signed char, unsigned long, long long> V;
        auto mk = [&](uint32_t a) -> V { if (a == 0) return V((char)x); if (a == 1) return V((signed char)x); if (a == 2) return V((unsigned long)x); return V((long long)x); };
        V v(mk(i)); holds<V, char, signed char, unsigned long, long long>(v, (int)i);
        V w(mk(j)); w.swap(v); holds<V, char, signed char, unsigned long, long long>(v, (int)j); holds<V, char, signed char, unsigned long, long long>(w, (int)i);
        v = std::move(w); holds<V, char, signed char, unsigned long, long long>(v, (int)i);
    } else {  // a recursive list and nested variants
        typedef boost::make_recursive_variant<int, std::vector<boost::recursive_variant_>, boost::variant<int, PB> >::type V;
        typedef boost::variant<int, PB> N1; typedef std::vector<V> VV;
        auto mk = [&](uint32_t a) -> V { if (a == 0) return V((int)x); if (a == 1) return V(VV(1, V((int)x))); return V(N1(PB(x))); };
        uint32_t a = i % 3, c = j % 3;
        V v(mk(a)); holds<V, int, VV, N1>(v, (int)a);
        V w(mk(c)); v = w; holds<V, int, VV, N1>(v, (int)c); w = mk(a); holds<V, int, VV, N1>(w, (int)a);
        v.swap(w); holds<V, int, VV, N1>(v, (int)a); holds<V, int, VV, N1>(w, (int)c);
    }
    sx_cover("end");
}
