// C25: exceptions from contents and visitors propagate unchanged; nothing else is thrown;
// operations that do not modify leave the variants as they were, also when they fail.
#define SX_DEFINE
#include "pre.h"
#include <boost/functional/hash.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/get.hpp>

static bool same(Snap const& x, Snap const& y) { return x.id == y.id && x.val == y.val && x.addr == y.addr; }
struct Vis : boost::static_visitor<int> {
    template <class A> int operator()(A&) const { maybe_throw(1); return 1; }
    template <class A, class B> int operator()(A&, B&) const { maybe_throw(2); return 2; }
    template <class A, class B, class D> int operator()(A&, B&, D&) const { maybe_throw(3); return 3; }
};
struct GetAt { V* v; const void* addr; template <class T, int I> void run() { T& r = boost::get<T>(*v); addr = std::addressof(r); } };
struct GetConstAt { V const* v; const void* addr; template <class T, int I> void run() { T const& r = boost::get<T>(*v); addr = std::addressof(r); } };
struct CtorMove { void* p; uint32_t val; template <class T, int I> void run() { T t(Info<T>::make(val)); ::new (p) V(std::move(t)); } };
struct CtorCopy { void* p; uint32_t val; template <class T, int I> void run() { T t(Info<T>::make(val)); go(t, std::is_copy_constructible<T>()); }
    template <class T> void go(T& t, std::true_type) { ::new (p) V(static_cast<T const&>(t)); }
    template <class T> void go(T&, std::false_type) { sx_assume(0); } };

enum { X_VISIT1, X_VISITR, X_VISIT2, X_VISIT3, X_DELAYED, X_GET, X_GETC, X_EQ, X_LT, X_HASH, X_CCOPY, X_CMOVE, X_VCOPY, X_VMOVE, X_DEF, NX };

extern "C" void sx_main() {
    Holder<V> ha, hb, hc;
    Pre a = make_pre(ha, "ia", "va", true), b = make_pre(hb, "ib", "vb", false);
    uint32_t op = (uint32_t)sx_concretize(sx_below(NX, "op"));
    uint32_t j = 0;
    if (op == X_GET || op == X_GETC || op == X_VCOPY || op == X_VMOVE) j = sx_below(NT, "j");
    uint64_t live0 = sx_reg_count(), heap0 = sx_heap_live();
    budget = BUDGET; alloc_faults = true; op_faults = true; raised = 0;
    bool threw = false, other = false, made = false;
    int r = -1;
    V& x = ha.v(); V& y = hb.v();
    try {
        switch (op) {
            case X_VISIT1: r = boost::apply_visitor(Vis(), x); break;
            case X_VISITR: { Vis v; V const& c = x; r = boost::apply_visitor(v, c); break; }
            case X_VISIT2: r = boost::apply_visitor(Vis(), x, y); break;
            case X_VISIT3: r = boost::apply_visitor(Vis(), x, y, x); break;
            case X_DELAYED: { Vis v; r = boost::apply_visitor(v)(x); break; }
            case X_GET: { GetAt g; g.v = &x; g.addr = 0; pick<Types>(j, g); sx_assert(g.addr == a.s.addr, "get by reference returns the content"); break; }
            case X_GETC: { GetConstAt g; g.v = &x; g.addr = 0; pick<Types>(j, g); sx_assert(g.addr == a.s.addr, "get by reference returns the content"); break; }
#if BLANK_AT < 0
            case X_EQ: r = x == y; break;
            case X_LT: r = x < y; break;
            case X_HASH: r = (int)(boost::hash<V>()(x) & 0xffff); break;
#endif
#if COPYABLE
            case X_CCOPY: ::new ((void*)hc.buf) V(static_cast<V const&>(x)); made = true; break;
#endif
            case X_CMOVE: ::new ((void*)hc.buf) V(std::move(x)); made = true; break;
            case X_VCOPY: { CtorCopy f; f.p = hc.buf; f.val = 5; pick<Types>(j, f); made = true; break; }
            case X_VMOVE: { CtorMove f; f.p = hc.buf; f.val = 5; pick<Types>(j, f); made = true; break; }
#ifdef DEFAULTABLE
            case X_DEF: ::new ((void*)hc.buf) V(); made = true; break;
#endif
            default: sx_assume(0);
        }
    } catch (boom const& e) { threw = true; sx_assert(raised > 0, "an exception only if one was raised"); same_exception(e); }
    catch (std::bad_alloc const&) { threw = true; sx_assert(raised > 0 && last_site == -1, "bad_alloc only if an allocation failed"); }
    catch (boost::bad_get const&) { other = true; }
    budget = 0; op_faults = false;
    sx_obs(op); sx_obs(threw); sx_obs(other);
    bool isget = op == X_GET || op == X_GETC;
    sx_assert(other == (isget && (int)j + 1 != a.s.id), "bad_get exactly when another type is held");
    sx_assert(threw == (raised > 0), "an operation throws exactly when something it invoked threw");
    if (threw) { sx_cover("failed"); made = false; }
    if (other) sx_cover("bad_get");
    if (!threw && op <= X_DELAYED) sx_assert(r == (op == X_VISIT2 ? 2 : op == X_VISIT3 ? 3 : 1), "the visitor's result");
    if (op != X_CMOVE) { Snap s = check(x); sx_assert(same(s, a.s), "the operand is as it was"); }
    else { Snap s = check(x); sx_assert(s.id == a.s.id, "a failed move keeps the type"); }
    Snap sb = check(y); sx_assert(same(sb, b.s), "the other operand is as it was");
    if (!made) { sx_assert(sx_reg_count() == live0 && sx_heap_live() == heap0, "a failed or non-modifying operation leaves no object and no memory behind"); }
    else { Snap s = check(hc.v()); sx_assert(sx_reg_count() == live0 + (s.id == BLANK_AT + 1 || scalar_id(s.id) ? 0 : 1), "exactly one object was made"); hc.v().~V(); sx_assert(sx_reg_count() == live0 && sx_heap_live() == heap0, "and it is gone after destruction"); }
    ha.v().~V(); hb.v().~V();
    finish();
}
