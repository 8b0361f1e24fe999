// Pre-states: a variant with any alternative and value, optionally after a failed
// assignment (which may leave the content in a heap backup or a fallback value).
#ifndef PRE_H
#define PRE_H
#include "fam.h"

struct CopyAssignVal { V* v; uint32_t val; template <class T, int I> void run() { go<T>(std::is_copy_constructible<T>()); }
    template <class T> void go(std::true_type) { T t(Info<T>::make(val)); *v = static_cast<T const&>(t); }
    template <class T> void go(std::false_type) { T t(Info<T>::make(val)); *v = std::move(t); } };

// Try to assign another alternative to v with a fault; the path goes on only if it failed.
inline void failed_assignment(V& v) {
    if (NT < 2) sx_assume(0);
    uint32_t j = sx_below(NT, "pre_j");
    sx_assume(j != (uint32_t)v.which());
    int saved = budget; bool sa = alloc_faults;
    budget = 1; alloc_faults = false;
    bool threw = false;
    try { CopyAssignVal f; f.v = &v; f.val = 77; pick<Types>(j, f); } catch (boom const&) { threw = true; }
    budget = saved; alloc_faults = sa;
    sx_assume(threw);
}
struct Pre { uint32_t i, val; bool failed; Snap s; };
// may_fail: also consider the state after a failed assignment
inline Pre make_pre_val(Holder<V>& h, const char* ni, uint32_t val, bool may_fail);
inline Pre make_pre(Holder<V>& h, const char* ni, const char* nv, bool may_fail) { uint32_t val = sx_u32(nv); return make_pre_val(h, ni, val, may_fail); }
inline Pre make_pre_val(Holder<V>& h, const char* ni, uint32_t val, bool may_fail) {
    Pre p;
    p.i = sx_below(NT, ni); p.val = val;
    p.failed = false;
    build(h, p.i, p.val);
    if (may_fail && sx_bool("pre_failed")) {
        failed_assignment(h.v());
        p.failed = true;
        sx_cover("state after a failed assignment");
    }
    p.s = check(h.v());
    if (!p.failed) sx_assert(p.s.id == (int)p.i + 1 && (p.s.val == p.val || p.s.id == BLANK_AT + 1), "converting construction stores the value");
    return p;
}
struct Mutator : boost::static_visitor<void> {  // change the content in place
    uint32_t v;
    explicit Mutator(uint32_t x) : v(x) {}
    template <class T> void operator()(T& t) const { set(t, is_el<T>()); }
    template <class T> void set(T& t, std::true_type) const { t.use(); t.val = v; }
    template <class T> void set(T& t, std::false_type) const { put(t, std::integral_constant<bool, std::is_trivially_copyable<T>::value && !std::is_empty<T>::value>()); }
    template <class T> void put(T& t, std::true_type) const { t = Info<T>::make(v); }
    template <class T> void put(T&, std::false_type) const {}
};
inline void mutate(V& v, uint32_t x) { Quiet q; boost::apply_visitor(Mutator(x), v); }
inline void finish() {
    sx_assert(sx_reg_count() == 0, "every contained object was destroyed");
    sx_cover("end");
}
struct SizeOf { size_t size, align; template <class T, int I> void run() { size = sizeof(T); align = alignof(T); } };
struct TraitAt { bool nmc, nma, ncc; template <class T, int I> void run() {
    nmc = has_move<T>::value && std::is_nothrow_move_constructible<T>::value; nma = has_move<T>::value && std::is_nothrow_move_assignable<T>::value; ncc = std::is_nothrow_copy_constructible<T>::value; } };
inline TraitAt traits(int id) { TraitAt t; t.nmc = t.nma = t.ncc = false; pick<Types>((uint32_t)(id - 1), t); return t; }
#endif
