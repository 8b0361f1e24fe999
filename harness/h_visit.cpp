// C10 C11 C12: visitation of one and of several variants, delayed visitors, visitor_ptr.
#define SX_DEFINE
#include "pre.h"
#include <boost/variant/apply_visitor.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/visitor_ptr.hpp>
#ifndef NV
#define NV 1
#endif

enum { CAT_L, CAT_CL, CAT_R, CAT_CR };
struct Arg { int id, cat; uint32_t val; const void* addr; };
struct Log { int calls, n; const void* visitor; Arg a[5]; };
static Log lg;
static uint32_t res;         // what the visitor returns
static uint32_t res_obj;     // designated by reference results
static bool write_through; static uint32_t write_val;

template <class T> inline void note(T&& t) {
    typedef typename std::remove_reference<T>::type U;
    typedef typename std::remove_cv<U>::type E0;
    if (lg.n < 5) {
        Arg& a = lg.a[lg.n];
        sx_assert(Info<E0>::live(t), "the visitor is given a live object");
        a.id = Info<E0>::id(); a.val = Info<E0>::val(t); a.addr = std::addressof(t);
        a.cat = std::is_lvalue_reference<T>::value ? (std::is_const<U>::value ? CAT_CL : CAT_L) : (std::is_const<U>::value ? CAT_CR : CAT_R);
    }
    ++lg.n;
}
inline void note_all() {}
template <class H, class... T> inline void note_all(H&& h, T&&... t) { note(std::forward<H>(h)); note_all(std::forward<T>(t)...); }
template <class H> inline void wr(H& h) { Mutator m(write_val); m(h); }
template <class H> inline void wr(H const&) {}

template <class RES> struct Ret;
template <> struct Ret<uint32_t> { static uint32_t get() { return res; } };
template <> struct Ret<uint32_t&> { static uint32_t& get() { return res_obj; } };
template <> struct Ret<void> { static void get() {} };
typedef M<20, MN | BN> MoveOnly;
template <> struct Ret<MoveOnly> { static MoveOnly get() { return MoveOnly(val_t(res)); } };

template <bool ST, class RES> struct Tag {};
template <class RES> struct Tag<true, RES> { typedef RES result_type; };
template <bool ST, class RES> struct Vis : Tag<ST, RES> {
    int calls;
    Vis() : calls(0) {}
    Vis(Vis const&) = delete;
    template <class... T> RES operator()(T&&... t) {
        ++calls; ++lg.calls; lg.n = 0; lg.visitor = this;
        note_all(std::forward<T>(t)...);
        maybe_throw(K_VISIT);
        if (write_through) { int d[] = {(wr(t), 0)...}; (void)d; }
        return Ret<RES>::get();
    }
    template <class... T> RES operator()(T&&... t) const {
        ++lg.calls; lg.n = 0; lg.visitor = this;
        note_all(std::forward<T>(t)...);
        maybe_throw(K_VISIT);
        if (write_through) { int d[] = {(wr(t), 0)...}; (void)d; }
        return Ret<RES>::get();
    }
};
static void expect_arg(int k, Snap const& s, int cat, bool same_object) {
    Arg& a = lg.a[k];
    sx_assert(a.id == s.id && a.val == s.val, "the visitor is given the variant's content, in argument order");
    if (cat == CAT_CR) sx_assert(a.cat == CAT_CL || a.cat == CAT_CR, "the content of a const variant is passed as const");
    else sx_assert(a.cat == cat, "value category and constness of the argument follow the variant");
    if (same_object) sx_assert(a.addr == s.addr, "the visitor is given the content itself, not a copy");
}

#if PROP == 10
template <class RES> struct Check { template <class F> static void go(F f) { RES r = f(); sx_assert(r == res, "the visitor's result is returned"); } };
template <> struct Check<void> { template <class F> static void go(F f) { f(); } };
template <> struct Check<uint32_t&> { template <class F> static void go(F f) { uint32_t& r = f(); sx_assert(&r == &res_obj, "a reference result is returned as that reference"); } };
template <> struct Check<MoveOnly> { template <class F> static void go(F f) { MoveOnly r(f()); sx_assert(r.val == res, "the visitor's result is returned"); } };

static V* pv; static const void* visitor_addr;
template <class VIS, class VAR> struct Call {
    VIS&& vis; VAR&& var; bool member;
    auto operator()() -> decltype(boost::apply_visitor(std::forward<VIS>(vis), std::forward<VAR>(var))) {
        visitor_addr = std::addressof(vis);
        return boost::apply_visitor(std::forward<VIS>(vis), std::forward<VAR>(var));
    }
};
template <class VIS, class VAR> struct CallMember {
    VIS&& vis; VAR&& var;
    auto operator()() -> decltype(std::forward<VAR>(var).apply_visitor(vis)) { visitor_addr = std::addressof(vis); return std::forward<VAR>(var).apply_visitor(vis); }
};
template <class RES, class VIS> void with_var(VIS&& vis, uint32_t cat, bool member) {
    (void)member;
    switch (cat) {
        case CAT_L: { Call<VIS, V&> c = {std::forward<VIS>(vis), *pv, false}; Check<RES>::go(std::ref(c)); break; }
        case CAT_CL: { Call<VIS, V const&> c = {std::forward<VIS>(vis), *pv, false}; Check<RES>::go(std::ref(c)); break; }
        case CAT_CR: { Call<VIS, V const> c = {std::forward<VIS>(vis), std::move(static_cast<V const&>(*pv)), false}; Check<RES>::go(std::ref(c)); break; }
        default: { Call<VIS, V> c = {std::forward<VIS>(vis), std::move(*pv), false}; Check<RES>::go(std::ref(c)); break; }
    }
}
template <class RES, class VIS> void with_member(VIS& vis, uint32_t cat) {
    switch (cat) {
        case CAT_L: { CallMember<VIS&, V&> c = {vis, *pv}; Check<RES>::go(std::ref(c)); break; }
        case CAT_CL: { CallMember<VIS&, V const&> c = {vis, *pv}; Check<RES>::go(std::ref(c)); break; }
        case CAT_CR: { CallMember<VIS&, V const> c = {vis, std::move(static_cast<V const&>(*pv))}; Check<RES>::go(std::ref(c)); break; }
        default: { CallMember<VIS&, V> c = {vis, std::move(*pv)}; Check<RES>::go(std::ref(c)); break; }
    }
}
template <class RES> void with_vis(uint32_t form, uint32_t cat) {
    Vis<true, RES> s; Vis<false, RES> g;
    switch (form) {
        case 0: with_var<RES>(s, cat, false); break;
        case 1: with_var<RES>(static_cast<Vis<true, RES> const&>(s), cat, false); break;
        case 2: with_var<RES>(std::move(s), cat, false); break;
        case 3: with_member<RES>(s, cat); break;
        case 4: with_member<RES>(static_cast<Vis<true, RES> const&>(s), cat); break;
#if __cplusplus >= 201402L
        case 5: with_var<RES>(g, cat, false); break;
        case 6: with_var<RES>(static_cast<Vis<false, RES> const&>(g), cat, false); break;
        case 7: with_var<RES>(std::move(g), cat, false); break;
#endif
        default: sx_assume(0);
    }
}
static void body() {
    Holder<V> h;
    Pre p = make_pre(h, "i", "val", true);
    pv = &h.v();
    uint32_t form = (uint32_t)sx_concretize(sx_below(8, "form"));
    uint32_t rk = (uint32_t)sx_concretize(sx_below(4, "result"));
    uint32_t cat = (uint32_t)sx_concretize(sx_below(4, "cat"));
    res = sx_u32("res");
    lg.calls = lg.n = 0; lg.visitor = 0; reset_stats(); news = 0; raised = 0;
    write_through = false;
    budget = 1; alloc_faults = true;
    bool threw = false;
    try {
        switch (rk) {
            case 0: with_vis<uint32_t>(form, cat); break;
            case 1: with_vis<uint32_t&>(form, cat); break;
            case 2: with_vis<void>(form, cat); break;
            default: with_vis<MoveOnly>(form, cat); break;
        }
    } catch (boom const& e) { threw = true; sx_assert(e.site == K_VISIT && e.serial == 1, "the visitor's exception is what reaches the caller"); sx_cover("visitor throws"); }
    budget = 0;
    sx_obs(threw); sx_obs(lg.calls); sx_obs(lg.a[0].id); sx_obs(lg.a[0].cat);
    sx_assert(threw == (raised > 0), "visitation throws exactly when the visitor does");
    sx_assert(lg.calls == 1 && lg.n == 1, "the visitor is called exactly once, with one argument");
    sx_assert(lg.visitor == visitor_addr, "the visitor itself is called, not a copy");
    expect_arg(0, p.s, (int)cat, true);
    stat[20] = Stat();
    Stat t = total();
    sx_assert(t.def + t.copy + t.move + t.casg + t.masg + t.dtor == 0 && news == 0, "visitation copies, moves and destroys nothing");
    Snap s = check(h.v());
    sx_assert(s.id == p.s.id && s.val == p.s.val && s.addr == p.s.addr, "visitation changes nothing else");
    h.v().~V();
}
#endif

#if PROP == 11 || PROP == 12
// variants of distinct types over the elements of the family's variant
struct Vars { Holder<V> h[5]; Snap s[5]; };
static uint32_t cats[5];
static Vars* vs;
static bool delayed;

template <class VIS, class... A> uint32_t fire(VIS& vis, std::true_type, A&&... a) { return boost::apply_visitor(vis, std::forward<A>(a)...); }
// dispatch on the symbolic category of operand K
template <int K, int N> struct Go {
    template <class VIS, class... A> static uint32_t go(VIS& vis, A&&... a) {
        switch (cats[K]) {
            case CAT_L: return Go<K + 1, N>::go(vis, std::forward<A>(a)..., vs->h[K].v());
#ifndef ONLY_L
            case CAT_CL: return Go<K + 1, N>::go(vis, std::forward<A>(a)..., static_cast<V const&>(vs->h[K].v()));
#if PROP == 11
            case CAT_R: return Go<K + 1, N>::go(vis, std::forward<A>(a)..., std::move(vs->h[K].v()));
#endif
#endif
            default: sx_assume(0); return 0;
        }
    }
};
template <int N> struct Go<N, N> {
    template <class VIS, class... A> static uint32_t go(VIS& vis, A&&... a) {
#if PROP == 12
        if (delayed) return boost::apply_visitor(vis)(a...);
#endif
        return boost::apply_visitor(vis, std::forward<A>(a)...);
    }
};
static void several() {
    static Vars store; vs = &store;
    for (int k = 0; k < NV; ++k) {
        uint32_t i = sx_below(NT, "i"); uint32_t val = sx_u32("val");
        build(vs->h[k], i, val);
        if (k == PREK && sx_bool("pre_failed")) failed_assignment(vs->h[k].v());
        vs->s[k] = check(vs->h[k].v());
    }
#ifdef ONLY_L
    for (int k = 0; k < NV; ++k) cats[k] = CAT_L;
#else
    for (int k = 0; k < NV; ++k) cats[k] = (uint32_t)sx_concretize(sx_below(PROP == 11 ? 3 : 2, "cat"));
#endif
#ifdef FORM
    uint32_t form = FORM;
#else
    uint32_t form = (uint32_t)sx_concretize(sx_below(4, "form"));
#endif
    res = sx_u32("res");
    uint32_t mode = (uint32_t)sx_concretize(sx_below(3, "mode"));  // plain, writes through, may throw
    bool wt = mode == 1;
    write_val = 0; write_through = false;
    if (wt) { write_through = true; write_val = sx_u32("wv"); }
    lg.calls = lg.n = 0; lg.visitor = 0; reset_stats(); raised = 0; news = 0;
    budget = 0;
    Vis<true, uint32_t> s; Vis<false, uint32_t> g;
    uint32_t r = 0; const void* who = 0; bool threw = false;
    int bud = mode == 2 ? 1 : 0;
    bool anyr = false;
    for (int k = 0; k < NV; ++k) anyr |= cats[k] == CAT_R;
    if (anyr) sx_assume(bud == 0);
    budget = bud;
    try {
        switch (form) {
#if !defined(FORM) || FORM == 0
            case 0: who = &s; r = Go<0, NV>::go(s); break;
#endif
#if !defined(FORM) || FORM == 1
            case 1: who = &s; r = Go<0, NV>::go(static_cast<Vis<true, uint32_t> const&>(s)); break;
#endif
#if __cplusplus >= 201402L && NV <= 3 && (!defined(FORM) || FORM == 2)
            case 2: who = &g; r = Go<0, NV>::go(g); break;
#endif
#if __cplusplus >= 201402L && NV <= 3 && (!defined(FORM) || FORM == 3)
            case 3: who = &g; r = Go<0, NV>::go(static_cast<Vis<false, uint32_t> const&>(g)); break;
#endif
            default: sx_assume(0);
        }
    } catch (boom const& e) { threw = true; sx_assert(e.site == K_VISIT, "the visitor's exception is what reaches the caller"); sx_cover("visitor throws"); }
    budget = 0;
    Stat t = total();
    sx_obs(lg.calls); sx_obs(r); sx_obs(threw);
    sx_assert(threw == (raised > 0), "visitation throws exactly when the visitor does");
    sx_assert(lg.calls == 1, "the visitor is called exactly once");
    sx_assert(lg.n == NV, "with one argument per variant");
    sx_assert(lg.visitor == who, "the visitor itself is called, not a copy");
    if (!threw) sx_assert(r == res, "the visitor's result is returned");
    for (int k = 0; k < NV; ++k) {
        expect_arg(k, vs->s[k], (int)cats[k], cats[k] != CAT_R);
        sx_obs(lg.a[k].id); sx_obs(lg.a[k].cat);
    }
    if (!anyr) sx_assert(t.def + t.copy + t.move + t.casg + t.masg + t.dtor == 0 && news == 0, "visitation of lvalues copies and moves nothing");
    sx_assert(t.copy == 0 || NV > 2, "binary visitation copies nothing");
    for (int k = 0; k < NV; ++k) {
        Snap x = check(vs->h[k].v());
        sx_assert(x.id == vs->s[k].id && x.addr == vs->s[k].addr, "the variants keep their contents");
        bool el = x.id != BLANK_AT + 1;
        if (cats[k] == CAT_L && wt && !threw) sx_assert(!el || x.val == write_val, "the visitor can change the content of a non-const variant");
        else if (cats[k] != CAT_R) sx_assert(x.val == vs->s[k].val, "nothing else is changed");
        vs->h[k].v().~V();
    }
    write_through = false;
}
#endif

#if PROP == 11
static void body() { several(); }
#endif

#if PROP == 12
// visitor_ptr
static int fcalls; static const void* farg; static uint32_t fval;
template <class T> uint32_t by_cref(T const& t) { ++fcalls; farg = std::addressof(t); fval = Info<T>::val(t); maybe_throw(K_VISIT); return res; }
template <class T> uint32_t& by_ref(T& t) { ++fcalls; farg = std::addressof(t); fval = Info<T>::val(t); maybe_throw(K_VISIT); return res_obj; }
template <class T> uint32_t by_val(T t) { ++fcalls; farg = 0; fval = Info<T>::val(t); maybe_throw(K_VISIT); return res; }
template <class T> void by_void(T const& t) { ++fcalls; farg = std::addressof(t); fval = Info<T>::val(t); maybe_throw(K_VISIT); }
struct UsePtr {
    V* v; uint32_t form; int thrown; bool is_ref; uint32_t r; bool ro;
    template <class T, int I> void run() { go<T>(std::integral_constant<bool, COPYABLE != 0>()); }
    template <class T> void go(std::true_type) {
        if (form == 3) {
            try { r = boost::apply_visitor(boost::visitor_ptr(&by_val<T>), *v); } catch (boost::bad_visit const& e) { thrown = 1; (void)static_cast<std::exception const&>(e).what(); }
        } else if (form == 6) {
            try { r = boost::apply_visitor(boost::visitor_ptr(&by_val<T>), static_cast<V const&>(*v)); } catch (boost::bad_visit const&) { thrown = 1; }
        } else if (form == 7) {
            try { boost::visitor_ptr_t<T, uint32_t> p(&by_val<T>); r = boost::apply_visitor(p)(static_cast<V const&>(*v)); } catch (boost::bad_visit const&) { thrown = 1; }
        } else go<T>(std::false_type());
    }
    template <class T> void go(std::false_type) {
        try {
            switch (form) {
                case 0: r = boost::apply_visitor(boost::visitor_ptr(&by_cref<T>), *v); break;
                case 1: r = boost::apply_visitor(boost::visitor_ptr(&by_cref<T>), static_cast<V const&>(*v)); break;
                case 2: { uint32_t& x = boost::apply_visitor(boost::visitor_ptr(&by_ref<T>), *v); ro = &x == &res_obj; r = res; break; }
                case 4: boost::apply_visitor(boost::visitor_ptr(&by_void<T>), *v); r = res; break;
                case 5: { boost::visitor_ptr_t<T const&, uint32_t> p(&by_cref<T>); r = boost::apply_visitor(p)(*v); break; }
                case 8: { boost::visitor_ptr_t<T const&, uint32_t> p(&by_cref<T>); r = boost::apply_visitor(p)(static_cast<V const&>(*v)); break; }
                case 9: { boost::visitor_ptr_t<T&, uint32_t&> p(&by_ref<T>); uint32_t& x = boost::apply_visitor(p)(*v); ro = &x == &res_obj; r = res; break; }
                case 10: { boost::visitor_ptr_t<T const&, uint32_t> const p(&by_cref<T>); boost::visitor_ptr_t<T const&, uint32_t> const q(p); r = v->apply_visitor(q); break; }
                default: sx_assume(0);
            }
        } catch (boost::bad_visit const&) { thrown = 1; }
    }
};
static void ptrs() {
    Holder<V> h;
    Pre p = make_pre(h, "i", "val", true);
    UsePtr u; u.v = &h.v(); u.thrown = 0; u.r = 0; u.ro = true;
    u.form = (uint32_t)sx_concretize(sx_below(11, "form"));
    uint32_t j = sx_below(NT, "j");
    res = sx_u32("res");
    fcalls = 0; raised = 0;
    bool bm = false;
    bool by_value = u.form == 3 || u.form == 6 || u.form == 7;
    if (!by_value) budget = 1;
    try { pick<Types>(j, u); } catch (boom const& e) { bm = true; sx_assert(e.site == K_VISIT, "the function's exception is what reaches the caller"); }
    budget = 0;
    sx_obs(u.thrown); sx_obs(fcalls);
    if (p.s.id == (int)j + 1) {
        sx_assert(u.thrown == 0 && fcalls == 1, "visitor_ptr calls the function once when the content is of its parameter type");
        if (!by_value) sx_assert(farg == p.s.addr, "with the content itself");
        sx_assert(fval == p.s.val, "with the content's value");
        if (!bm) sx_assert(u.r == res && u.ro, "and returns its result");
        sx_cover("ptr hit");
    } else {
        sx_assert(u.thrown == 1 && fcalls == 0 && !bm, "visitor_ptr throws bad_visit, without a call, when the content is of another type");
        sx_cover("ptr miss");
    }
    Snap s = check(h.v());
    sx_assert(s.id == p.s.id && s.val == p.s.val && s.addr == p.s.addr, "the variant is unchanged");
    h.v().~V();
}
static void body() {
#ifdef PTRS
    ptrs();
#else
    delayed = sx_bool("delayed") != 0;
    several();
#endif
}
#endif

extern "C" void sx_main() { body(); finish(); }
