// C03 C04 C05 C06 C07 C21 (selected by PROP): one operation from any pre-state,
// with a full functional oracle.
#define SX_DEFINE
#include "pre.h"
#ifndef PROP
#define PROP 4
#endif
#ifndef BUDGET
#define BUDGET 0
#endif
#ifndef PREFAIL
#define PREFAIL 1
#endif
#if FAM == 10 || FAM == 13 || FAM == 25
#define WRAPPED 1
#else
#define WRAPPED 0
#endif

static bool same(Snap const& x, Snap const& y) { return x.id == y.id && x.val == y.val; }

// ---------------------------------------------------------------- C03
#if PROP == 3
struct DoVal {  // a = value of alternative j, with source check
    V* v; uint32_t val; bool mv; bool threw; bool src_ok; uint32_t got;
    template <class T, int I> void run() {
        T t(Info<T>::make(val));
        go(t, std::integral_constant<bool, COPYABLE != 0>());
        Quiet q; got = Info<T>::val(t);
    }
    template <class T> void go(T& t, std::true_type) {
        try { if (mv) *v = std::move(t); else *v = static_cast<T const&>(t); } catch (boom const& e) { threw = true; chk(e); } catch (std::bad_alloc const&) { threw = true; sx_assert(last_site == -1, "exception reaches the caller"); }
    }
    template <class T> void go(T& t, std::false_type) {
        try { *v = std::move(t); } catch (boom const& e) { threw = true; chk(e); } catch (std::bad_alloc const&) { threw = true; sx_assert(last_site == -1, "exception reaches the caller"); }
    }
    void chk(boom const& e) { sx_assert(e.site == last_site && e.serial == raised, "exception reaches the caller"); }
};
static void outcome(V& v, Snap const& before, int rhs_id, uint32_t rhs_val, bool threw) {
    Snap s = check(v);
    sx_obs(s.id); sx_obs(s.val); sx_obs(threw);
    if (!threw) {
        sx_assert(s.id == rhs_id && s.val == rhs_val, "a successful assignment stores the assigned value");
        return;
    }
    sx_cover("failed");
    if (before.id == rhs_id) {
        sx_cover("failed same-type");
        sx_assert(s.id == before.id, "a failed same-type assignment keeps the type");
        return;
    }
    sx_cover("failed other-type");
    bool kept = same(s, before);
    if (!any_nd<Types>::value) {
        sx_assert(kept, "without a fallback type a failed assignment keeps the previous type and value");
    } else if (kept) {
    } else {
        sx_assert(is_nd((uint32_t)s.id - 1), "after a failed assignment the variant holds its previous value or a fallback type");
        sx_assert(BLANK_AT < 0 || s.id == BLANK_AT + 1, "boost::blank is the preferred fallback");
        sx_assert(s.id == BLANK_AT + 1 || s.val == default_of(s.id), "the fallback value is default-constructed");
        sx_cover("fallback");
    }
}
static void body() {
    Holder<V> ha, hb;
    Pre a = make_pre(ha, "ia", "va", PREFAIL);
    budget = BUDGET; alloc_faults = true; raised = 0;
    uint32_t op = (uint32_t)sx_concretize(sx_below(4, "op"));
    if (op < 2) {
        int sb = budget; budget = 0;
        Pre b = make_pre(hb, "ib", "vb", PREFAIL);
        budget = sb;
        raised = 0;
        bool threw = false;
        try {
#if COPYABLE
            if (op == 0) ha.v() = static_cast<V const&>(hb.v()); else ha.v() = std::move(hb.v());
#else
            sx_assume(op == 1); ha.v() = std::move(hb.v());
#endif
        } catch (boom const& e) { threw = true; sx_assert(e.site == last_site && e.serial == raised, "exception reaches the caller"); }
        catch (std::bad_alloc const&) { threw = true; sx_assert(last_site == -1, "exception reaches the caller"); }
        sx_assert(threw == (raised > 0), "the exception reaches the caller");
        budget = 0;
        outcome(ha.v(), a.s, b.s.id, b.s.val, threw);
        Snap s = check(hb.v());
        if (op == 0) sx_assert(same(s, b.s) && s.addr == b.s.addr, "copy assignment does not modify the source, also when it fails");
        else sx_assert(s.id == b.s.id, "move assignment keeps the source's type");
        hb.v().~V();
    } else {
        DoVal d; d.v = &ha.v(); d.val = sx_u32("val"); d.mv = op == 3; d.threw = false; d.got = 0;
        uint32_t j = sx_below(NT, "j");
        pick<Types>(j, d);
        sx_assert(d.threw == (raised > 0), "the exception reaches the caller");
        budget = 0;
        outcome(ha.v(), a.s, (int)j + 1, (int)j == BLANK_AT ? 0 : d.val, d.threw);
        if (op == 2 && COPYABLE) sx_assert((int)j == BLANK_AT || d.got == d.val, "assigning an lvalue does not modify it, also when it fails");
    }
    ha.v().~V();
}
#endif

// ---------------------------------------------------------------- C04
#if PROP == 4
static void body() {
    Holder<V> ha, hb;
    Pre b = make_pre(hb, "ib", "vb", PREFAIL);
    bool ctor = sx_bool("ctor") != 0;
    uint32_t form = (uint32_t)sx_concretize(sx_below(3, "form"));  // const lvalue, lvalue, const rvalue
    Snap before; before.id = 0; bool inplace = false;
    if (ctor) {
        switch (form) {
            case 0: ::new ((void*)ha.buf) V(static_cast<V const&>(hb.v())); break;
            case 1: ::new ((void*)ha.buf) V(hb.v()); break;
            default: ::new ((void*)ha.buf) V(static_cast<V const&&>(hb.v()));
        }
    } else {
        Pre a = make_pre(ha, "ia", "va", PREFAIL);
        before = a.s; inplace = !a.failed && !b.failed && a.s.id == b.s.id;
        reset_stats();
        V& r = form == 0 ? (ha.v() = static_cast<V const&>(hb.v())) : form == 1 ? (ha.v() = hb.v()) : (ha.v() = static_cast<V const&&>(hb.v()));
        sx_assert(&r == &ha.v(), "assignment returns the assigned variant");
    }
    Stat st = total();
    Snap sa = check(ha.v()), sb = check(hb.v());
    sx_obs(sa.id); sx_obs(sa.val); sx_obs(sb.val);
    sx_assert(sa.id == b.s.id && sa.val == b.s.val, "the copy has the source's type and value");
    sx_assert(same(sb, b.s) && sb.addr == b.s.addr, "copying leaves the source unchanged");
    sx_assert(sa.addr != sb.addr, "copy and source are distinct objects");
    if (inplace) {
        sx_cover("same type");
        if (sa.id != BLANK_AT + 1) {
            sx_assert(sa.addr == before.addr, "same-type copy assignment assigns to the existing object");
            if (!scalar_id(sa.id)) sx_assert(st.casg == 1 && st.copy == 0 && st.move == 0 && st.masg == 0 && st.dtor == 0, "same-type copy assignment is one copy assignment of the content");
        }
    }
    // independent: change one, the other stays
    uint32_t x = sx_u32("x");
    bool which = sx_bool("mutate") != 0;
    mutate(which ? ha.v() : hb.v(), x);
    Snap ta = check(ha.v()), tb = check(hb.v());
    Snap const &changed = which ? ta : tb, &other = which ? tb : ta;
    sx_assert(changed.id == BLANK_AT + 1 || changed.val == x, "the content can be changed in place");
    sx_assert(same(other, which ? sb : sa), "changing one variant does not change its copy");
    if (which) { ha.v().~V(); Snap u = check(hb.v()); sx_assert(same(u, tb), "destroying the copy leaves the source"); hb.v().~V(); }
    else { hb.v().~V(); Snap u = check(ha.v()); sx_assert(same(u, ta), "destroying the source leaves the copy"); ha.v().~V(); }
}
#endif

// ---------------------------------------------------------------- C05
#if PROP == 5
struct MoveIn {
    V* v; void* fresh; uint32_t val; uint32_t got;
    template <class T, int I> void run() {
        T t(Info<T>::make(val));
        reset_stats();
        if (fresh) ::new (fresh) V(std::move(t)); else *v = std::move(t);
        Quiet q; got = Info<T>::val(t);
    }
};
static void body() {
    Holder<V> ha, hb;
    uint32_t op = (uint32_t)sx_concretize(sx_below(4, "op"));
    if (op < 2) {
        Pre b = make_pre(hb, "ib", "vb", PREFAIL);
        Snap before; before.id = 0; bool inplace = false;
        if (op == 0) {
            reset_stats();
            ::new ((void*)ha.buf) V(std::move(hb.v()));
        } else {
            Pre a = make_pre(ha, "ia", "va", PREFAIL);
            before = a.s; inplace = !a.failed && !b.failed && a.s.id == b.s.id;
            reset_stats();
            V& r = (ha.v() = std::move(hb.v()));
            sx_assert(&r == &ha.v(), "assignment returns the assigned variant");
        }
        Stat st = total();
        Snap sa = check(ha.v()), sb = check(hb.v());
        sx_obs(sa.id); sx_obs(sa.val); sx_obs(sb.val); sx_obs(st.copy); sx_obs(st.move);
        sx_assert(sa.id == b.s.id && sa.val == b.s.val, "the destination has the source's former type and value");
        sx_assert(sb.id == b.s.id, "the moved-from variant keeps its type");
        sx_assert(sa.addr != sb.addr, "source and destination do not share content");
        TraitAt t = traits(b.s.id);
        if (t.nmc && (!inplace || t.nma) && !WRAPPED) {
            sx_assert(st.copy == 0 && st.casg == 0, "nothrow-movable content is moved, not copied");
            sx_assert(sb.id == BLANK_AT + 1 || sb.val == moved_val(sb.id), "the content was moved from the source");
            sx_cover("moved");
        }
        if (WRAPPED && t.nmc && t.nma && (op == 0 || inplace)) {
            sx_assert(st.copy == 0 && st.casg == 0, "nothrow-movable content of a wrapper is moved, not copied");
            sx_cover("moved wrapped");
        }
        if (inplace && sa.id != BLANK_AT + 1 && !(WRAPPED && sa.id != 2)) {
            sx_assert(sa.addr == before.addr, "same-type move assignment assigns to the existing object");
            sx_assert(st.dtor == 0 && st.copy == 0 && st.move == 0, "same-type move assignment is one assignment of the content");
        }
        // the moved-from variant can be assigned and used again
        CopyAssignVal f; f.v = &hb.v(); f.val = sx_u32("again");
        uint32_t j = sx_below(NT, "again_j");
        pick<Types>(j, f);
        Snap sc = check(hb.v());
        sx_assert(sc.id == (int)j + 1 && (sc.val == f.val || (int)j == BLANK_AT), "a moved-from variant can be assigned");
        Snap sd = check(ha.v());
        sx_assert(same(sd, sa), "reusing the source does not affect the destination");
        hb.v().~V();
    } else {
        MoveIn m; m.fresh = 0; m.v = 0; m.val = sx_u32("val"); m.got = 0;
        uint32_t j = sx_below(NT, "j");
        Snap before; before.id = 0; bool prefailed = false;
        if (op == 2) { m.fresh = ha.buf; } else { Pre a = make_pre(ha, "ia", "va", PREFAIL); before = a.s; prefailed = a.failed; m.v = &ha.v(); }
        pick<Types>(j, m);
        Stat st = total();
        Snap s = check(ha.v());
        sx_obs(s.id); sx_obs(s.val); sx_obs(st.copy); sx_obs(st.move);
        sx_assert(s.id == (int)j + 1 && ((int)j == BLANK_AT || s.val == m.val), "a moved-in value is stored");
        TraitAt t = traits((int)j + 1);
        if (t.nmc && t.nma && !WRAPPED) {
            sx_assert(st.copy == 0 && st.casg == 0, "a nothrow-movable value moved in is moved, not copied");
            sx_assert((int)j == BLANK_AT || m.got == moved_val((int)j + 1), "the operand was moved from");
            sx_cover("moved in");
        }
        if (WRAPPED && t.nmc && t.nma && (op == 2 || (before.id == (int)j + 1 && !prefailed))) {
            sx_assert(st.copy == 0 && st.casg == 0 && m.got == moved_val((int)j + 1), "a nothrow-movable value moved into a wrapper is moved, not copied");
            sx_cover("moved in wrapped");
        }
    }
    ha.v().~V();
}
#endif

// ---------------------------------------------------------------- C06
#if PROP == 6
static void body() {
    Holder<V> ha, hb;
    Pre a = make_pre(ha, "ia", "va", PREFAIL);
    Pre b = make_pre(hb, "ib", "vb", PREFAIL);
    bool fr = sx_bool("free") != 0;
    budget = BUDGET; alloc_faults = true; raised = 0;
    bool threw = false;
    reset_stats(); own_swaps = 0;
    try { if (fr) swap(ha.v(), hb.v()); else ha.v().swap(hb.v()); }
    catch (boom const& e) { threw = true; sx_assert(e.site == last_site, "exception reaches the caller"); }
    catch (std::bad_alloc const&) { threw = true; sx_assert(last_site == -1, "exception reaches the caller"); }
    budget = 0;
#if FAM == 26
    if (a.s.id == b.s.id) {
        Stat st = total();
        sx_assert(own_swaps == (threw ? 0u : 1u) && st.copy + st.move + st.casg + st.masg == 0, "contents of the same type are exchanged by their own swap");
        sx_assert(!threw || a.s.id == 3, "a swap of contents of the same type fails only if their own swap does");
        if (threw) sx_cover("own swap fails");
    }
#endif
    Snap sa = check(ha.v()), sb = check(hb.v());
    sx_obs(sa.id); sx_obs(sa.val); sx_obs(sb.id); sx_obs(sb.val); sx_obs(threw);
    sx_assert(threw == (raised > 0), "swap fails only if an operation of the contents fails");
    sx_assert(sa.addr != sb.addr, "the variants do not share content");
    if (!threw) {
        sx_assert(same(sa, b.s) && same(sb, a.s), "swap exchanges types and values");
        if (a.s.id == b.s.id) sx_cover("same type"); else sx_cover("different types");
    } else {
        sx_cover("failed");
        // both still usable
        CopyAssignVal f; f.val = 5; f.v = &ha.v(); pick<Types>(0, f);
        f.v = &hb.v(); pick<Types>(NT - 1, f);
        Snap x = check(ha.v()), y = check(hb.v());
        sx_assert(x.id == 1 && y.id == (int)NT, "variants can be assigned after a failed swap");
    }
    ha.v().~V(); hb.v().~V();
}
#endif

// ---------------------------------------------------------------- C07
#if PROP == 7
struct OwnContent : boost::static_visitor<void> {
    V* v; int mode;
    template <class T> void operator()(T& t) const { go(t, std::integral_constant<bool, COPYABLE != 0>()); }
    template <class T> void go(T& t, std::true_type) const { if (mode == 0) *v = static_cast<T const&>(t); else if (mode == 1) *v = t; else *v = std::move(t); }
    template <class T> void go(T& t, std::false_type) const { *v = std::move(t); }
};
static void body() {
    Holder<V> ha;
    Pre a = make_pre(ha, "ia", "va", PREFAIL);
    V &v = ha.v(), &w = ha.v();
    uint32_t op = (uint32_t)sx_concretize(sx_below(7, "op"));
    budget = BUDGET; alloc_faults = true; raised = 0;
    bool threw = false;
    reset_stats();
    try {
        switch (op) {
#if COPYABLE
            case 0: v = static_cast<V const&>(w); break;
            case 1: v = w; break;
#endif
            case 2: v = std::move(w); break;
            case 3: v.swap(w); break;
            case 4: case 5: case 6: {
                OwnContent o; o.v = &v; o.mode = (int)op - 4;
                boost::apply_visitor(o, w);
                break;
            }
            default: sx_assume(0);
        }
    } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
    budget = 0;
    Snap s = check(v);
    sx_obs(op); sx_obs(s.id); sx_obs(s.val); sx_obs(threw);
    sx_assert(threw == (raised > 0), "throws only if an element operation throws");
    sx_assert(s.id == a.s.id, "the variant keeps its type");
    if (!threw) {
        if (op == 3) {
            // swap through a temporary: value preserved
            sx_assert(s.val == a.s.val, "self-swap keeps the value");
        } else sx_assert(s.val == a.s.val, "self-assignment keeps the value");
        if (op != 3) sx_assert(s.addr == a.s.addr, "self-assignment keeps the object");
    }
    ha.v().~V();
}
#endif

// ---------------------------------------------------------------- C21
#if PROP == 21
struct MoveVal { V* v; uint32_t val; bool mv; template <class T, int I> void run() { T t(Info<T>::make(val)); if (mv) *v = std::move(t); else { CopyAssignVal f; f.v = v; f.val = val; f.template run<T, I>(); } } };
// never allocates, by the documented rule: a fallback type, or every type nothrow copyable or movable
template <class L> struct all_nt;
template <> struct all_nt<TL<> > { enum { value = 1 }; };
template <class H, class... T> struct all_nt<TL<H, T...> > { enum { value = (std::is_nothrow_copy_constructible<H>::value || std::is_nothrow_move_constructible<H>::value) && all_nt<TL<T...> >::value }; };
static void placed(V& v) {
    Snap s = check(v);
    SizeOf z; z.size = z.align = 0; pick<Types>((uint32_t)s.id - 1, z);
    bool wrapped = WRAPPED && s.id != 2;
    if (!wrapped) sx_assert(sx_alloc_inside(s.addr, z.size, &v, sizeof(v)), "the content lies inside the variant");
    sx_assert(((uintptr_t)s.addr & (z.align - 1)) == 0, "the content is aligned for its type");
}
static void body() {
    Holder<V> ha, hb;
    unsigned nwrap = WRAPPED;
    Pre a = make_pre(ha, "ia", "va", false), b = make_pre(hb, "ib", "vb", false);
    placed(ha.v()); placed(hb.v());
    uint64_t heap0 = sx_heap_live();
    if (!nwrap) sx_assert(heap0 == 0 && news == 0, "construction does not allocate");
    sx_assert(alignof(V) >= alignof(TypeAt<0>::type), "the variant is aligned for its content");
    uint32_t op = (uint32_t)sx_concretize(sx_below(7, "op"));
    budget = BUDGET; alloc_faults = true;
    news = 0;
    bool threw = false;
    try {
        switch (op) {
#if COPYABLE
            case 0: ha.v() = static_cast<V const&>(hb.v()); break;
            case 1: { V t(static_cast<V const&>(ha.v())); placed(t); break; }
#endif
            case 2: ha.v() = std::move(hb.v()); break;
            case 3: { V t(std::move(ha.v())); placed(t); break; }
            case 4: ha.v().swap(hb.v()); break;
            case 5: case 6: { MoveVal m; m.v = &ha.v(); m.val = sx_u32("val"); m.mv = op == 6; pick<Types>(sx_below(NT, "j"), m); break; }
            default: sx_assume(0);
        }
    } catch (boom const&) { threw = true; } catch (std::bad_alloc const&) { threw = true; }
    budget = 0;
    sx_obs(op); sx_obs(threw);
    if (!threw) {
        placed(ha.v()); placed(hb.v());
        if (!nwrap) sx_assert(sx_heap_live() == 0, "no heap memory is kept after a successful operation");
    } else sx_cover("failed");
    if (!nwrap && (any_nd<Types>::value || all_nt<Types>::value)) {
        sx_assert(news == 0 && sx_heap_live() == 0, "a variant with a fallback type or nothrow content never allocates");
        if (threw) { placed(ha.v()); placed(hb.v()); }
    }
    if (!nwrap && (op == 1 || op == 3)) sx_assert(news == 0, "copy and move construction do not allocate");
    check(ha.v()); check(hb.v());
    ha.v().~V(); hb.v().~V();
}
#endif

extern "C" void sx_main() {
    body();
    finish();
}
