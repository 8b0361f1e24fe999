// C01 C02 C15 C25: any bounded history of operations on two variants with faults.
#define SX_DEFINE
#include "fam.h"
#ifndef STEPS
#define STEPS 2
#endif
#ifndef BUDGET
#define BUDGET 1
#endif

enum { OP_CASG, OP_MASG, OP_SWAP, OP_VCASG, OP_VMASG, OP_CCTOR, OP_MCTOR, OP_VCTOR, OP_SELF, NOPS };

struct AssignConst { V* v; uint32_t val; template <class T, int I> void run() {
#if COPYABLE
    T t(Info<T>::make(val)); const T& r = t; *v = r;
#else
    sx_assume(0);
#endif
} };
struct AssignMove { V* v; uint32_t val; template <class T, int I> void run() { T t(Info<T>::make(val)); *v = std::move(t); } };
struct CtorConst { uint32_t val; template <class T, int I> void run() {
#if COPYABLE
    T t(Info<T>::make(val)); const T& r = t; V tmp(r); check(tmp);
#else
    T t(Info<T>::make(val)); V tmp(std::move(t)); check(tmp);
#endif
} };

static void one_op(uint32_t op, V& a, V& b, uint32_t j, uint32_t val) {
    switch (op) {
#if COPYABLE
        case OP_CASG: a = static_cast<V const&>(b); break;
        case OP_CCTOR: { V t(static_cast<V const&>(a)); check(t); break; }
#endif
        case OP_MASG: a = std::move(b); break;
        case OP_SWAP: a.swap(b); break;
        case OP_VCASG: { AssignConst f; f.v = &a; f.val = val; pick<Types>(j, f); break; }
        case OP_VMASG: { AssignMove f; f.v = &a; f.val = val; pick<Types>(j, f); break; }
        case OP_MCTOR: { V t(std::move(a)); check(t); b = std::move(t); break; }
        case OP_VCTOR: { CtorConst f; f.val = val; pick<Types>(j, f); break; }
        case OP_SELF: { V& r = a;
#if COPYABLE
            a = static_cast<V const&>(r);
#else
            a = std::move(r);
#endif
            break; }
        default: sx_assume(0);
    }
}

extern "C" void sx_main() {
    budget = BUDGET; alloc_faults = true;
    {
        Holder<V> ha, hb;
        uint32_t ia = sx_below(NT, "ia"), va = sx_u32("va");
        uint32_t ib = sx_below(NT, "ib"), vb = sx_u32("vb");
        build(ha, ia, va); build(hb, ib, vb);
        check(ha.v()); check(hb.v());
        for (int k = 0; k < STEPS; ++k) {
            uint32_t op = (uint32_t)sx_concretize(sx_below(NOPS, "op"));
            uint32_t j = 0, val = 0;
            if (op == OP_VCASG || op == OP_VMASG || op == OP_VCTOR) { j = sx_below(NT, "j"); val = sx_u32("val"); }
            // the first step needs no flip: the starting states are independent
            bool flip = k > 0 && (op == OP_CASG || op == OP_MASG || op == OP_SWAP || op == OP_MCTOR) && sx_bool("flip");
            unsigned r0 = raised;
            bool threw = false;
            try { one_op(op, flip ? hb.v() : ha.v(), flip ? ha.v() : hb.v(), j, val); }
            catch (boom const& e) {
                threw = true;
                sx_assert(raised > r0, "an exception reaches the caller only if one was raised");
                same_exception(e);
            }
            catch (std::bad_alloc const&) {
                threw = true;
                sx_assert(raised > r0 && last_site == -1, "bad_alloc reaches the caller only if an allocation failed");
            }
            sx_assert(threw == (raised > r0), "an operation throws exactly when something it invoked threw");
            Snap a = check(ha.v()), b = check(hb.v());
            sx_obs(op); sx_obs(threw); sx_obs(a.id); sx_obs(a.val); sx_obs(b.id); sx_obs(b.val);
            if (threw) sx_cover("failed operation");
            if (sx_heap_live()) sx_cover("content on the heap");
        }
        // every state can be destroyed normally
        ha.v().~V(); hb.v().~V();
    }
    sx_assert(sx_reg_count() == 0, "every contained object was destroyed");
    sx_cover("end");
}
