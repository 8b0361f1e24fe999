// C07: assigning to a variant a part of the content it currently holds.
#define SX_DEFINE
#include "sx.h"
#include <boost/variant.hpp>
using namespace sx;
#ifndef ELF
#define ELF 0
#endif
#ifndef OUTF
#define OUTF 0
#endif
typedef N<2, ELF> In;
struct Part { uint32_t raw; Part(uint32_t v) : raw(v) {} ~Part() { raw = 0xBAD; } };
struct Via : N<3, ELF> {  // constructible from a Part
    Via(Part const& p) : N<3, ELF>(val_t(p.raw)) { maybe_throw(3 * 8 + K_CONV); }
};
struct Out {  // a content with parts
    In in; Part part; uint32_t val;
    explicit Out(uint32_t v) : in(val_t(v)), part(v + 1), val(v) {}
    Out(Out const& o) noexcept((OUTF & CN) != 0) : in(o.in), part(o.part), val(o.val) {}
#if OUTF & MN
    Out(Out&& o) noexcept : in(std::move(o.in)), part(o.part), val(o.val) {}
    Out& operator=(Out&& o) { in = std::move(o.in); part = o.part; val = o.val; return *this; }
#endif
    Out& operator=(Out const& o) { in = o.in; part = o.part; val = o.val; return *this; }
};
#if KIND == 0
typedef boost::variant<Out, In, Via> V;
#elif KIND == 1
typedef boost::variant<boost::recursive_wrapper<Out>, In, Via> V;
#elif KIND == 2
typedef boost::variant<Out, boost::recursive_wrapper<In>, Via> V;
#elif KIND == 3
typedef boost::variant<Out, In, Via, boost::blank> V;
#elif KIND == 4
typedef boost::variant<Out, In, Via, E<4, DN> > V;
#endif
struct Look : boost::static_visitor<int> {
    uint32_t* val; explicit Look(uint32_t* p) : val(p) {}
    int operator()(Out const& o) const { o.in.use(); *val = o.val; return 0; }
    int operator()(In const& o) const { o.use(); *val = o.val; return 1; }
    int operator()(Via const& o) const { o.use(); *val = o.val; return 2; }
    template <class T> int operator()(T const&) const { *val = 0; return 3; }
};
static int look(V const& v, uint32_t* x) { Quiet q; int k = boost::apply_visitor(Look(x), v); sx_assert(k == v.which(), "which() names the type of the live content"); return k; }

extern "C" void sx_main() {
    uint32_t x = sx_u32("x"), y = 0;
    {
        Quiet* q = new Quiet;
        V* v = new V(Out(x));
        delete q;
        if (sx_bool("pre_failed")) {  // a failed assignment first
            V t(*v); { Quiet q2; In i(val_t(5)); t = static_cast<In const&>(i); }
            budget = 1; bool th = false;
            try { *v = static_cast<V const&>(t); } catch (boom const&) { th = true; }
            budget = 0;
            sx_assume(th && v->which() == 0);
            sx_cover("state after a failed assignment");
        }
        Out& o = boost::get<Out>(*v);
        uint32_t op = (uint32_t)sx_concretize(sx_below(5, "op"));
        budget = 1; alloc_faults = true; raised = 0;
        bool threw = false;
        try {
            switch (op) {
                case 0: *v = static_cast<In const&>(o.in); break;
                case 1: *v = o.in; break;
                case 2: *v = std::move(o.in); break;
                case 3: *v = static_cast<Part const&>(o.part); break;
                default: *v = o.part; break;
            }
        } catch (boom const& e) { threw = true; same_exception(e); } catch (std::bad_alloc const&) { threw = true; sx_assert(last_site == -1, "exception reaches the caller"); }
        budget = 0;
        sx_assert(threw == (raised > 0), "throws exactly when the contents do");
        int k = look(*v, &y);
        sx_obs(op); sx_obs(threw); sx_obs(k); sx_obs(y);
        if (!threw) {
            if (op < 3) sx_assert(k == 1 && y == x, "the part assigned is what the variant holds");
            else sx_assert(k == 2 && y == x + 1, "the conversion of the part is what the variant holds");
            sx_cover("assigned");
        } else {
            sx_assert((k == 0 && y == x) || k == 3, "a failed assignment leaves the old value or a fallback");
            sx_cover("failed");
        }
        ++quiet; delete v; --quiet;
    }
    sx_assert(sx_reg_count() == 0, "every object was destroyed");
    sx_cover("end");
}
