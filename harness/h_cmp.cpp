// C13 C14: comparison and hashing.
#define SX_DEFINE
#include <cstdint>
#include <cstddef>
#if PROP == 13
// the contents' == and < are arbitrary relations on {0..3}: bit tables chosen by the solver
static uint32_t eq_table, lt_table;
#define SX_EQ(a, b) (((eq_table >> (((a).val & 3) * 4 + ((b).val & 3))) & 1) != 0)
#define SX_LT(a, b) (((lt_table >> (((a).val & 3) * 4 + ((b).val & 3))) & 1) != 0)
#else
// content hash: a base plus HBITS symbolic bits (what it is must not matter)
#ifndef HBITS
#define HBITS 8
#endif
static uint64_t hash_base;
#define SX_HASH(a) ((std::size_t)(hash_base + ((a).val & ((1u << HBITS) - 1))))
#endif
#include "pre.h"
#include <boost/functional/hash.hpp>
#if PROP == 14
static int hasher_runs;
#endif

static bool same(Snap const& x, Snap const& y) { return x.id == y.id && x.val == y.val && x.addr == y.addr; }

#if PROP == 13
extern "C" void sx_main() {
    Holder<V> ha, hb;
    eq_table = sx_u32("eq_table"); lt_table = sx_u32("lt_table");
    uint32_t which_op = (uint32_t)sx_concretize(sx_below(6, "op"));
    bool self = sx_bool("self") != 0;
    Pre a = make_pre(ha, "ia", "va", true), b = a;
    if (!self) b = make_pre(hb, "ib", "vb", true);
    V const& x = ha.v(); V const& y = self ? ha.v() : hb.v();
    reset_stats(); news = 0; raised = 0;
    bool same_type = a.s.id == b.s.id, blank = a.s.id == BLANK_AT + 1;
    bool eq = false, lt = false, gt = false;
    if (same_type) {
        uint32_t k = (a.s.val & 3) * 4 + (b.s.val & 3), l = (b.s.val & 3) * 4 + (a.s.val & 3);
        eq = blank || ((eq_table >> k) & 1) != 0;
        lt = !blank && ((lt_table >> k) & 1) != 0;
        gt = !blank && ((lt_table >> l) & 1) != 0;
        if (scalar_id(a.s.id)) { eq = a.s.val == b.s.val; lt = a.s.val < b.s.val; gt = a.s.val > b.s.val; }
    } else { lt = a.s.id < b.s.id; gt = a.s.id > b.s.id; }
    bool r = false, want = false;
    budget = 1; op_faults = true; alloc_faults = true;
    bool threw = false;
    try {
        switch (which_op) {
            case 0: want = eq; r = x == y; break;
            case 1: want = !eq; r = x != y; break;
            case 2: want = lt; r = x < y; break;
            case 3: want = gt; r = x > y; break;
            case 4: want = !gt; r = x <= y; break;
            default: want = !lt; r = x >= y; break;
        }
    } catch (boom const& e) { threw = true; sx_assert(e.site == last_site, "the content's exception is what reaches the caller"); sx_cover("comparison throws"); }
    budget = 0; op_faults = false;
    sx_obs(which_op); sx_obs(r); sx_obs(threw);
    sx_assert(threw == (raised > 0), "comparison throws exactly when the contents' does");
    if (!threw) sx_assert(r == want, "comparison is by index, then by content");
    if (same_type) sx_cover("same type"); else sx_cover("different types");
    Stat t = total();
    sx_assert(t.copy + t.move + t.casg + t.masg + t.def + t.dtor == 0 && news == 0, "comparison copies nothing");
    if (!same_type) sx_assert(t.cmp == 0, "contents of different types are not compared");
    Snap sa = check(ha.v());
    sx_assert(same(sa, a.s), "comparison does not modify its operands");
    if (!self) { Snap sb = check(hb.v()); sx_assert(same(sb, b.s), "comparison does not modify its operands"); hb.v().~V(); }
    ha.v().~V();
    finish();
}
#elif defined(HDEP)
// the hash depends on the content: not every content hash gives the same hash
extern "C" void sx_main() {
    Holder<V> ha;
    static const uint64_t bases[] = {0, 0xFFFFFFFFFFFFFF00ull, 0x61C8864680B58400ull};
    hash_base = bases[sx_concretize(sx_below(3, "hash_base"))];
    Pre a = make_pre(ha, "ia", "va", true);
    if (a.s.id != BLANK_AT + 1) {
        std::size_t h[4];
        for (uint32_t k = 0; k < 4; ++k) { mutate(ha.v(), k); h[k] = hash_value(static_cast<V const&>(ha.v())); }
        sx_assert(!(h[0] == h[1] && h[1] == h[2] && h[2] == h[3]), "the hash depends on the hash of the content");
        sx_cover("hashed");
    }
    ha.v().~V();
    finish();
}
#else
extern "C" void sx_main() {
    Holder<V> ha, hb;
    static const uint64_t bases[] = {0, 0xFFFFFFFFFFFFFF00ull, 0x61C8864680B58400ull};
    uint32_t bsel = (uint32_t)sx_concretize(sx_below(3, "hash_base"));
    hash_base = bases[bsel];
    // same content hash, otherwise unrelated values
    uint32_t lo = sx_u32("lo") & ((1u << HBITS) - 1), ra = sx_u32("ra") << HBITS, rb = sx_u32("rb") << HBITS;
    Pre a = make_pre_val(ha, "ia", lo | ra, true), b = make_pre_val(hb, "ib", lo | rb, true);
    bool keep = !a.failed && !b.failed;  // a fallback value has another hash
    if (!keep) keep = a.s.val == (lo | ra) && b.s.val == (lo | rb);
    reset_stats(); news = 0;
    V const& x = ha.v(); V const& y = hb.v();
    // hashing may throw: nothing changes
    if (sx_bool("may_throw")) {
        budget = 1; op_faults = true; raised = 0;
        bool threw = false;
        try { boost::hash<V>()(x); } catch (boom const&) { threw = true; sx_cover("hash throws"); }
        budget = 0; op_faults = false;
        sx_assert(threw == (raised > 0), "hashing throws exactly when the content's hash does");
    } else {
        std::size_t h1 = hash_value(x), h2 = boost::hash<V>()(x), h3 = std::hash<V>()(x);
        sx_assert(h1 == h2 && h2 == h3, "hash_value, boost::hash and std::hash agree");
        std::size_t g = hash_value(y);
        bool blank_a = a.s.id == BLANK_AT + 1, blank_b = b.s.id == BLANK_AT + 1;
        if (!blank_a && !blank_b && keep) {
            if (a.s.id == b.s.id) { sx_assert(h1 == g, "equal index and content hash give an equal hash, whatever the history"); sx_cover("equal"); }
            else { sx_assert(h1 != g, "equal content hashes under different indexes hash differently"); sx_cover("different index"); }
        }
        if (keep && a.s.id == b.s.id && ra == rb) sx_assert(x == y, "equal");
    }
    sx_obs(a.s.id); sx_obs(b.s.id);
    Stat t = total();
    sx_assert(t.copy + t.move + t.casg + t.masg + t.def + t.dtor == 0 && news == 0, "hashing copies nothing");
    Snap sa = check(ha.v()), sb = check(hb.v());
    sx_assert(same(sa, a.s) && same(sb, b.s), "hashing does not modify the variant");
    ha.v().~V(); hb.v().~V();
    finish();
}
#endif
