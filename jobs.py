"""Which harness instances decide which property, and within what bounds."""


def job(h, D=None, std="c++14", covers=None, fix=None, leak=True, flags=None, **kw):
    j = {"h": h, "D": dict(D or {}), "std": std, "covers": covers or ["end"], "leak": leak}
    if fix:
        j["fix"] = fix
    if flags:
        j["flags"] = flags
    j.update(kw)
    return j


def hist(fam, steps=2, budget=1, **kw):
    return job("h_hist.cpp", {"FAM": fam, "STEPS": steps, "BUDGET": budget}, **kw)


PROPS = {}
BOUNDS = {}
ASSUME = {}
COMMON = [
    "LLVM IR of clang 18 at -O0 for x86-64 stands for the source; the engine's IR semantics (validated by replaying sampled paths natively)",
    "Z3 4.8.12 is sound on QF_BV (assertion queries re-decided by cvc5 in the thorough tier)",
    "contained types have non-throwing destructors, as the library requires",
    "single thread",
]


EXTRA = {}  # further jobs of the thorough tier


def jobs(pid, tier):
    return PROPS[pid](tier) + (EXTRA[pid]() if tier == "thorough" and pid in EXTRA else [])


def bounds(pid, tier):
    b = BOUNDS.get(pid, "")
    return b(tier) if callable(b) else b


def assumptions(pid):
    return COMMON + ASSUME.get(pid, [])


PROPS["C01"] = lambda t: [hist(f, budget=2, covers=["end"] + ([] if f in (1, 14, 22) else ["failed operation"])) for f in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25)]


def op(prop, fams, budget, **kw):
    return [job("h_op.cpp", {"PROP": prop, "FAM": f, "BUDGET": budget}, **kw) for f in fams]


PROPS["C03"] = lambda t: op(3, (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 19, 20, 21, 23, 24, 25), 1)
PROPS["C04"] = lambda t: op(4, (1, 2, 3, 4, 5, 6, 8, 9, 10, 13, 19, 20, 21, 22, 23, 24, 25), 0)
PROPS["C05"] = lambda t: op(5, (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 19, 20, 21, 22, 23, 24, 25), 0)
PROPS["C06"] = lambda t: op(6, (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 19, 20, 21, 22, 23, 24, 25), 1) + op(6, (26,), 1, covers=["end", "same type", "different types", "failed", "own swap fails"])
PROPS["C07"] = lambda t: op(7, (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 19, 20, 21, 22, 23, 24, 25), 1) + [job("h_own.cpp", {"KIND": k, "ELF": e, "OUTF": o}, covers=["end", "assigned", "failed"]) for k in range(5) for e, o in ((0, 0), (2, 0), (31, 2), (31, 6), (20, 4))]
PROPS["C21"] = lambda t: op(21, (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 16, 17, 19, 20, 21, 22, 23, 24, 25), 1)
PROPS["C08"] = lambda t: [job("h_get.cpp", {"PROP": 8, "FAM": f}, covers=["end", "hit", "miss"]) for f in (1, 2, 3, 6, 7, 10, 13, 14, 19, 20, 21, 22, 23, 24)] + [job("h_get.cpp", {"PROP": 8, "HIER": 1}, covers=["end", "hit", "miss", "const alternative"])] + [job("h_get.cpp", {"PROP": 8, "FAM": 2, "BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT": None}, covers=["end", "hit", "miss"])]
PROPS["C09"] = lambda t: [job("h_get.cpp", {"PROP": 9}, covers=["end", "hit", "miss", "const alternative"])] + [job("h_get.cpp", {"PROP": 9, "BACKUP": None, "ELF": e}, std=sd, covers=["end", "hit", "miss", "reference"] + (["in a backup"] if e == 0 else [])) for e, sd in ((0, "c++14"), (4, "c++11"), (0, "c++17"))]
def visit(prop, **D):
    kw = {k: D.pop(k) for k in ("std", "covers", "fix") if k in D}
    d = {"PROP": prop, "PREK": 0}
    d.update(D)
    return job("h_visit.cpp", d, **kw)


VT = ["end", "visitor throws"]
def vres(n, order, result, std="c++14"):
    return job("h_vres.cpp", {"NARGS": n, "ORDER": order, "RESULT": result}, std=std, covers=["end"])


PROPS["C10"] = lambda t: [visit(10, FAM=f, covers=VT) for f in (1, 2, 3, 6, 7, 10, 13, 14, 20, 22, 23, 24)] + [visit(10, FAM=2, std="c++11", covers=VT), visit(10, FAM=10, std="c++17", covers=VT)] + [vres(1, o, r) for o in (0, 1, 2) for r in range(4)] + [vres(1, 2, 0, "c++17"), vres(1, 1, 2, "c++20")]
PROPS["C11"] = lambda t: [visit(11, NV=2, FAM=f, covers=VT) for f in (2, 3, 10)] + [visit(11, NV=3, FAM=18, FORM=k, covers=VT) for k in range(4)] + [visit(11, NV=3, FAM=18, FORM=k, std="c++11", covers=VT) for k in range(2)] + [ visit(11, NV=4, FAM=18, ONLY_L=None, PREK=3, covers=VT), visit(11, NV=5, FAM=18, ONLY_L=None, covers=VT)] + [vres(2, o, r) for o in (0, 2) for r in range(4)] + [vres(3, 3, r) for r in range(4)] + [vres(2, 2, 0, "c++17"), vres(3, 3, 2, "c++20")]
PROPS["C12"] = lambda t: [visit(12, NV=1, FAM=f, covers=VT) for f in (2, 3, 10, 7)] + [visit(12, NV=2, FAM=2, covers=VT), visit(12, NV=3, FAM=18, ONLY_L=None, covers=VT)] + [visit(12, PTRS=1, FAM=f, covers=["end", "ptr hit", "ptr miss"]) for f in (1, 2, 3, 6, 7, 10, 22, 23, 24)] + [vres(1, 0, 0), vres(1, 1, 1), vres(1, 2, 2, "c++17")]
PROPS["C13"] = lambda t: [job("h_cmp.cpp", {"PROP": 13, "FAM": f}, covers=["end", "same type", "different types"] + ([] if f == 22 else ["comparison throws"])) for f in (1, 2, 3, 6, 7, 10, 13, 21, 22, 23, 24)]
PROPS["C14"] = lambda t: [job("h_cmp.cpp", {"PROP": 14, "FAM": f}, covers=["end", "equal", "different index", "hash throws"]) for f in (1, 2, 4, 6, 7, 10)] + [job("h_cmp.cpp", {"PROP": 14, "HDEP": None, "FAM": f}, covers=["end", "hashed"]) for f in (1, 2, 4, 6, 10)] + [job("h_many.cpp", {"KIND": k, "HASHES": h, "NOTHROW": None}) for k, h in ((8, 7), (2, 0), (7, 1))]
def conv(prop, f, budget, D={}, **kw):
    return job("h_conv.cpp", dict({"PROP": prop, "ELF": f, "BUDGET": budget}, **D), **kw)


CV16 = ["end", "in place"]
CV17 = ["end", "failed"]
PROPS["C16"] = lambda t: [conv(16, 0, 1, covers=CV16 + ["failed"]), conv(16, 4 + 16, 1, covers=CV16 + ["failed"]), conv(16, 31, 1, std="c++11", covers=CV16), conv(16, 31, 1, std="c++17", covers=CV16)] + [job("h_conv2.cpp", {"LIST": l, "ELF": e, "BUDGET": 1}, std=sd, covers=CV16 + (["failed"] if e == 0 and l not in (3, 4, 10) else [])) for l, e, sd in ((1, 0, "c++14"), (1, 31, "c++11"), (2, 0, "c++14"), (2, 4 + 16, "c++17"), (3, 0, "c++14"), (3, 0, "c++11"), (4, 0, "c++14"), (4, 0, "c++20"), (5, 0, "c++14"), (5, 0, "c++17"), (6, 0, "c++14"), (6, 0, "c++11"), (7, 0, "c++14"), (7, 4, "c++20"), (8, 0, "c++14"), (8, 4, "c++11"), (9, 4, "c++14"), (9, 31, "c++20"), (10, 0, "c++14"))]
PROPS["C17"] = lambda t: [conv(17, 0, 1, covers=CV17 + ["source in a heap backup"]), conv(17, 4 + 16, 1, covers=CV17), conv(17, 0, 1, {"WRAPSRC": None}, covers=CV17), conv(17, 0, 0, std="c++11"), conv(17, 0, 0, std="c++17")] + [conv(17, e, 1, {"MOVEONLY": None}, std=sd, covers=["end", "move-only"]) for e, sd in ((0, "c++14"), (20, "c++17"))]
def rec(kind, elf, budget=1, D={}, **kw):
    return job("h_rec.cpp", dict({"KIND": kind, "ELF": elf, "BUDGET": budget}, **D), **kw)


RC = ["end", "done", "failed"]
PROPS["C18"] = lambda t: [rec(k, e, covers=RC) for k in (0, 1) for e in (0, 1)] + [rec(0, 31, covers=RC), rec(0, 0, D={"NO_IMPLICIT": None}, covers=RC), rec(0, 0, D={"WRAPPER": None}, covers=["end", "failed"]), rec(0, 31, D={"WRAPPER": None}, covers=["end", "failed"])]


def exc(fam, budget=1, D={}, **kw):
    return job("h_exc.cpp", dict({"FAM": fam, "BUDGET": budget}, **D), **kw)


FO = ["end", "failed operation"]
PROPS["C02"] = lambda t: [hist(f, budget=2, covers=FO) for f in (2, 3, 6, 7, 9, 10, 13, 16, 19, 20, 21, 23, 24)] + [rec(0, 0, covers=RC), conv(17, 0, 1, covers=CV17)] + hist3(18)
PROPS["C15"] = lambda t: [job("h_hist.cpp", {"FAM": f, "STEPS": 2, "BUDGET": 2, "CHECK_TYPE": None}, covers=["end"] + ([] if f in (1, 14) else ["failed operation"])) for f in (1, 2, 3, 4, 7, 8, 10, 11, 14, 16, 21)] + [job("h_type.cpp", {}, std=sd, covers=["end"]) for sd in ("c++11", "c++14", "c++20")]
PROPS["C25"] = lambda t: [exc(f, covers=["end", "failed"] + ([] if f == 16 else ["bad_get"])) for f in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 20, 21, 22, 23, 24)] + [exc(12, D={"DEFAULTABLE": None}, covers=["end", "failed"]), hist(4, covers=FO), hist(18, covers=FO)]


def ref(kind, D={}, **kw):
    return job("h_ref.cpp", dict({"KIND": kind}, **D), covers=["end", "reference"] + ([] if kind == 0 else ["failed"]), **kw)


PROPS["C19"] = lambda t: [ref(k) for k in (0, 1, 2, 3)] + [ref(1, std="c++11"), ref(2, std="c++17"), ref(3, std="c++20")]


def noexc(shape, lo=0, hi=32, **kw):
    return job("h_noexc.cpp", {"SHAPE": shape, "LO": lo, "HI": hi}, **kw)


PROPS["C20"] = lambda t: [noexc(s, lo, lo + 8, covers=["end", "failed"]) for s in (0, 1, 2, 3, 4, 5, 6, 7) for lo in (0, 8, 16, 24)]


def many(kind, D={}, **kw):
    kw.setdefault("covers", ["end", "done", "failed"])
    return job("h_many.cpp", dict({"KIND": kind}, **D), **kw)


PROPS["C22"] = lambda t: [many(5, {"BIGLIST": 30})] + [many(k) for k in (2, 0, 1, 7, 4, 3, 6)] + [many(0, {"NOTHROW": None}, covers=["end"]), many(8, {"NOTHROW": None, "FEW_J": None}, covers=["end", "done"])] + [many(k, {"BOOST_VARIANT_VISITATION_UNROLLING_LIMIT": u}) for k, u in ((3, 1), (4, 2), (3, 2), (7, 4))]


def io(fam, D={}, **kw):
    kw.setdefault("covers", ["end", "failed"])
    return job("h_io.cpp", dict({"FAM": fam}, **D), **kw)


PROPS["C23"] = lambda t: [io(f) for f in (1, 2, 3, 4, 6, 7, 9, 10, 11, 13)] + [io(2, {"WIDE": None}), io(6, std="c++11"), io(10, std="c++17")]


def pair(j, a, b, extra=None):
    j = dict(j)
    j["pair"] = [a, b]
    j["covers"] = list(j["covers"]) + ["pair end"]
    return j


def cfg(std=None, flags=None, **D):
    c = {"D": D}
    if std:
        c["std"] = std
    if flags:
        c["flags"] = flags
    return c


CONFIGS = {
    "min": cfg(BOOST_VARIANT_MINIMIZE_SIZE=None),
    "u1": cfg(BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=1),
    "u7": cfg(BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=7),
    "ndebug": cfg(NDEBUG=None),
    "nortti": cfg(flags=["-fno-rtti"]),
    "relax": cfg(BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT=None),
    "c++11": cfg(std="c++11"),
    "c++17": cfg(std="c++17"),
    "c++20": cfg(std="c++20"),
    "all": cfg(std="c++17", flags=["-fno-rtti"], BOOST_VARIANT_MINIMIZE_SIZE=None, BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=2, NDEBUG=None, BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT=None),
}


def htype(fam, steps=1):
    return job("h_hist.cpp", {"FAM": fam, "STEPS": steps, "BUDGET": 1, "CHECK_TYPE": None}, covers=["end"])


def c24(t):
    out = []
    base = cfg()
    for name, c in CONFIGS.items():
        js = [hist(18, covers=FO), htype(2 if t == "quick" else 6), op(3, (7,), 1)[0], conv(17, 0, 1, covers=CV17)]
        if name in ("min", "u1", "u7", "all"):
            js += [many(7 if name == "u7" else 3), rec(0, 0, covers=RC)]
        if name.startswith("c++"):
            js += [visit(11, NV=2, FAM=18, covers=VT), op(5, (7,), 0)[0], visit(12, NV=1, FAM=2, covers=VT)]
        if name == "relax":
            js += [job("h_get.cpp", {"PROP": 8, "FAM": 2}, covers=["end", "hit", "miss"]), job("h_get.cpp", {"PROP": 9}, covers=["end", "hit", "miss"])]
        out += [pair(j, base, c) for j in js]
    return out


PROPS["C24"] = c24

PROPS["C26"] = lambda t: [job("h_subst.cpp", {"KIND": k, "ELF": e, "BUDGET": 1}, std=sd, covers=["end", "failed", "plain", "owned"]) for k, e, sd in ((0, 0, "c++14"), (1, 0, "c++14"), (2, 4, "c++14"), (0, 31, "c++17"), (0, 4, "c++11"), (1, 30, "c++20"))]
PROPS["C27"] = lambda t: [job("h_ro.cpp", {"FAM": f}) for f in (2, 10, 1, 3, 4, 6, 13, 20, 21, 22, 23, 24, 25)] + [job("h_ro.cpp", {"FAM": 6}, std="c++11"), job("h_ro.cpp", {"FAM": 6}, std="c++17"), job("h_ro.cpp", {"FAM": 4, "BOOST_VARIANT_MINIMIZE_SIZE": None}, std="c++17")]


# ---- thorough tier: three operations, more faults, other standards, deeper trees ----
def hist3(fam, **D):
    """histories of three operations and two faults, one shard per first operation"""
    return [job("h_hist.cpp", dict({"FAM": fam, "STEPS": 3, "BUDGET": 2}, **D), fix=[("op", k)], time=3000) for k in range(9)]


def again(pid, pick=lambda j: True, **chg):
    """the quick jobs of a property with other definitions or another standard"""
    out = []
    for j in PROPS[pid]("quick"):
        if not pick(j):
            continue
        k = dict(j); k["D"] = dict(j["D"]); k["time"] = 1500
        for n, v in chg.items():
            if n == "std":
                k["std"] = v
            else:
                k["D"][n] = v
        k["covers"] = ["end"]
        out.append(k)
    return out


def is14(j):
    return j["std"] == "c++14"


EXTRA["C01"] = lambda: hist3(18) + hist3(3) + hist3(21) + again("C01", std="c++17")
EXTRA["C02"] = lambda: hist3(13) + hist3(21) + [rec(0, 0, 2, time=1500), conv(17, 0, 2, time=1500)]
EXTRA["C15"] = lambda: hist3(18, CHECK_TYPE=None)
for _p in ("C03", "C06", "C07"):
    EXTRA[_p] = lambda p=_p: again(p, lambda j: "BUDGET" in j["D"], BUDGET=2) + again(p, std="c++20")
for _p in ("C04", "C05", "C08", "C13", "C21"):
    EXTRA[_p] = lambda p=_p: again(p, std="c++17") + again(p, std="c++11") + again(p, BOOST_VARIANT_MINIMIZE_SIZE=None)
for _p in ("C09", "C10", "C12", "C20", "C23", "C27"):
    EXTRA[_p] = lambda p=_p: again(p, is14, std="c++17") + again(p, is14, std="c++20")
EXTRA["C11"] = lambda: again("C11", lambda j: is14(j) and j["D"].get("NV", 3) < 4, std="c++17")
EXTRA["C14"] = lambda: again("C14", std="c++17") + again("C14", lambda j: j["h"] == "h_cmp.cpp" and "HDEP" not in j["D"], HBITS=12)
EXTRA["C16"] = lambda: again("C16", is14, BUDGET=2) + again("C16", is14, std="c++20")
EXTRA["C17"] = lambda: again("C17", is14, BUDGET=2) + again("C17", is14, std="c++20")
EXTRA["C18"] = lambda: again("C18", lambda j: "WRAPPER" not in j["D"], BUDGET=2) + again("C18", std="c++17")
EXTRA["C19"] = lambda: again("C19", is14, std="c++17") + again("C19", is14, BOOST_VARIANT_MINIMIZE_SIZE=None)
EXTRA["C22"] = lambda: again("C22", std="c++17") + [many(k, {"BOOST_VARIANT_VISITATION_UNROLLING_LIMIT": u}, time=1500) for k in (2, 7) for u in (1, 3, 5)]
EXTRA["C25"] = lambda: again("C25", lambda j: j["h"] == "h_exc.cpp", BUDGET=2) + again("C25", std="c++17")
EXTRA["C26"] = lambda: again("C26", lambda j: j["D"]["ELF"] != 31, BUDGET=2)


PRE = "every alternative and 32-bit content value of every operand, optionally after a failed assignment (so also contents in a heap backup and fallback values)"
BOUNDS.update({
    "C01": "2 variants, every starting alternative and value, every sequence of 2 operations out of 9 kinds, up to 2 faults at any fault points (element operation or allocation), 24 families of bounded types (1-4 alternatives)",
    "C02": "as C01 (13 families), histories of 3 operations with 2 faults for a family of 2 alternatives, plus every single operation on trees of depth 2 and every variant-to-variant conversion with 1 fault; live objects, heap blocks, overlap and initialisation tracked for every access",
    "C03": PRE + "; one copy/move assignment of a variant or value, or a converting assignment, with 1 fault at every point; 19 families",
    "C04": PRE + "; one copy construction/assignment from a const or non-const lvalue or a const rvalue; 17 families; values of the original and the copy changed afterwards",
    "C05": PRE + "; one move construction/assignment of a variant or value; 20 families",
    "C06": PRE + "; one member or free swap with at most 1 fault; 19 families, one with contents that have a swap of their own",
    "C07": PRE + "; self copy/move assignment, self swap, assignment of the variant's own content; at most 1 fault; 18 families; assignment of a part of the content, as it is or converted, in 25 variants",
    "C08": PRE + "; every form of get/strict_get/relaxed_get for every alternative; 14 families and a class hierarchy with const alternatives",
    "C09": "a hierarchy of 6 classes (single, multiple, private inheritance, const alternatives); every held alternative and value, every form of polymorphic_get for every class; a second hierarchy whose contents may throw, also in a heap backup, and as reference alternatives",
    "C10": PRE + "; every form of one-variant apply_visitor (visitor const/non-const/rvalue, variant const/non-const/rvalue/const rvalue, void/value/reference/move-only results), visitor may throw; 12 families; visitors without a result type whose result (number, reference, pointer) differs per alternative, 3 variants; C++11 to C++20",
    "C11": "2, 3, 4 and 5 variants, every combination of alternatives and values, lvalue/const/rvalue operands, static_visitor and generic visitors, visitor may throw; results that differ per combination of alternatives (2 and 3 variants); C++11 to C++20",
    "C12": "delayed visitation of 1, 2 and 3 variants and visitor_ptr for every parameter type and form; every alternative and value",
    "C13": PRE + "; contents' == and < are arbitrary relations on 4 values chosen by the solver; all 6 operators, self comparison, 1 fault; 11 families",
    "C14": PRE + "; content hashes: 3 bases plus 8 symbolic bits; 6 families; every pair of alternatives of variants of 15, 23 and 47 alternatives",
    "C15": "histories as C01, 11 families, type() compared with every alternative after every operation; polymorphic classes by value, wrapped and by reference, const and built-in alternatives, recursive lists",
    "C16": "converting construction/assignment for every operand kind of a set of 7 bounded types, and of 10 further sets (base and derived classes, pointers, arithmetic types, floating point, a class constructible from anything, move-only classes, conversion functions); every starting alternative and 32-bit value, 1 fault",
    "C17": "construction/assignment from variants with fewer, other and wrapped types, source in place or in a heap backup, every starting alternative and value, 1 fault; move-only contents; copies counted for rvalue sources",
    "C18": "trees of depth 2 (up to 7 nodes) of every shape, 32-bit labels, one operation out of 8 with 1 fault at every point; recursive_wrapper alone: 13 operations",
    "C19": "4 variants with reference, const reference and value alternatives, every alternative and value, one copy/move/conversion, then a write through either copy",
    "C20": "all 32 combinations of noexcept flags on one bounded type in 8 variant shapes; every starting alternative, an optional failed assignment, then one operation with 2 faults",
    "C21": PRE + "; one operation with 1 fault; 20 families incl. 64-byte alignment and odd sizes; operator new calls counted",
    "C22": "variants of 2, 5, 7, 15, 20, 23, 27 and 47 alternatives given as arguments, sequences and (nested) joint views; every pair of alternatives and values, one operation out of 9 with 1 fault",
    "C23": PRE + "; one insertion (plain, twice, nested variants) into a recording stream of any state, inserter may throw; 10 families, narrow and wide",
    "C24": "10 configurations each compared with the default one: both compiled into one program and run on the same symbolic inputs (2-operation histories with faults, single operations, conversions, visitation, get, trees, 15 alternatives)",
    "C25": PRE + "; one of 15 visiting, comparing, hashing, getting or constructing operations with 1 fault at every point; 19 families; histories as C01 for 2 families",
    "C26": "a recursive variant of 10 forms (class templates with the placeholder, or a reference or cv-qualified pointer to it, as argument at any depth, pointers, functions, nested variants with it in first or later place, forms without it), given as arguments or sequences; every pair of forms and values, one operation out of 6 with 1 fault",
    "C27": PRE + "; one out of 9 groups of reading operations, or of operations on the thread's own variants; 13 families; no path writes, without synchronisation, memory that existed before or releases it, so no interleaving of any number of threads has a data race",
})
