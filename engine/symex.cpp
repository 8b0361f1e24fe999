// symex: a bounded symbolic executor for LLVM IR (clang -O0 output) with C++
// exceptions, byte-accurate memory and Z3 as the deciding solver.
//
//   symex MODULE.bc ENTRY [--max-steps N] [--time S] [--max-errors N]
//         [--samples N] [--smt-dump DIR] [--query-timeout MS] > report.json
//
// See /verif/DESIGN.md for the semantics and the list of modelled functions.
#include <llvm-c/Core.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <z3++.h>

#include <algorithm>
#include <cassert>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
using std::string;
using std::vector;

static z3::context* Z;

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct PathErr { string kind, msg; };
static bool inPath;  // what cannot be encoded ends the path; its inputs are tried natively, otherwise there is no verdict
[[noreturn]] static void unsupported(const string& m) {
    if (inPath) throw PathErr{"unsupported", m};
    printf("{\"fatal\": \"unsupported: ");
    for (char c : m) { if (c == '"' || c == '\\') putchar('\\'); if (c == '\n') c = ' '; putchar(c); }
    printf("\"}\n");
    fflush(stdout);
    _Exit(3);
}

// ---------------------------------------------------------------------------
// Values
// ---------------------------------------------------------------------------
struct Node;
struct NodeRef {
    Node* p = nullptr;
    NodeRef() {}
    explicit NodeRef(Node* q);
    NodeRef(const NodeRef& o);
    NodeRef(NodeRef&& o) noexcept : p(o.p) { o.p = nullptr; }
    NodeRef& operator=(const NodeRef& o);
    NodeRef& operator=(NodeRef&& o) noexcept { std::swap(p, o.p); return *this; }
    ~NodeRef();
};

enum Kind : uint8_t { KC, KS, KU, KB, KA };  // concrete, symbolic, undef, bytes (partly undef), aggregate

struct Val {
    Kind k = KU;
    unsigned w = 0;  // bits
    u64 c = 0;
    NodeRef n;
};
// one byte of memory
struct Cell {
    uint8_t tag = 0;  // 0 uninitialised, 1 concrete, 2 byte idx of n->e
    uint8_t v = 0;    // concrete value, or byte index
    NodeRef n;
};
struct Node {
    int rc = 0;
    std::unique_ptr<z3::expr> e;
    vector<Cell> bytes;
    vector<Val> el;
};
NodeRef::NodeRef(Node* q) : p(q) { if (p) ++p->rc; }
NodeRef::NodeRef(const NodeRef& o) : p(o.p) { if (p) ++p->rc; }
NodeRef& NodeRef::operator=(const NodeRef& o) {
    NodeRef t(o);
    std::swap(p, t.p);
    return *this;
}
NodeRef::~NodeRef() { if (p && --p->rc == 0) delete p; }

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    u64 m = 1ull << (w - 1);
    v &= mask(w);
    return (i64)((v ^ m) - m);
}
static Val conc(u64 v, unsigned w) { Val r; r.k = KC; r.w = w; r.c = v & mask(w); return r; }
static Val undef(unsigned w) { Val r; r.k = KU; r.w = w; return r; }
static Val symv(const z3::expr& e0) {
    z3::expr e = e0.simplify();
    unsigned w = e.get_sort().bv_size();
    if (w <= 64 && e.is_numeral()) {
        u64 v = 0;
        if (Z3_get_numeral_uint64(*Z, e, &v)) return conc(v, w);
    }
    Val r; r.k = KS; r.w = w;
    Node* n = new Node; n->e.reset(new z3::expr(e));
    r.n = NodeRef(n);
    return r;
}
static z3::expr ex(const Val& v) {
    if (v.k == KC) return Z->bv_val((uint64_t)v.c, v.w);
    if (v.k == KS) return *v.n.p->e;
    unsupported("expression of undefined value");
}
static z3::expr b2bv(const z3::expr& b) { return z3::ite(b, Z->bv_val(1, 1), Z->bv_val(0, 1)); }

// ---------------------------------------------------------------------------
// Program
// ---------------------------------------------------------------------------
enum Op : uint8_t {
    O_RET, O_BR, O_CBR, O_SWITCH, O_UNREACH, O_RESUME, O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BIN, O_ICMP, O_FCMP,
    O_CAST, O_SELECT, O_PHI, O_CALL, O_EXTRACT, O_INSERT, O_LPAD, O_FREEZE, O_FNEG, O_FENCE, O_UNSUP
};
struct Func;
struct Inst {
    Op op = O_UNSUP;
    int dst = -1;
    unsigned w = 0;
    vector<int> a;  // operands: >=0 register, <0 constant ~i
    int t0 = -1, t1 = -1;
    unsigned sub = 0;  // predicate, binary opcode, cast opcode, flags
    unsigned size = 0, align = 1;
    i64 off = 0;
    vector<std::pair<int, i64>> scaled;      // gep
    vector<std::pair<u64, int>> cases;       // switch
    vector<std::pair<int, int>> phi;         // pred block, operand
    vector<unsigned> idx;                    // extract/insert value
    vector<std::pair<bool, vector<int>>> clauses;  // landingpad: (isfilter, operands)
    bool cleanup = false;
    Func* callee = nullptr;
    int calleeOp = 0;
    bool hasCalleeOp = false;
    bool invoke = false;
    vector<unsigned> byval;  // byval size per arg (0: none)
    LLVMTypeRef ty = nullptr;
    LLVMValueRef v = nullptr;
};
struct Block { vector<Inst> in; };
struct State;
struct Func {
    string name;
    u64 addr = 0;
    bool defined = false;
    vector<Block> b;
    int nregs = 0;
    int nargs = 0;
    bool prepared = false;
    int builtin = -1;
    LLVMValueRef v = nullptr;
    u64 hits = 0;
};

static LLVMModuleRef M;
static LLVMTargetDataRef TD;
static vector<Val> consts;
static std::map<LLVMValueRef, int> constIdx;
static std::map<LLVMValueRef, Func*> funcOf;
static std::map<u64, Func*> funcAt;
static std::map<LLVMValueRef, u64> globAddr;
static std::map<string, u64> globByName;

struct Obj {
    u64 base = 0, size = 0;
    uint8_t kind = 0;  // 0 stack 1 heap 2 global 3 const global 4 exception
    bool local = false;   // thread-local global
    bool opaque = false;  // external global: no contents
    vector<Cell> d;
    string name;
};
typedef std::shared_ptr<Obj> ObjP;

static unsigned bitsOf(LLVMTypeRef t) {
    switch (LLVMGetTypeKind(t)) {
        case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
        case LLVMPointerTypeKind: return 64;
        case LLVMFloatTypeKind: return 32;
        case LLVMDoubleTypeKind: return 64;
        case LLVMVoidTypeKind: return 0;
        case LLVMX86_FP80TypeKind: return 80;
        default: return 0;
    }
}
static bool isAgg(LLVMTypeRef t) {
    auto k = LLVMGetTypeKind(t);
    return k == LLVMStructTypeKind || k == LLVMArrayTypeKind;
}
static unsigned aggCount(LLVMTypeRef t) {
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) return LLVMCountStructElementTypes(t);
    return (unsigned)LLVMGetArrayLength2(t);
}
static LLVMTypeRef aggElem(LLVMTypeRef t, unsigned i) {
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) return LLVMStructGetTypeAtIndex(t, i);
    return LLVMGetElementType(t);
}
static u64 aggOff(LLVMTypeRef t, unsigned i) {
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) return LLVMOffsetOfElement(TD, t, i);
    return i * LLVMABISizeOfType(TD, LLVMGetElementType(t));
}
static Val zeroOf(LLVMTypeRef t) {
    if (isAgg(t)) {
        Val r; r.k = KA; Node* n = new Node;
        for (unsigned i = 0; i < aggCount(t); ++i) n->el.push_back(zeroOf(aggElem(t, i)));
        r.n = NodeRef(n); return r;
    }
    return conc(0, bitsOf(t));
}
static Val undefOf(LLVMTypeRef t) {
    if (isAgg(t)) {
        Val r; r.k = KA; Node* n = new Node;
        for (unsigned i = 0; i < aggCount(t); ++i) n->el.push_back(undefOf(aggElem(t, i)));
        r.n = NodeRef(n); return r;
    }
    return undef(bitsOf(t));
}

static string valStr(LLVMValueRef v) {
    char* s = LLVMPrintValueToString(v);
    string r(s); LLVMDisposeMessage(s);
    return r;
}

// byte offset of a constant-index GEP, appending variable parts
static void gepParse(LLVMValueRef g, i64& off, vector<std::pair<LLVMValueRef, i64>>& var) {
    LLVMTypeRef t = LLVMGetGEPSourceElementType(g);
    unsigned n = LLVMGetNumOperands(g);
    for (unsigned i = 1; i < n; ++i) {
        LLVMValueRef ix = LLVMGetOperand(g, i);
        if (i > 1) {
            if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
                unsigned k = (unsigned)LLVMConstIntGetZExtValue(ix);
                off += LLVMOffsetOfElement(TD, t, k);
                t = LLVMStructGetTypeAtIndex(t, k);
                continue;
            }
            t = LLVMGetElementType(t);
        }
        i64 sz = LLVMABISizeOfType(TD, t);
        if (LLVMIsAConstantInt(ix)) off += LLVMConstIntGetSExtValue(ix) * sz;
        else var.push_back({ix, sz});
    }
}

static Val castC(unsigned opc, const Val& v, unsigned w);

static Val constVal(LLVMValueRef v) {
    LLVMTypeRef t = LLVMTypeOf(v);
    if (LLVMIsAConstantInt(v)) {
        unsigned w = bitsOf(t);
        if (w <= 64) return conc(LLVMConstIntGetZExtValue(v), w);
        string s = valStr(v);
        return symv(Z->bv_val(s.substr(s.rfind(' ') + 1).c_str(), w));
    }
    if (LLVMIsAConstantPointerNull(v)) return conc(0, 64);
    if (LLVMIsAFunction(v)) return conc(funcOf.at(v)->addr, 64);
    if (LLVMIsAGlobalVariable(v)) return conc(globAddr.at(v), 64);
    if (LLVMIsAGlobalAlias(v)) return constVal(LLVMAliasGetAliasee(v));
    if (LLVMIsUndef(v) || LLVMIsPoison(v)) return undefOf(t);
    if (LLVMIsAConstantAggregateZero(v)) return zeroOf(t);
    if (LLVMIsAConstantFP(v)) {
        LLVMBool li; double d = LLVMConstRealGetDouble(v, &li);
        if (bitsOf(t) == 64) { u64 x; memcpy(&x, &d, 8); return conc(x, 64); }
        if (bitsOf(t) == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return conc(x, 32); }
        unsupported("fp constant");
    }
    if (LLVMIsAConstantStruct(v) || LLVMIsAConstantArray(v)) {
        Val r; r.k = KA; Node* n = new Node;
        for (int i = 0; i < LLVMGetNumOperands(v); ++i) n->el.push_back(constVal(LLVMGetOperand(v, i)));
        r.n = NodeRef(n); return r;
    }
    if (LLVMIsAConstantDataArray(v)) {
        Val r; r.k = KA; Node* n = new Node;
        unsigned c = aggCount(t);
        for (unsigned i = 0; i < c; ++i) n->el.push_back(constVal(LLVMGetAggregateElement(v, i)));
        r.n = NodeRef(n); return r;
    }
    if (LLVMIsAConstantExpr(v)) {
        switch (LLVMGetConstOpcode(v)) {
            case LLVMGetElementPtr: {
                i64 off = 0; vector<std::pair<LLVMValueRef, i64>> var;
                gepParse(v, off, var);
                u64 b = constVal(LLVMGetOperand(v, 0)).c;
                for (auto& x : var) b += sext(constVal(x.first).c, constVal(x.first).w) * x.second;
                return conc(b + off, 64);
            }
            case LLVMBitCast: case LLVMIntToPtr: case LLVMPtrToInt: case LLVMAddrSpaceCast: case LLVMTrunc: {
                Val x = constVal(LLVMGetOperand(v, 0));
                return conc(x.c, bitsOf(t));
            }
            case LLVMSub: return conc(constVal(LLVMGetOperand(v, 0)).c - constVal(LLVMGetOperand(v, 1)).c, bitsOf(t));
            case LLVMAdd: return conc(constVal(LLVMGetOperand(v, 0)).c + constVal(LLVMGetOperand(v, 1)).c, bitsOf(t));
            default: unsupported("constant expression " + valStr(v));
        }
    }
    unsupported("constant " + valStr(v));
}

// ---------------------------------------------------------------------------
// Machine state
// ---------------------------------------------------------------------------
struct Frame {
    Func* f;
    int b = 0, i = 0, prev = -1;
    vector<Val> r;
    vector<u64> allocas;
    int retDst = -1;       // register of the caller receiving the result
    u64 freeOnRet = 0;     // exception object to free when this (destructor) frame returns
    bool ctorPhase = false;
};
struct Exc { u64 obj, ti, dtor; int handlers; };
struct Input { string name; unsigned w; NodeRef e; u64 c; bool isC; };
typedef std::shared_ptr<z3::model> ModelP;

struct State {
    vector<Frame> st;
    std::map<u64, ObjP> mem;
    u64 nextStack = 0x7f0000000000ull, nextHeap = 0x500000000000ull;
    vector<z3::expr> pc;
    vector<Input> inputs;
    vector<Val> obs;
    ModelP model;
    vector<Exc> excs;       // all thrown, not yet destroyed
    vector<u64> caught;     // stack of caught exception objects
    u64 unwindObj = 0, unwindTi = 0;
    u64 landSel = 0, landPtr = 0;
    u64 steps = 0;
    u64 liveHeap = 0;
    int phase = 0;  // index in the list of functions to run (global ctors, entry)
    std::set<string> covers;
    std::map<u64, std::pair<u64, int>> reg;  // live instrumented objects: address -> (size, tag)
    unsigned nfresh = 0;
    bool shared = false; int guards = 0; u64 shStack = 0, shHeap = 0;  // sx_shared: what exists when it was called is shared
    bool throwing = false;
};

struct ErrorInfo { string kind, msg, where; vector<std::pair<string, u64>> in; };

struct PathEnd {};

static vector<std::unique_ptr<State>> work;
static vector<Func*> runList;
static std::map<u64, ObjP> globalsInit;
static vector<ErrorInfo> errors;
static std::map<string, int> errKeys;
static std::set<string> allCovers;

// statistics
static u64 nPaths, nPruned, nErrPaths, nSteps, nForks, nQueries, nAsserts, nAssertQ, nModelHits, nStates;
static double solverTime;
static u64 maxStepsPerPath = 3000000;
static double timeLimit = 600;
static int maxErrors = 5;
static unsigned nSamples = 20;
static string smtDump;
static u64 smtCount;
static unsigned queryTimeout = 60000;
static double t0;
static bool checkLeaks = true;
static u64 hitUnknown;

// ---------------------------------------------------------------------------
// Solver
// ---------------------------------------------------------------------------
static z3::solver* S;
static vector<z3::expr> sstack;

static void syncSolver(const vector<z3::expr>& pc) {
    size_t k = 0;
    while (k < sstack.size() && k < pc.size() && z3::eq(sstack[k], pc[k])) ++k;
    if (sstack.size() > k) {
        S->pop((unsigned)(sstack.size() - k));
        sstack.erase(sstack.begin() + k, sstack.end());
    }
    for (; k < pc.size(); ++k) { S->push(); S->add(pc[k]); sstack.push_back(pc[k]); }
}

// Independent slices: the path condition of a live state is satisfiable, so "pc and q"
// is satisfiable iff "the constraints that share inputs with q, transitively, and q" is.
// Slices found unsatisfiable are remembered.
struct ExprInfo { vector<unsigned> vars; bool hard = false, fp = false; };
static bool anyFP;  // some expression involves symbolic floating point
static std::unordered_map<unsigned, ExprInfo> exprInfo;
static vector<z3::expr> keepAlive;
static const ExprInfo& infoOf(const z3::expr& e) {
    unsigned id = e.id();
    auto it = exprInfo.find(id);
    if (it != exprInfo.end()) return it->second;
    keepAlive.push_back(e);
    ExprInfo r;
    if (e.is_fpa()) r.fp = true;
    if (e.is_app()) {
        unsigned n = e.num_args();
        if (n == 0) { if (!e.is_numeral() && e.decl().decl_kind() == Z3_OP_UNINTERPRETED) r.vars.push_back(id); }
        else {
            auto k = e.decl().decl_kind();
            if (k == Z3_OP_BMUL || k == Z3_OP_BUDIV || k == Z3_OP_BUREM || k == Z3_OP_BSDIV || k == Z3_OP_BSREM || k == Z3_OP_BUDIV_I || k == Z3_OP_BUREM_I || k == Z3_OP_BSDIV_I || k == Z3_OP_BSREM_I) r.hard = true;
            for (unsigned i = 0; i < n; ++i) {
                const ExprInfo& x = infoOf(e.arg(i));
                vector<unsigned> m;
                std::set_union(r.vars.begin(), r.vars.end(), x.vars.begin(), x.vars.end(), std::back_inserter(m));
                r.vars.swap(m);
                r.hard |= x.hard; r.fp |= x.fp;
            }
        }
    }
    return exprInfo[id] = r;
}
static std::set<vector<unsigned>> unsatSlices;
static u64 nSliceHits;
static bool sliceKnownUnsat(State& s, const z3::expr& q, vector<unsigned>& key, vector<size_t>& members, bool& hard, bool& fp) {
    ExprInfo qi = infoOf(q);
    hard = qi.hard; fp = qi.fp;
    std::set<unsigned> vars(qi.vars.begin(), qi.vars.end());
    vector<char> in(s.pc.size(), 0);
    for (bool more = true; more;) {
        more = false;
        for (size_t i = 0; i < s.pc.size(); ++i) {
            if (in[i]) continue;
            const ExprInfo& x = infoOf(s.pc[i]);
            bool touch = false;
            for (unsigned v : x.vars) if (vars.count(v)) { touch = true; break; }
            if (!touch) continue;
            in[i] = 1; more = true; hard |= x.hard; fp |= x.fp;
            vars.insert(x.vars.begin(), x.vars.end());
        }
    }
    for (size_t i = 0; i < s.pc.size(); ++i) if (in[i]) { key.push_back(s.pc[i].id()); members.push_back(i); }
    std::sort(key.begin(), key.end());
    key.push_back(q.id());
    return unsatSlices.count(key) != 0;
}

// the same for conditions over symbolic floating-point values
static bool fpSat(State& s, const z3::expr* extra, const vector<size_t>* mem, const vector<unsigned>* key, ModelP* out, double a) {
    z3::check_result r = z3::sat;
    for (int full = extra ? 0 : 1; full < 2 && r == z3::sat; ++full) {  // first the slice, then everything, for the model
        z3::solver one(*Z, "QF_FPBV");
        z3::params pr(*Z); pr.set("timeout", queryTimeout); one.set(pr);
        if (full) for (auto& c : s.pc) one.add(c); else for (size_t i : *mem) one.add(s.pc[i]);
        if (extra) one.add(*extra);
        r = one.check();
        ++nQueries;
        if (r == z3::sat && full && out) *out = std::make_shared<z3::model>(one.get_model());
        if (!out) break;
    }
    if (r == z3::unsat && key) unsatSlices.insert(*key);
    solverTime += now() - a;
    if (r == z3::unknown) unsupported("solver answered unknown (timeout) on a floating-point query");
    return r == z3::sat;
}
// sat? pc and extra. On sat stores the model.
static bool isSat(State& s, const z3::expr* extra, ModelP* out, bool assertion = false) {
    double a = now();
    z3::check_result r;
    if (extra) {
        vector<unsigned> key; vector<size_t> mem; bool hard = false, fp = false;
        if (sliceKnownUnsat(s, *extra, key, mem, hard, fp)) { ++nSliceHits; solverTime += now() - a; return false; }
        if (anyFP && !fp) for (auto& c : s.pc) if (infoOf(c).fp) { fp = true; break; }
        if (fp) return fpSat(s, extra, &mem, &key, out, a);
        if (hard) {  // one-shot solving is much faster than incremental here
            z3::solver one(*Z, "QF_BV");
            z3::params pr(*Z); pr.set("timeout", queryTimeout); one.set(pr);
            for (size_t i : mem) one.add(s.pc[i]);
            one.add(*extra);
            r = one.check();
            ++nQueries;
            if (r == z3::unsat) {
                if (assertion && !smtDump.empty()) {
                    std::ofstream f(smtDump + "/q" + std::to_string(smtCount++) + ".unsat.smt2");
                    f << "(set-logic QF_BV)\n" << one.to_smt2();
                }
                unsatSlices.insert(key); solverTime += now() - a; return false;
            }
        }
        syncSolver(s.pc);
        S->push();
        S->add(*extra);
        r = S->check();
        if (r == z3::sat && out) *out = std::make_shared<z3::model>(S->get_model());
        if (r == z3::unsat) unsatSlices.insert(key);
        if (assertion && !smtDump.empty()) {
            std::ofstream f(smtDump + "/q" + std::to_string(smtCount++) + (r == z3::sat ? ".sat" : ".unsat") + ".smt2");
            f << "(set-logic QF_BV)\n" << S->to_smt2();
        }
        S->pop();
    } else {
        if (anyFP) for (auto& c : s.pc) if (infoOf(c).fp) return fpSat(s, nullptr, nullptr, nullptr, out, a);
        syncSolver(s.pc);
        r = S->check();
        if (r == z3::sat && out) *out = std::make_shared<z3::model>(S->get_model());
    }
    ++nQueries;
    solverTime += now() - a;
    if (r == z3::unknown) { unsupported("solver answered unknown (timeout) on a query"); }
    return r == z3::sat;
}
static bool modelSays(State& s, const z3::expr& b, bool& val) {
    if (!s.model) return false;
    z3::expr r = s.model->eval(b, true);
    if (r.is_true()) { val = true; return true; }
    if (r.is_false()) { val = false; return true; }
    return false;
}
static void ensureModel(State& s) {
    if (s.model) return;
    ModelP m;
    if (!isSat(s, nullptr, &m)) unsupported("internal: infeasible state");
    s.model = m;
}
static u64 evalIn(z3::model& m, const z3::expr& e) {
    z3::expr r = m.eval(e, true).simplify();
    u64 v = 0;
    if (!Z3_get_numeral_uint64(*Z, r, &v)) unsupported("model evaluation");
    return v;
}
static u64 evalVal(State& s, const Val& v) {
    if (v.k == KC) return v.c;
    if (v.k == KS) { ensureModel(s); return evalIn(*s.model, ex(v)); }
    return 0xdeadbeef;
}

// returns feasibility of b and !b under s.pc; mT/mF get models
static void bothSides(State& s, const z3::expr& b, bool& canT, bool& canF, ModelP& mT, ModelP& mF) {
    ensureModel(s);
    bool v;
    if (modelSays(s, b, v)) {
        ++nModelHits;
        if (v) { canT = true; mT = s.model; z3::expr nb = !b; canF = isSat(s, &nb, &mF); }
        else { canF = true; mF = s.model; canT = isSat(s, &b, &mT); }
    } else {
        canT = isSat(s, &b, &mT);
        z3::expr nb = !b;
        canF = canT ? isSat(s, &nb, &mF) : true;
        if (!canT) mF = s.model;
    }
}
static z3::expr asBool(const Val& v) {  // i1 / iN != 0
    return (ex(v) != Z->bv_val(0, v.w)).simplify();
}

// Decide a symbolic boolean; forks the other side (which re-executes the current
// instruction with the constraint added). Returns the side this state follows.
static bool decide(State& s, const z3::expr& b0) {
    z3::expr b = b0.simplify();
    if (b.is_true()) return true;
    if (b.is_false()) return false;
    bool cT = false, cF = false; ModelP mT, mF;
    bothSides(s, b, cT, cF, mT, mF);
    if (cT && cF) {
        ++nForks; ++nStates;
        auto o = std::make_unique<State>(s);
        o->pc.push_back((!b).simplify()); o->model = mF;
        work.push_back(std::move(o));
        s.pc.push_back(b); s.model = mT;
        return true;
    }
    if (!cT && !cF) throw PathEnd();
    s.model = cT ? mT : mF;
    return cT;
}
// Make a value concrete by forking over its feasible values.
static u64 concretize(State& s, const Val& v, const char* what) {
    if (v.k == KC) return v.c;
    if (v.k != KS) throw PathErr{"uninit", string("use of an uninitialised value as ") + what};
    ensureModel(s);
    u64 c = evalIn(*s.model, ex(v));
    z3::expr eq = (ex(v) == Z->bv_val((uint64_t)c, v.w)).simplify();
    z3::expr ne = (!eq).simplify();
    if (!ne.is_false()) {
        ModelP m;
        if (isSat(s, &ne, &m)) {
            ++nForks; ++nStates;
            auto o = std::make_unique<State>(s);
            o->pc.push_back(ne); o->model = m;
            work.push_back(std::move(o));
            s.pc.push_back(eq);
        }
    }
    return c;
}

// ---------------------------------------------------------------------------
// Memory
// ---------------------------------------------------------------------------
static ObjP* findObj(State& s, u64 a) {
    auto it = s.mem.upper_bound(a);
    if (it == s.mem.begin()) return nullptr;
    --it;
    Obj& o = *it->second;
    if (a >= o.base && a < o.base + std::max<u64>(o.size, 1)) return &it->second;
    return nullptr;
}
static u64 place(u64& next, u64 size, u64 align) {
    if (align < 1) align = 1;
    u64 b = (next + 64 + align - 1) / align * align;
    if ((b / align) % 2 == 0) b += align;  // aligned to exactly `align`, never more
    next = b + size;
    return b;
}
static u64 newObj(State& s, u64 size, u64 align, int kind, const string& name) {
    auto o = std::make_shared<Obj>();
    o->base = place(kind == 0 ? s.nextStack : s.nextHeap, size, align);
    o->size = size; o->kind = kind; o->d.resize(size); o->name = name;
    s.mem[o->base] = o;
    return o->base;
}
static string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

static Obj* access(State& s, u64 a, u64 size, bool write, u64& off) {
    ObjP* p = findObj(s, a);
    if (!p) {
        string why = a < 4096 ? "null pointer" : a >= 0x7f0000000000ull ? "out-of-scope or out-of-bounds stack memory"
            : a >= 0x500000000000ull ? "freed or out-of-bounds heap memory" : "invalid address";
        throw PathErr{"memory", string(write ? "write to " : "read of ") + why};
    }
    Obj& o = **p;
    off = a - o.base;
    if (off + size > o.size) throw PathErr{"memory", string(write ? "write" : "read") + " past the end of " + (o.kind == 0 ? "a stack object" : o.kind == 1 ? "a heap block" : "a global")};
    if (write && s.shared && !s.guards && (o.kind == 2 ? !o.local : o.kind == 0 ? o.base < s.shStack : o.base < s.shHeap))
        throw PathErr{"race", string("unsynchronised write to ") + (o.kind == 2 ? "a variable all threads share" : "an object another thread may be reading")};
    if (write && o.kind == 3) throw PathErr{"memory", "write to constant"};
    if (o.opaque) throw PathErr{"memory", "access to external object " + o.name};
    if (write && p->use_count() > 1) { *p = std::make_shared<Obj>(o); return p->get(); }
    return p->get();
}
static void checkAlign(u64 a, unsigned al) {
    if (al > 1 && a % al) throw PathErr{"alignment", "misaligned access (required alignment " + std::to_string(al) + ")"};
}
static void putVal(Cell* c, const Val& v, unsigned nbytes) {
    switch (v.k) {
        case KC: for (unsigned i = 0; i < nbytes; ++i) { c[i].tag = 1; c[i].v = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0; c[i].n = NodeRef(); } break;
        case KS: {
            Val t = v;
            if (v.w != nbytes * 8) t = symv(z3::zext(ex(v), nbytes * 8 - v.w));
            if (t.k == KC) { putVal(c, t, nbytes); break; }
            for (unsigned i = 0; i < nbytes; ++i) { c[i].tag = 2; c[i].v = (uint8_t)i; c[i].n = t.n; }
            break;
        }
        case KU: for (unsigned i = 0; i < nbytes; ++i) c[i] = Cell(); break;
        case KB: for (unsigned i = 0; i < nbytes; ++i) c[i] = v.n.p->bytes[i]; break;
        default: unsupported("store of aggregate cell");
    }
}
static Val getVal(const Cell* c, unsigned nbytes, unsigned w) {
    bool allC = true, allU = true, anyU = false;
    for (unsigned i = 0; i < nbytes; ++i) {
        if (c[i].tag != 1) allC = false;
        if (c[i].tag != 0) allU = false; else anyU = true;
    }
    if (allC && nbytes <= 8) {
        u64 v = 0;
        for (unsigned i = 0; i < nbytes; ++i) v |= (u64)c[i].v << (8 * i);
        return conc(v, w);
    }
    if (allU) return undef(w);
    if (anyU) {
        Val r; r.k = KB; r.w = w; Node* n = new Node;
        n->bytes.assign(c, c + nbytes); r.n = NodeRef(n); return r;
    }
    if (c[0].tag == 2) {
        bool same = true;
        Node* n = c[0].n.p;
        for (unsigned i = 0; i < nbytes; ++i) if (c[i].tag != 2 || c[i].n.p != n || c[i].v != i) same = false;
        if (same) {
            unsigned nw = n->e->get_sort().bv_size();
            if (nw == w) { Val r; r.k = KS; r.w = w; r.n = c[0].n; return r; }
            return symv(n->e->extract(w - 1, 0));
        }
    }
    z3::expr e(*Z);
    for (unsigned i = 0; i < nbytes; ++i) {
        z3::expr b = c[i].tag == 1 ? Z->bv_val((unsigned)c[i].v, 8) : c[i].n.p->e->extract(8 * c[i].v + 7, 8 * c[i].v);
        e = i == 0 ? b : z3::concat(b, e);
    }
    if (w != nbytes * 8) e = e.extract(w - 1, 0);
    return symv(e);
}
static void storeTy(State& s, u64 a, LLVMTypeRef t, const Val& v) {
    if (isAgg(t)) {
        for (unsigned i = 0; i < aggCount(t); ++i)
            storeTy(s, a + aggOff(t, i), aggElem(t, i), v.k == KA ? v.n.p->el[i] : undefOf(aggElem(t, i)));
        return;
    }
    unsigned nb = (unsigned)LLVMStoreSizeOfType(TD, t);
    if (nb == 0) return;
    u64 off; Obj* o = access(s, a, nb, true, off);
    putVal(&o->d[off], v, nb);
}
static Val loadTy(State& s, u64 a, LLVMTypeRef t) {
    if (isAgg(t)) {
        Val r; r.k = KA; Node* n = new Node;
        for (unsigned i = 0; i < aggCount(t); ++i) n->el.push_back(loadTy(s, a + aggOff(t, i), aggElem(t, i)));
        r.n = NodeRef(n); return r;
    }
    unsigned nb = (unsigned)LLVMStoreSizeOfType(TD, t);
    u64 off; Obj* o = access(s, a, nb, false, off);
    return getVal(&o->d[off], nb, bitsOf(t));
}
static u64 loadU(State& s, u64 a, unsigned nb) {
    u64 off; Obj* o = access(s, a, nb, false, off);
    Val v = getVal(&o->d[off], nb, nb * 8);
    if (v.k != KC) throw PathErr{"uninit", "unexpected symbolic or uninitialised metadata"};
    return v.c;
}
static string loadStr(State& s, u64 a) {
    string r;
    for (;;) { char c = (char)loadU(s, a, 1); if (!c) return r; r += c; ++a; }
}

// initialise a global object's bytes (no access checks, direct)
static void initBytes(vector<Cell>& d, u64 off, LLVMTypeRef t, const Val& v) {
    if (isAgg(t)) {
        for (unsigned i = 0; i < aggCount(t); ++i)
            initBytes(d, off + aggOff(t, i), aggElem(t, i), v.n.p->el[i]);
        return;
    }
    unsigned nb = (unsigned)LLVMStoreSizeOfType(TD, t);
    if (nb) putVal(&d[off], v, nb);
}

// ---------------------------------------------------------------------------
// Function preparation
// ---------------------------------------------------------------------------
static int constRef(LLVMValueRef v) {
    auto it = constIdx.find(v);
    if (it != constIdx.end()) return ~it->second;
    int i = (int)consts.size();
    consts.push_back(constVal(v));
    constIdx[v] = i;
    return ~i;
}
static unsigned byvalKind;

static void prepare(Func* f) {
    if (f->prepared) return;
    f->prepared = true;
    std::map<LLVMValueRef, int> reg;
    std::map<LLVMBasicBlockRef, int> bi;
    f->nargs = (int)LLVMCountParams(f->v);
    int n = 0;
    for (int i = 0; i < f->nargs; ++i) reg[LLVMGetParam(f->v, i)] = n++;
    int nb = 0;
    for (auto b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) {
        bi[b] = nb++;
        for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i))
            if (LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMVoidTypeKind) reg[i] = n++;
    }
    f->nregs = n;
    auto opnd = [&](LLVMValueRef v) -> int {
        auto it = reg.find(v);
        if (it != reg.end()) return it->second;
        if (LLVMGetValueKind(v) == LLVMMetadataAsValueValueKind || LLVMIsAInlineAsm(v)) return ~0;
        return constRef(v);
    };
    f->b.resize(nb);
    for (auto b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) {
        Block& B = f->b[bi[b]];
        for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
            Inst I;
            I.v = i;
            LLVMTypeRef ty = LLVMTypeOf(i);
            if (LLVMGetTypeKind(ty) != LLVMVoidTypeKind) { I.dst = reg[i]; I.w = bitsOf(ty); }
            auto opc = LLVMGetInstructionOpcode(i);
            unsigned no = LLVMGetNumOperands(i);
            auto op = [&](unsigned k) { return opnd(LLVMGetOperand(i, k)); };
            switch (opc) {
                case LLVMRet: I.op = O_RET; if (no) I.a = {op(0)}; break;
                case LLVMBr:
                    if (LLVMIsConditional(i)) {
                        I.op = O_CBR; I.a = {opnd(LLVMGetCondition(i))};
                        I.t0 = bi[LLVMGetSuccessor(i, 0)]; I.t1 = bi[LLVMGetSuccessor(i, 1)];
                    } else { I.op = O_BR; I.t0 = bi[LLVMGetSuccessor(i, 0)]; }
                    break;
                case LLVMSwitch: {
                    I.op = O_SWITCH; I.a = {op(0)};
                    I.t0 = bi[LLVMGetSwitchDefaultDest(i)];
                    for (unsigned k = 2; k + 1 < no; k += 2)
                        I.cases.push_back({LLVMConstIntGetZExtValue(LLVMGetOperand(i, k)), bi[LLVMValueAsBasicBlock(LLVMGetOperand(i, k + 1))]});
                    break;
                }
                case LLVMUnreachable: I.op = O_UNREACH; break;
                case LLVMResume: I.op = O_RESUME; I.a = {op(0)}; break;
                case LLVMAlloca: {
                    I.op = O_ALLOCA; I.a = {op(0)};
                    I.ty = LLVMGetAllocatedType(i);
                    I.size = (unsigned)LLVMABISizeOfType(TD, I.ty); I.align = LLVMGetAlignment(i);
                    break;
                }
                case LLVMLoad: I.op = O_LOAD; I.a = {op(0)}; I.ty = ty; I.align = LLVMGetAlignment(i); break;
                case LLVMStore: I.op = O_STORE; I.a = {op(0), op(1)}; I.ty = LLVMTypeOf(LLVMGetOperand(i, 0)); I.align = LLVMGetAlignment(i); break;
                case LLVMGetElementPtr: {
                    I.op = O_GEP; I.a = {op(0)};
                    vector<std::pair<LLVMValueRef, i64>> var;
                    gepParse(i, I.off, var);
                    for (auto& x : var) I.scaled.push_back({opnd(x.first), x.second});
                    break;
                }
                case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem:
                case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor:
                case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv:
                    I.op = O_BIN; I.sub = opc; I.a = {op(0), op(1)}; I.ty = ty; break;
                case LLVMICmp: I.op = O_ICMP; I.sub = LLVMGetICmpPredicate(i); I.a = {op(0), op(1)}; break;
                case LLVMFCmp: I.op = O_FCMP; I.sub = LLVMGetFCmpPredicate(i); I.a = {op(0), op(1)}; I.ty = LLVMTypeOf(LLVMGetOperand(i, 0)); break;
                case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr:
                case LLVMSIToFP: case LLVMUIToFP: case LLVMFPToSI: case LLVMFPToUI: case LLVMFPExt: case LLVMFPTrunc:
                    I.op = O_CAST; I.sub = opc; I.a = {op(0)}; I.ty = LLVMTypeOf(LLVMGetOperand(i, 0)); break;
                case LLVMSelect: I.op = O_SELECT; I.a = {op(0), op(1), op(2)}; break;
                case LLVMPHI: {
                    I.op = O_PHI;
                    for (unsigned k = 0; k < LLVMCountIncoming(i); ++k)
                        I.phi.push_back({bi[LLVMGetIncomingBlock(i, k)], opnd(LLVMGetIncomingValue(i, k))});
                    break;
                }
                case LLVMCall: case LLVMInvoke: {
                    I.op = O_CALL;
                    unsigned na = LLVMGetNumArgOperands(i);
                    for (unsigned k = 0; k < na; ++k) {
                        I.a.push_back(op(k));
                        LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(i, k + 1, byvalKind);
                        I.byval.push_back(at ? (unsigned)LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at)) : 0);
                    }
                    LLVMValueRef cv = LLVMGetCalledValue(i);
                    if (LLVMIsAGlobalAlias(cv)) cv = LLVMAliasGetAliasee(cv);
                    if (LLVMIsAFunction(cv)) I.callee = funcOf.at(cv);
                    else { I.hasCalleeOp = true; I.calleeOp = opnd(cv); }
                    if (opc == LLVMInvoke) {
                        I.invoke = true;
                        I.t0 = bi[LLVMGetNormalDest(i)]; I.t1 = bi[LLVMGetUnwindDest(i)];
                    }
                    I.ty = ty;
                    break;
                }
                case LLVMExtractValue: case LLVMInsertValue: {
                    I.op = opc == LLVMExtractValue ? O_EXTRACT : O_INSERT;
                    I.a.push_back(op(0));
                    if (opc == LLVMInsertValue) I.a.push_back(op(1));
                    unsigned k = LLVMGetNumIndices(i); const unsigned* ix = LLVMGetIndices(i);
                    I.idx.assign(ix, ix + k);
                    break;
                }
                case LLVMLandingPad: {
                    I.op = O_LPAD; I.cleanup = LLVMIsCleanup(i);
                    for (unsigned k = 0; k < LLVMGetNumClauses(i); ++k) {
                        LLVMValueRef c = LLVMGetClause(i, k);
                        if (LLVMGetTypeKind(LLVMTypeOf(c)) == LLVMArrayTypeKind) {
                            vector<int> v;
                            for (int q = 0; q < LLVMGetNumOperands(c); ++q) v.push_back(constRef(LLVMGetOperand(c, q)));
                            I.clauses.push_back({true, v});
                        } else I.clauses.push_back({false, {constRef(c)}});
                    }
                    break;
                }
                case LLVMFreeze: I.op = O_FREEZE; I.a = {op(0)}; break;
                case LLVMFNeg: I.op = O_FNEG; I.a = {op(0)}; break;
                case LLVMFence: I.op = O_FENCE; break;
                default: I.op = O_UNSUP;
            }
            if (I.op == O_LOAD || I.op == O_STORE) if (LLVMGetTypeKind(I.ty) == LLVMVectorTypeKind) I.op = O_UNSUP;
            B.in.push_back(std::move(I));
        }
    }
}

// ---------------------------------------------------------------------------
// Exceptions: type matching from Itanium type_info objects
// ---------------------------------------------------------------------------
static u64 vtClass, vtSi, vtVmi;  // address of the cxxabi vtables (+16 is what objects hold)

static u64 gname(const char* n) { auto it = globByName.find(n); return it == globByName.end() ? 0 : it->second; }

// does thrown type `ti` at object address `obj` match catch type `want`? adjusts obj
static bool tiMatch(State& s, u64 ti, u64 want, u64& obj) {
    if (ti == want) return true;
    ObjP* p = findObj(s, ti);
    if (!p) return false;
    if ((*p)->opaque) {
        // standard exception types live in libstdc++: their single bases
        static const std::map<string, string> base = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
            {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}};
        auto b = base.find((*p)->name);
        if (b == base.end()) return false;
        auto g = globByName.find(b->second);
        return g != globByName.end() && tiMatch(s, g->second, want, obj);
    }
    u64 vt = loadU(s, ti, 8);
    if (vtSi && vt == vtSi + 16) return tiMatch(s, loadU(s, ti + 16, 8), want, obj);
    if (vtVmi && vt == vtVmi + 16) {
        u64 n = loadU(s, ti + 20, 4);
        for (u64 k = 0; k < n; ++k) {
            u64 base = loadU(s, ti + 24 + 16 * k, 8);
            i64 of = (i64)loadU(s, ti + 32 + 16 * k, 8);
            if (!(of & 2)) continue;
            i64 off = of >> 8;
            if (of & 1) { u64 vp = loadU(s, obj, 8); off = (i64)loadU(s, vp + off, 8); }
            u64 o2 = obj + off;
            if (tiMatch(s, base, want, o2)) { obj = o2; return true; }
        }
    }
    return false;
}
static std::map<u64, int> typeIds;
static int typeId(u64 ti) {
    auto it = typeIds.find(ti);
    if (it != typeIds.end()) return it->second;
    int k = (int)typeIds.size() + 1;
    typeIds[ti] = k;
    return k;
}
static Exc* excOf(State& s, u64 obj) {
    for (auto& e : s.excs) if (e.obj == obj) return &e;
    return nullptr;
}

static void popFrame(State& s) {
    for (u64 a : s.st.back().allocas) s.mem.erase(a);
    s.st.pop_back();
}
static void freeExc(State& s, u64 obj) {
    s.mem.erase(obj);
    for (size_t i = 0; i < s.excs.size(); ++i) if (s.excs[i].obj == obj) { s.excs.erase(s.excs.begin() + i); break; }
}

static string tiName(State& s, u64 ti) {
    ObjP* p = findObj(s, ti);
    if (p && (*p)->name.rfind("_ZTI", 0) == 0) {
        int st; string m = "_Z" ; char* d = abi::__cxa_demangle((*p)->name.c_str(), 0, 0, &st);
        if (d) { string r(d); free(d); return r; }
        return (*p)->name;
    }
    return "?";
}

// unwind from the current top frame; the call instruction of that frame is at (b,i)
// topIsCallSite: the top frame is executing the call that threw.
static void unwind(State& s, u64 obj, u64 ti) {
    // phase 1: is there a handler at all?
    for (;;) {
        if (s.st.empty()) throw PathErr{"uncaught", "exception left the harness"};
        Frame& f = s.st.back();
        Inst& I = f.f->b[f.b].in[f.i];
        if (I.op == O_CALL && I.invoke) {
            // find landing pad
            int ub = I.t1;
            Block& B = f.f->b[ub];
            size_t k = 0;
            while (k < B.in.size() && B.in[k].op == O_PHI) ++k;
            Inst& L = B.in[k];
            if (L.op != O_LPAD) unsupported("unwind destination without landingpad");
            u64 sel = 0, ptr = obj; bool hit = false;
            for (auto& c : L.clauses) {
                if (!c.first) {
                    u64 want = consts[~c.second[0]].c;
                    u64 o2 = obj;
                    if (want == 0 || tiMatch(s, ti, want, o2)) { sel = typeId(want); hit = true; break; }
                } else {
                    bool in = false;
                    for (int q : c.second) { u64 o2 = obj; u64 want = consts[~q].c; if (want == 0 || tiMatch(s, ti, want, o2)) in = true; }
                    if (!in) { sel = (u64)(uint32_t)-1; hit = true; break; }
                }
            }
            if (hit || L.cleanup) {
                s.landSel = sel; s.landPtr = ptr;
                s.unwindObj = obj; s.unwindTi = ti;
                f.prev = f.b; f.b = ub; f.i = 0;
                return;
            }
        }
        if (f.freeOnRet) unsupported("exception out of an exception destructor");
        if (s.st.size() == 1) throw PathErr{"uncaught", "exception of type " + tiName(s, ti) + " left the harness"};
        popFrame(s);
    }
}

// ---------------------------------------------------------------------------
// Execution
// ---------------------------------------------------------------------------
static inline const Val& opv(Frame& f, int o) { return o >= 0 ? f.r[o] : consts[~o]; }

static Val castOp(unsigned opc, const Val& v, unsigned w) {
    if (v.k == KU) return undef(w);
    if (v.k == KB) {
        if (opc == LLVMTrunc && w % 8 == 0) return getVal(v.n.p->bytes.data(), w / 8, w);
        if (opc == LLVMTrunc && w < 8) { Val b = getVal(v.n.p->bytes.data(), 1, 8); return castOp(opc, b, w); }
        if (v.w == w) return v;
        return undef(w);
    }
    if (v.k == KC) {
        switch (opc) {
            case LLVMTrunc: case LLVMZExt: case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr:
                if (w > 64) return symv(z3::zext(ex(v), w - v.w));
                return conc(v.c, w);
            case LLVMSExt:
                if (w > 64) return symv(z3::sext(ex(v), w - v.w));
                return conc((u64)sext(v.c, v.w), w);
        }
    }
    z3::expr e = ex(v);
    if (opc == LLVMSExt) return symv(z3::sext(e, w - v.w));
    if (w > v.w) return symv(z3::zext(e, w - v.w));
    if (w < v.w) return symv(e.extract(w - 1, 0));
    return v;
}

static double fpOf(const Val& v) {
    if (v.k != KC) unsupported("symbolic floating point");
    if (v.w == 64) { double d; memcpy(&d, &v.c, 8); return d; }
    float f; uint32_t x = (uint32_t)v.c; memcpy(&f, &x, 4); return f;
}
static Val fpTo(double d, unsigned w) {
    if (w == 64) { u64 x; memcpy(&x, &d, 8); return conc(x, 64); }
    float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return conc(x, 32);
}

static z3::expr fpEx(const Val& v) {  // the bits of v as a floating-point number
    if (v.k == KU || v.k == KB) throw PathErr{"uninit", "floating-point operation on an uninitialised value"};
    anyFP = true;
    return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, ex(v), v.w == 64 ? Z3_mk_fpa_sort_64(*Z) : Z3_mk_fpa_sort_32(*Z)));
}
static Val fpBits(Z3_ast e) { return symv(z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, z3::expr(*Z, e)))); }
static Z3_sort fpSort(unsigned w) { if (w != 64 && w != 32) unsupported("floating-point format"); return w == 64 ? Z3_mk_fpa_sort_64(*Z) : Z3_mk_fpa_sort_32(*Z); }
static Val fpCast(unsigned opc, const Val& v, unsigned w) {
    if (v.k == KU || v.k == KB) return undef(w);
    if (v.k == KC && v.w <= 64) {
        if (opc == LLVMSIToFP) { i64 i = sext(v.c, v.w); if (w == 64) return fpTo((double)i, 64); float f = (float)i; uint32_t x; memcpy(&x, &f, 4); return conc(x, 32); }
        if (opc == LLVMUIToFP) { if (w == 64) return fpTo((double)v.c, 64); float f = (float)v.c; uint32_t x; memcpy(&x, &f, 4); return conc(x, 32); }
        if (opc == LLVMFPToSI) return conc((u64)(i64)fpOf(v), w);
        if (opc == LLVMFPToUI) return conc((u64)fpOf(v), w);
        return fpTo(fpOf(v), w);
    }
    anyFP = true;
    z3::expr rne(*Z, Z3_mk_fpa_rne(*Z)), rtz(*Z, Z3_mk_fpa_rtz(*Z));
    switch (opc) {
        case LLVMSIToFP: return fpBits(Z3_mk_fpa_to_fp_signed(*Z, rne, ex(v), fpSort(w)));
        case LLVMUIToFP: return fpBits(Z3_mk_fpa_to_fp_unsigned(*Z, rne, ex(v), fpSort(w)));
        case LLVMFPToSI: return symv(z3::expr(*Z, Z3_mk_fpa_to_sbv(*Z, rtz, fpEx(v), w)));
        case LLVMFPToUI: return symv(z3::expr(*Z, Z3_mk_fpa_to_ubv(*Z, rtz, fpEx(v), w)));
        default: return fpBits(Z3_mk_fpa_to_fp_float(*Z, rne, fpEx(v), fpSort(w)));
    }
}

static Val binOp(State& s, unsigned opc, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (opc == LLVMFAdd || opc == LLVMFSub || opc == LLVMFMul || opc == LLVMFDiv) {
        if (a.k != KC || b.k != KC) {
            z3::expr rne(*Z, Z3_mk_fpa_rne(*Z)), x = fpEx(a), y = fpEx(b);
            return fpBits(opc == LLVMFAdd ? Z3_mk_fpa_add(*Z, rne, x, y) : opc == LLVMFSub ? Z3_mk_fpa_sub(*Z, rne, x, y) : opc == LLVMFMul ? Z3_mk_fpa_mul(*Z, rne, x, y) : Z3_mk_fpa_div(*Z, rne, x, y));
        }
        double x = fpOf(a), y = fpOf(b);
        return fpTo(opc == LLVMFAdd ? x + y : opc == LLVMFSub ? x - y : opc == LLVMFMul ? x * y : x / y, w);
    }
    bool div = opc == LLVMUDiv || opc == LLVMSDiv || opc == LLVMURem || opc == LLVMSRem;
    if (a.k == KU || b.k == KU || a.k == KB || b.k == KB) {
        if (opc == LLVMAnd && ((a.k == KC && a.c == 0) || (b.k == KC && b.c == 0))) return conc(0, w);
        if (div) throw PathErr{"uninit", "division involving an uninitialised value"};
        return undef(w);
    }
    if (a.k == KC && b.k == KC && w <= 64) {
        u64 x = a.c, y = b.c;
        switch (opc) {
            case LLVMAdd: return conc(x + y, w);
            case LLVMSub: return conc(x - y, w);
            case LLVMMul: return conc(x * y, w);
            case LLVMAnd: return conc(x & y, w);
            case LLVMOr: return conc(x | y, w);
            case LLVMXor: return conc(x ^ y, w);
            case LLVMShl: return y >= w ? undef(w) : conc(x << y, w);
            case LLVMLShr: return y >= w ? undef(w) : conc(x >> y, w);
            case LLVMAShr: return y >= w ? undef(w) : conc((u64)(sext(x, w) >> y), w);
            default: break;
        }
        if (y == 0) throw PathErr{"div", "division by zero"};
        switch (opc) {
            case LLVMUDiv: return conc(x / y, w);
            case LLVMURem: return conc(x % y, w);
            case LLVMSDiv: return conc((u64)(sext(x, w) / sext(y, w)), w);
            case LLVMSRem: return conc((u64)(sext(x, w) % sext(y, w)), w);
            default: break;
        }
    }
    z3::expr x = ex(a), y = ex(b);
    if (div && !decide(s, y != Z->bv_val(0, w))) throw PathErr{"div", "division by zero"};
    switch (opc) {
        case LLVMAdd: return symv(x + y);
        case LLVMSub: return symv(x - y);
        case LLVMMul: return symv(x * y);
        case LLVMAnd: return symv(x & y);
        case LLVMOr: return symv(x | y);
        case LLVMXor: return symv(x ^ y);
        case LLVMShl: return symv(z3::shl(x, y));
        case LLVMLShr: return symv(z3::lshr(x, y));
        case LLVMAShr: return symv(z3::ashr(x, y));
        case LLVMUDiv: return symv(z3::udiv(x, y));
        case LLVMURem: return symv(z3::urem(x, y));
        case LLVMSDiv: return symv(x / y);
        case LLVMSRem: return symv(z3::srem(x, y));
    }
    unsupported("binary op");
}
static Val icmp(unsigned p, const Val& a, const Val& b) {
    if (a.k == KU || b.k == KU || a.k == KB || b.k == KB) return undef(1);
    if (a.k == KC && b.k == KC) {
        u64 x = a.c, y = b.c; i64 sx = sext(x, a.w), sy = sext(y, a.w);
        switch (p) {
            case LLVMIntEQ: return conc(x == y, 1);
            case LLVMIntNE: return conc(x != y, 1);
            case LLVMIntUGT: return conc(x > y, 1);
            case LLVMIntUGE: return conc(x >= y, 1);
            case LLVMIntULT: return conc(x < y, 1);
            case LLVMIntULE: return conc(x <= y, 1);
            case LLVMIntSGT: return conc(sx > sy, 1);
            case LLVMIntSGE: return conc(sx >= sy, 1);
            case LLVMIntSLT: return conc(sx < sy, 1);
            case LLVMIntSLE: return conc(sx <= sy, 1);
        }
    }
    z3::expr x = ex(a), y = ex(b);
    switch (p) {
        case LLVMIntEQ: return symv(b2bv(x == y));
        case LLVMIntNE: return symv(b2bv(x != y));
        case LLVMIntUGT: return symv(b2bv(z3::ugt(x, y)));
        case LLVMIntUGE: return symv(b2bv(z3::uge(x, y)));
        case LLVMIntULT: return symv(b2bv(z3::ult(x, y)));
        case LLVMIntULE: return symv(b2bv(z3::ule(x, y)));
        case LLVMIntSGT: return symv(b2bv(x > y));
        case LLVMIntSGE: return symv(b2bv(x >= y));
        case LLVMIntSLT: return symv(b2bv(x < y));
        case LLVMIntSLE: return symv(b2bv(x <= y));
    }
    unsupported("icmp predicate");
}
static bool fcmp(unsigned p, double x, double y) {
    bool un = x != x || y != y;
    switch (p) {
        case LLVMRealOEQ: return !un && x == y;
        case LLVMRealOGT: return !un && x > y;
        case LLVMRealOGE: return !un && x >= y;
        case LLVMRealOLT: return !un && x < y;
        case LLVMRealOLE: return !un && x <= y;
        case LLVMRealONE: return !un && x != y;
        case LLVMRealORD: return !un;
        case LLVMRealUNO: return un;
        case LLVMRealUEQ: return un || x == y;
        case LLVMRealUGT: return un || x > y;
        case LLVMRealUGE: return un || x >= y;
        case LLVMRealULT: return un || x < y;
        case LLVMRealULE: return un || x <= y;
        case LLVMRealUNE: return un || x != y;
    }
    return false;
}
static Val fcmpSym(unsigned p, const Val& a, const Val& b) {
    if (a.k == KU || b.k == KU || a.k == KB || b.k == KB) return undef(1);
    z3::expr x = fpEx(a), y = fpEx(b);
    auto w = [](Z3_ast e) { return z3::expr(*Z, e); };
    z3::expr un = w(Z3_mk_fpa_is_nan(*Z, x)) || w(Z3_mk_fpa_is_nan(*Z, y)), eq = w(Z3_mk_fpa_eq(*Z, x, y)), lt = w(Z3_mk_fpa_lt(*Z, x, y)), gt = w(Z3_mk_fpa_gt(*Z, x, y));
    switch (p) {
        case LLVMRealOEQ: return symv(b2bv(eq));
        case LLVMRealOGT: return symv(b2bv(gt));
        case LLVMRealOGE: return symv(b2bv(gt || eq));
        case LLVMRealOLT: return symv(b2bv(lt));
        case LLVMRealOLE: return symv(b2bv(lt || eq));
        case LLVMRealONE: return symv(b2bv(lt || gt));
        case LLVMRealORD: return symv(b2bv(!un));
        case LLVMRealUNO: return symv(b2bv(un));
        case LLVMRealUEQ: return symv(b2bv(un || eq));
        case LLVMRealUGT: return symv(b2bv(un || gt));
        case LLVMRealUGE: return symv(b2bv(un || gt || eq));
        case LLVMRealULT: return symv(b2bv(un || lt));
        case LLVMRealULE: return symv(b2bv(un || lt || eq));
        case LLVMRealUNE: return symv(b2bv(!eq));
    }
    unsupported("fcmp predicate");
}

enum Builtin {
    B_NONE, B_NOP, B_SX_U32, B_SX_U64, B_SX_BOOL, B_SX_BELOW, B_SX_ASSUME, B_SX_ASSERT, B_SX_OBS, B_SX_COVER, B_SX_MALLOC, B_SX_FREE,
    B_SX_HEAPLIVE, B_SX_CONC, B_SX_SYMBOLIC, B_SX_INSIDE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_STRCMP, B_NEW, B_DELETE,
    B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_TERMINATE, B_ABORT, B_ASSERTFAIL,
    B_TYPEIDFOR, B_IDENT, B_EXPECT, B_OVERFLOW, B_GUARD_ACQ, B_TI_EQ, B_TI_BEFORE, B_EXC_WHAT, B_ATEXIT, B_TRAP, B_ISCONST, B_OBJSIZE, B_MINMAX,
    B_GETEXCPTR, B_FSH, B_ABS, B_TI_NAME, B_TI_HASH, B_REG_ADD, B_REG_DEL, B_REG_CHECK, B_REG_HAS, B_REG_COUNT, B_SHARED, B_GUARD_REL
};
static int classify(const string& n) {
    static const std::map<string, int> m = {
        {"sx_u32", B_SX_U32}, {"sx_u64", B_SX_U64}, {"sx_bool", B_SX_BOOL}, {"sx_below", B_SX_BELOW}, {"sx_assume", B_SX_ASSUME},
        {"sx_assert", B_SX_ASSERT}, {"sx_obs", B_SX_OBS}, {"sx_cover", B_SX_COVER}, {"sx_malloc", B_SX_MALLOC}, {"sx_free", B_SX_FREE},
        {"sx_heap_live", B_SX_HEAPLIVE}, {"sx_concretize", B_SX_CONC}, {"sx_is_symbolic_run", B_SX_SYMBOLIC}, {"sx_alloc_inside", B_SX_INSIDE},
        {"sx_reg_add", B_REG_ADD}, {"sx_reg_del", B_REG_DEL}, {"sx_reg_check", B_REG_CHECK}, {"sx_reg_has", B_REG_HAS}, {"sx_reg_count", B_REG_COUNT}, {"sx_shared", B_SHARED},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP},
        {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"malloc", B_NEW}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"free", B_DELETE},
        {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE},
        {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW},
        {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW},
        {"__cxa_get_exception_ptr", B_GETEXCPTR},
        {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_call_unexpected", B_TERMINATE}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL},
        {"_ZNSt11logic_errorC2EPKc", B_NOP}, {"_ZNSt11logic_errorC2ERKS_", B_NOP}, {"_ZNSt11logic_errorC2EOS_", B_NOP}, {"_ZNSt11logic_errorD2Ev", B_NOP}, {"_ZNSt13runtime_errorC2EPKc", B_NOP}, {"_ZNSt13runtime_errorC2ERKS_", B_NOP}, {"_ZNSt13runtime_errorC2EOS_", B_NOP}, {"_ZNSt13runtime_errorD2Ev", B_NOP},
        {"_ZNSt8bad_castD2Ev", B_NOP}, {"_ZNSt8bad_castD1Ev", B_NOP},
        {"_ZNSt9exceptionD2Ev", B_NOP}, {"_ZNSt9exceptionD1Ev", B_NOP}, {"_ZNSt9bad_allocD2Ev", B_NOP}, {"_ZNSt9bad_allocD1Ev", B_NOP},
        {"_ZNKSt9exception4whatEv", B_EXC_WHAT}, {"_ZNKSt11logic_error4whatEv", B_EXC_WHAT}, {"_ZNKSt13runtime_error4whatEv", B_EXC_WHAT}, {"_ZNKSt9bad_alloc4whatEv", B_EXC_WHAT}, {"_ZNKSt8bad_cast4whatEv", B_EXC_WHAT}, {"__cxa_atexit", B_ATEXIT}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_GUARD_REL},
        {"_ZNKSt9type_infoeqERKS_", B_TI_EQ}, {"_ZNKSt9type_info6beforeERKS_", B_TI_BEFORE}, {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP},
    };
    auto it = m.find(n);
    if (it != m.end()) return it->second;
    auto pre = [&](const char* p) { return n.rfind(p, 0) == 0; };
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return B_MEMCPY;
    if (pre("llvm.memset")) return B_MEMSET;
    if (pre("llvm.dbg") || pre("llvm.lifetime") || pre("llvm.assume") || pre("llvm.stacksave") || pre("llvm.stackrestore") ||
        pre("llvm.donothing") || pre("llvm.experimental.noalias") || pre("llvm.invariant") || pre("llvm.sideeffect")) return B_NOP;
    if (pre("llvm.eh.typeid.for")) return B_TYPEIDFOR;
    if (pre("llvm.launder") || pre("llvm.strip") || pre("llvm.ptr.annotation") || pre("llvm.ssa.copy") || pre("llvm.threadlocal.address")) return B_IDENT;
    if (pre("llvm.expect")) return B_IDENT;
    if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) return B_TRAP;
    if (pre("llvm.is.constant")) return B_ISCONST;
    if (pre("llvm.objectsize")) return B_OBJSIZE;
    if (n.find(".with.overflow") != string::npos) return B_OVERFLOW;
    if (pre("llvm.umin") || pre("llvm.umax") || pre("llvm.smin") || pre("llvm.smax")) return B_MINMAX;
    if (pre("llvm.fshl") || pre("llvm.fshr")) return B_FSH;
    if (pre("llvm.abs")) return B_ABS;
    if (pre("_ZSt20__throw_length_error") || pre("_ZSt17__throw_bad_alloc") || pre("_ZSt28__throw_bad_array_new_length") || pre("_ZSt19__throw_logic_error") || pre("_ZSt24__throw_out_of_range")) return B_ABORT;
    return B_NONE;
}

static string where(State& s) {
    string r;
    int n = 0;
    for (int i = (int)s.st.size() - 1; i >= 0 && n < 12; --i, ++n) {
        Frame& f = s.st[i];
        int st; char* d = abi::__cxa_demangle(f.f->name.c_str(), 0, 0, &st);
        string nm = d ? d : f.f->name;
        if (d) free(d);
        if (nm.size() > 160) nm = nm.substr(0, 157) + "...";
        unsigned line = 0;
        if (f.b < (int)f.f->b.size() && f.i < (int)f.f->b[f.b].in.size()) line = LLVMGetDebugLocLine(f.f->b[f.b].in[f.i].v);
        r += nm + (line ? ":" + std::to_string(line) : "") + " <- ";
    }
    return r;
}

static void report(State& s, const string& kind, const string& msg) {
    ErrorInfo e;
    e.kind = kind; e.msg = msg; e.where = where(s);
    string key = kind + "|" + msg;
    if (errKeys[key]++ >= (kind == "unsupported" ? 8 : 3)) return;  // a few inputs of each, for the native confirmation
    ensureModel(s);
    for (auto& in : s.inputs) e.in.push_back({in.name, in.isC ? in.c : evalIn(*s.model, *in.e.p->e)});
    errors.push_back(e);
}

static std::map<string, u64> fixedInputs;  // --fix name=value: first input of that name (sharding)
static Val freshInput(State& s, const string& name, unsigned w) {
    auto fx = fixedInputs.find(name);
    if (fx != fixedInputs.end()) {
        bool seen = false;
        for (auto& in : s.inputs) if (in.name == name) { seen = true; break; }
        if (!seen) {
            Input in; in.name = name; in.w = w; in.isC = true; in.c = fx->second;
            s.inputs.push_back(in);
            return conc(fx->second, w);
        }
    }
    // The variable is named by its position, so a replayed path gives the same one.
    z3::expr e = Z->bv_const(("in" + std::to_string(s.inputs.size()) + "_" + std::to_string(w)).c_str(), w);
    Val v; v.k = KS; v.w = w; Node* n = new Node; n->e.reset(new z3::expr(e)); v.n = NodeRef(n);
    Input in; in.name = name; in.w = w; in.e = v.n; in.isC = false; in.c = 0;
    s.inputs.push_back(in);
    return v;
}

static void setDst(Frame& f, const Inst& I, const Val& v) { if (I.dst >= 0) f.r[I.dst] = v; }
static void advance(State& s) {  // after a finished call instruction
    Frame& f = s.st.back();
    Inst& I = f.f->b[f.b].in[f.i];
    if (I.op == O_CALL && I.invoke) { f.prev = f.b; f.b = I.t0; f.i = 0; }
    else ++f.i;
}

static void pushCall(State& s, Func* g, const vector<Val>& args, int retDst) {
    if (s.st.size() > 600) throw PathErr{"recursion", "call depth limit exceeded"};
    prepare(g);
    ++g->hits;
    Frame nf;
    nf.f = g; nf.r.resize(g->nregs);
    for (int i = 0; i < g->nargs && i < (int)args.size(); ++i) nf.r[i] = args[i];
    nf.retDst = retDst;
    s.st.push_back(std::move(nf));
}

static void doThrow(State& s, u64 obj, u64 ti) { unwind(s, obj, ti); }

// returns true if the call instruction has completed (advance), false if control was transferred
static bool callBuiltin(State& s, Func* g, Inst& I, vector<Val>& a) {
    Frame& f = s.st.back();
    auto C = [&](int k, const char* what) { return concretize(s, a[k], what); };
    switch (g->builtin) {
        case B_NOP: if (I.dst >= 0) setDst(f, I, conc(0, I.w)); return true;
        case B_SX_U32: { string n = loadStr(s, C(0, "name")); setDst(f, I, freshInput(s, n, 32)); return true; }
        case B_SX_U64: { string n = loadStr(s, C(0, "name")); setDst(f, I, freshInput(s, n, 64)); return true; }
        case B_SX_BOOL: {
            string n = loadStr(s, C(0, "name"));
            Val v = freshInput(s, n, 1);
            setDst(f, I, castOp(LLVMZExt, v, I.w));
            return true;
        }
        case B_SX_BELOW: {
            u64 lim = C(0, "limit");
            string n = loadStr(s, C(1, "name"));
            Val v = freshInput(s, n, 32);
            if (v.k == KC) { if (v.c >= lim) throw PathEnd(); setDst(f, I, v); return true; }
            z3::expr b = z3::ult(ex(v), Z->bv_val((uint64_t)lim, 32));
            s.pc.push_back(b); s.model.reset();
            setDst(f, I, v);
            return true;
        }
        case B_SX_ASSUME: {
            if (a[0].k == KC) { if (!a[0].c) throw PathEnd(); return true; }
            if (a[0].k != KS) throw PathErr{"uninit", "assumption on an uninitialised value"};
            z3::expr b = asBool(a[0]);
            bool v;
            if (!(modelSays(s, b, v) && v)) {
                ModelP m;
                if (!isSat(s, &b, &m)) throw PathEnd();
                s.model = m;
            }
            s.pc.push_back(b);
            return true;
        }
        case B_SX_ASSERT: {
            ++nAsserts;
            string msg = loadStr(s, C(1, "message"));
            if (a[0].k == KC) { if (!a[0].c) throw PathErr{"assert", msg}; return true; }
            if (a[0].k != KS) throw PathErr{"uninit", "assertion on an uninitialised value: " + msg};
            z3::expr b = asBool(a[0]);
            if (b.is_true()) return true;
            z3::expr nb = !b;
            ModelP m;
            ++nAssertQ;
            if (isSat(s, &nb, &m, true)) {
                auto o = std::make_unique<State>(s);
                o->pc.push_back(nb); o->model = m;
                report(*o, "assert", msg);
                ++nErrPaths;
                ModelP m2;
                if (!isSat(s, &b, &m2)) throw PathEnd();
                s.pc.push_back(b); s.model = m2;
            }
            return true;
        }
        case B_SX_OBS: s.obs.push_back(a[0]); if (a[0].k != KC && a[0].k != KS) throw PathErr{"uninit", "observation of an uninitialised value"}; return true;
        case B_SX_COVER: s.covers.insert(loadStr(s, C(0, "label"))); return true;
        case B_SX_CONC: setDst(f, I, conc(C(0, "concretized value"), I.w)); return true;
        case B_SX_SYMBOLIC: setDst(f, I, conc(1, I.w)); return true;
        case B_SX_INSIDE: {  // (inner, innersize, outer, outersize)
            u64 p = C(0, "pointer"), n = C(1, "size"), q = C(2, "pointer"), m = C(3, "size");
            setDst(f, I, conc(p >= q && p + n <= q + m, I.w)); return true;
        }
        case B_SX_MALLOC: case B_NEW: {
            u64 n = C(0, "allocation size");
            if (n > (1u << 20)) throw PathErr{"memory", "huge allocation"};
            u64 p = newObj(s, n, 16, 1, "heap");
            ++s.liveHeap;
            setDst(f, I, conc(p, 64));
            return true;
        }
        case B_SX_FREE: case B_DELETE: {
            u64 p = C(0, "pointer to free");
            if (!p) return true;
            auto it = s.mem.find(p);
            if (it == s.mem.end()) throw PathErr{"memory", "free of an invalid or already freed pointer"};
            if (it->second->kind != 1) throw PathErr{"memory", "free of memory that is not a heap block"};
            {
                auto r = s.reg.lower_bound(p);
                if (r != s.reg.end() && r->first < p + it->second->size) throw PathErr{"lifetime", "memory released while an object in it is alive"};
            }
            if (s.shared && it->second->base < s.shHeap) throw PathErr{"race", "release of memory another thread may be reading"};
            s.mem.erase(it);
            --s.liveHeap;
            return true;
        }
        case B_REG_ADD: {
            u64 p = C(0, "object"), n = C(1, "size"); int tag = (int)C(2, "tag");
            auto it = s.reg.lower_bound(p);
            if (it != s.reg.end() && it->first < p + n) throw PathErr{"lifetime", "object constructed over a live object"};
            if (it != s.reg.begin()) { --it; if (it->first + it->second.first > p) throw PathErr{"lifetime", "object constructed over a live object"}; }
            s.reg[p] = {n, tag};
            return true;
        }
        case B_REG_DEL: case B_REG_CHECK: case B_REG_HAS: {
            u64 p = C(0, "object"); int tag = (int)C(1, "tag");
            auto it = s.reg.find(p);
            bool has = it != s.reg.end() && it->second.second == tag;
            if (g->builtin == B_REG_HAS) { setDst(f, I, conc(has, I.w)); return true; }
            if (!has) throw PathErr{"lifetime", g->builtin == B_REG_DEL ? "destruction of an object that is not alive" : "use of an object that is not alive"};
            if (g->builtin == B_REG_DEL) {  // what is left of a destroyed object is indeterminate
                u64 n = it->second.first, dof; s.reg.erase(it);
                Obj* q = access(s, p, n, true, dof);
                for (u64 i = 0; i < n; ++i) q->d[dof + i] = Cell();
            }
            return true;
        }
        case B_REG_COUNT: setDst(f, I, conc(s.reg.size(), I.w)); return true;
        case B_SX_HEAPLIVE: setDst(f, I, conc(s.liveHeap, I.w)); return true;
        case B_MEMCPY: {
            u64 n = C(2, "copy size"), d = C(0, "copy destination"), src = C(1, "copy source");
            if (n) {
                u64 so, dof;
                Obj* o = access(s, src, n, false, so);
                vector<Cell> tmp(o->d.begin() + so, o->d.begin() + so + n);
                Obj* q = access(s, d, n, true, dof);
                std::copy(tmp.begin(), tmp.end(), q->d.begin() + dof);
            }
            if (I.dst >= 0) setDst(f, I, conc(d, 64));
            return true;
        }
        case B_MEMSET: {
            u64 n = C(2, "set size"), d = C(0, "set destination");
            if (n) {
                u64 dof; Obj* q = access(s, d, n, true, dof);
                Val b = castOp(LLVMTrunc, a[1], 8);
                for (u64 i = 0; i < n; ++i) putVal(&q->d[dof + i], b, 1);
            }
            if (I.dst >= 0) setDst(f, I, conc(d, 64));
            return true;
        }
        case B_MEMCMP: {
            u64 n = C(2, "size"), x = C(0, "pointer"), y = C(1, "pointer");
            int r = 0;
            for (u64 i = 0; i < n && !r; ++i) r = (int)loadU(s, x + i, 1) - (int)loadU(s, y + i, 1);
            setDst(f, I, conc((u64)(i64)r, I.w)); return true;
        }
        case B_STRLEN: setDst(f, I, conc(loadStr(s, C(0, "string")).size(), I.w)); return true;
        case B_STRCMP: setDst(f, I, conc((u64)(i64)loadStr(s, C(0, "string")).compare(loadStr(s, C(1, "string"))), I.w)); return true;
        case B_CXA_ALLOC: { u64 p = newObj(s, std::max<u64>(C(0, "size"), 1), 16, 4, "exception"); setDst(f, I, conc(p, 64)); return true; }
        case B_CXA_FREE: s.mem.erase(C(0, "pointer")); return true;
        case B_CXA_THROW: {
            u64 o = C(0, "exception"), ti = C(1, "type"), d = C(2, "destructor");
            s.excs.push_back({o, ti, d, 0});
            doThrow(s, o, ti);
            return false;
        }
        case B_CXA_RETHROW: {
            if (s.caught.empty()) throw PathErr{"terminate", "rethrow with no exception"};
            Exc* e = excOf(s, s.caught.back());
            e->handlers = -e->handlers;
            doThrow(s, e->obj, e->ti);
            return false;
        }
        case B_GETEXCPTR: setDst(f, I, a[0]); return true;
        case B_CXA_BEGIN: {
            u64 p = C(0, "exception");
            Exc* e = excOf(s, p);
            if (!e) throw PathErr{"memory", "catch of an unknown exception object"};
            e->handlers = (e->handlers < 0 ? -e->handlers : e->handlers) + 1;
            if (s.caught.empty() || s.caught.back() != p) s.caught.push_back(p);
            // adjusted pointer: recompute against the selected type
            u64 adj = p;
            for (auto& t : typeIds) if ((u64)t.second == s.landSel && t.first) { tiMatch(s, e->ti, t.first, adj); break; }
            setDst(f, I, conc(adj, 64));
            return true;
        }
        case B_CXA_END: {
            if (s.caught.empty()) throw PathErr{"terminate", "end of catch with no exception"};
            u64 p = s.caught.back();
            Exc* e = excOf(s, p);
            if (e->handlers < 0) {
                if (++e->handlers == 0) s.caught.pop_back();
                return true;
            }
            if (--e->handlers == 0) {
                s.caught.pop_back();
                if (e->dtor) {
                    Func* d = funcAt.at(e->dtor);
                    if (d->defined) {
                        pushCall(s, d, {conc(p, 64)}, -1);
                        s.st.back().freeOnRet = p;
                        return false;
                    }
                }
                freeExc(s, p);
            }
            return true;
        }
        case B_TERMINATE: throw PathErr{"terminate", "std::terminate called (exception escaped a noexcept function)"};
        case B_ABORT: throw PathErr{"abort", "abort called"};
        case B_TRAP: throw PathErr{"abort", "trap executed"};
        case B_ASSERTFAIL: throw PathErr{"assertfail", "assertion failed in the library: " + loadStr(s, C(0, "string"))};
        case B_TYPEIDFOR: setDst(f, I, conc((u64)typeId(C(0, "type")), I.w)); return true;
        case B_IDENT: setDst(f, I, a[0]); return true;
        case B_GUARD_ACQ: {
            u64 p = C(0, "guard");
            u64 v = loadU(s, p, 1);
            if (!v) { u64 off; ++s.guards; Obj* o = access(s, p, 1, true, off); putVal(&o->d[off], conc(1, 8), 1); }
            setDst(f, I, conc(!v, I.w)); return true;
        }
        case B_GUARD_REL: --s.guards; return true;
        case B_SHARED:
            s.shared = C(0, "flag") != 0; s.shStack = s.nextStack; s.shHeap = s.nextHeap;
            setDst(f, I, conc(0, I.w)); return true;
        case B_TI_EQ: setDst(f, I, conc(C(0, "type") == C(1, "type"), I.w)); return true;
        case B_TI_BEFORE: setDst(f, I, conc(C(0, "type") < C(1, "type"), I.w)); return true;
        case B_EXC_WHAT: setDst(f, I, conc(0, 64)); return true;
        case B_ATEXIT: setDst(f, I, conc(0, I.w)); return true;
        case B_ISCONST: setDst(f, I, conc(0, I.w)); return true;
        case B_OBJSIZE: setDst(f, I, conc(~0ull, I.w)); return true;
        case B_ABS: {
            if (a[0].k == KC) { i64 x = sext(a[0].c, a[0].w); setDst(f, I, conc((u64)(x < 0 ? -x : x), I.w)); return true; }
            z3::expr x = ex(a[0]);
            setDst(f, I, symv(z3::ite(x < Z->bv_val(0, I.w), -x, x))); return true;
        }
        case B_MINMAX: {
            bool sgn = g->name[5] == 's', mn = g->name.substr(6, 3) == "min";
            Val c = icmp(sgn ? LLVMIntSLT : LLVMIntULT, a[0], a[1]);
            if (c.k == KC) setDst(f, I, (c.c != 0) == mn ? a[0] : a[1]);
            else setDst(f, I, symv(z3::ite(asBool(c), mn ? ex(a[0]) : ex(a[1]), mn ? ex(a[1]) : ex(a[0]))));
            return true;
        }
        case B_FSH: {
            bool left = g->name.rfind("llvm.fshl", 0) == 0;
            u64 k = C(2, "funnel shift amount") % I.w;
            z3::expr c = z3::concat(ex(a[0]), ex(a[1]));
            unsigned lo = left ? (unsigned)(I.w - k) : (unsigned)k;
            setDst(f, I, symv(c.extract(lo + I.w - 1, lo)));
            return true;
        }
        case B_OVERFLOW: {
            unsigned w = a[0].w;
            const string& n = g->name;
            bool sg = n.find("llvm.s") == 0;
            unsigned opc = n.find("mul") != string::npos ? LLVMMul : n.find("add") != string::npos ? LLVMAdd : LLVMSub;
            Val r = binOp(s, opc, a[0], a[1]);
            z3::expr x = sg ? z3::sext(ex(a[0]), w) : z3::zext(ex(a[0]), w), y = sg ? z3::sext(ex(a[1]), w) : z3::zext(ex(a[1]), w);
            z3::expr z = opc == LLVMMul ? x * y : opc == LLVMAdd ? x + y : x - y;
            z3::expr rr = sg ? z3::sext(ex(r), w) : z3::zext(ex(r), w);
            Val o = symv(b2bv(z != rr));
            Val ag; ag.k = KA; Node* nd = new Node; nd->el = {r, o}; ag.n = NodeRef(nd);
            setDst(f, I, ag);
            return true;
        }
    }
    int st; char* d = abi::__cxa_demangle(g->name.c_str(), 0, 0, &st);
    string nm = d ? d : g->name; if (d) free(d);
    unsupported("call of external function " + nm);
}

static void finishPath(State& s);
static vector<string> sampleJson;

static string jesc(const string& x) {
    string r;
    for (unsigned char c : x) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32) r += ' ';
        else r += (char)c;
    }
    return r;
}

static u64 sampleSeed = 1;
static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

static void finishPath(State& s) {
    ++nPaths;
    for (auto& c : s.covers) allCovers.insert(c);
    if (checkLeaks && s.liveHeap) throw PathErr{"leak", "heap memory still allocated at the end (" + std::to_string(s.liveHeap) + " block(s))"};
    // reservoir sample of passing paths, for validation against the native build
    if (nSamples) {
        u64 slot = sampleJson.size() < nSamples ? sampleJson.size() : rnd() % nPaths;
        if (slot < nSamples) {
            // move free value inputs away from zero, so that the comparison is not vacuous
            for (auto& in : s.inputs)
                if (!in.isC && in.w >= 32) {
                    z3::expr e = (*in.e.p->e == Z->bv_val((uint64_t)(rnd() & mask(in.w)), in.w));
                    ModelP m;
                    if (isSat(s, &e, &m)) { s.pc.push_back(e); s.model = m; }
                }
            ensureModel(s);
            std::ostringstream o;
            o << "{\"inputs\":[";
            bool first = true;
            for (auto& in : s.inputs) { o << (first ? "" : ",") << "[\"" << jesc(in.name) << "\"," << (in.isC ? in.c : evalIn(*s.model, *in.e.p->e)) << "]"; first = false; }
            o << "],\"obs\":[";
            first = true;
            for (auto& v : s.obs) { o << (first ? "" : ",") << evalVal(s, v); first = false; }
            o << "]}";
            if (slot == sampleJson.size()) sampleJson.push_back(o.str()); else sampleJson[slot] = o.str();
        }
    }
}

// run one state until it ends
static void runState(State& s) {
    for (;;) {
        if (s.st.empty()) {
            ++s.phase;
            if (s.phase >= (int)runList.size()) { finishPath(s); return; }
            pushCall(s, runList[s.phase], {}, -1);
        }
        Frame& f = s.st.back();
        Inst& I = f.f->b[f.b].in[f.i];
        ++nSteps;
        if (++s.steps > maxStepsPerPath) throw PathErr{"steps", "step limit exceeded (non-termination?)"};
        if ((nSteps & 0xffff) == 0 && now() - t0 > timeLimit) unsupported("time limit exceeded");
        auto V = [&](int k) -> const Val& { return opv(f, I.a[k]); };
        switch (I.op) {
            case O_RET: {
                Val v;
                if (!I.a.empty()) v = V(0);
                int rd = f.retDst;
                u64 fo = f.freeOnRet;
                popFrame(s);
                if (fo) freeExc(s, fo);
                if (s.st.empty()) break;
                if (rd >= 0) s.st.back().r[rd] = v;
                advance(s);
                break;
            }
            case O_BR: f.prev = f.b; f.b = I.t0; f.i = 0; break;
            case O_CBR: {
                const Val& c = V(0);
                bool t;
                if (c.k == KC) t = c.c & 1;
                else if (c.k == KS) { z3::expr b = asBool(c); t = decide(s, b); }
                else throw PathErr{"uninit", "branch on an uninitialised value"};
                f.prev = f.b; f.b = t ? I.t0 : I.t1; f.i = 0;
                break;
            }
            case O_SWITCH: {
                const Val& c = V(0);
                int t = -1;
                if (c.k == KC) {
                    t = I.t0;
                    for (auto& x : I.cases) if (x.first == c.c) { t = x.second; break; }
                } else if (c.k == KS) {
                    z3::expr e = ex(c);
                    for (auto& x : I.cases)
                        if (decide(s, e == Z->bv_val((uint64_t)x.first, c.w))) { t = x.second; break; }
                    if (t < 0) t = I.t0;
                } else throw PathErr{"uninit", "switch on an uninitialised value"};
                f.prev = f.b; f.b = t; f.i = 0;
                break;
            }
            case O_UNREACH: throw PathErr{"unreachable", "unreachable code executed"};
            case O_RESUME: {
                u64 obj = s.unwindObj, ti = s.unwindTi;
                const Val& v = V(0);
                if (v.k == KA && v.n.p->el[0].k == KC) {
                    obj = v.n.p->el[0].c;
                    Exc* e = excOf(s, obj);
                    if (!e) throw PathErr{"memory", "resume of an unknown exception"};
                    ti = e->ti;
                }
                if (s.st.size() == 1) throw PathErr{"uncaught", "exception left the harness"};
                popFrame(s);
                unwind(s, obj, ti);
                break;
            }
            case O_ALLOCA: {
                u64 n = concretize(s, V(0), "alloca size");
                u64 p = newObj(s, I.size * n, I.align, 0, "stack");
                f.allocas.push_back(p);
                f.r[I.dst] = conc(p, 64);
                ++f.i;
                break;
            }
            case O_LOAD: {
                u64 a = concretize(s, V(0), "load address");
                checkAlign(a, I.align);
                f.r[I.dst] = loadTy(s, a, I.ty);
                ++f.i;
                break;
            }
            case O_STORE: {
                u64 a = concretize(s, V(1), "store address");
                checkAlign(a, I.align);
                storeTy(s, a, I.ty, V(0));
                ++f.i;
                break;
            }
            case O_GEP: {
                const Val& b = V(0);
                bool c = b.k == KC;
                for (auto& x : I.scaled) if (opv(f, x.first).k != KC) c = false;
                if (c) {
                    u64 p = b.c + I.off;
                    for (auto& x : I.scaled) { const Val& ix = opv(f, x.first); p += (u64)(sext(ix.c, ix.w) * x.second); }
                    f.r[I.dst] = conc(p, 64);
                } else {
                    if (b.k == KU || b.k == KB) { f.r[I.dst] = undef(64); ++f.i; break; }
                    z3::expr e = ex(b) + Z->bv_val((uint64_t)(u64)I.off, 64);
                    bool und = false;
                    for (auto& x : I.scaled) {
                        const Val& ix = opv(f, x.first);
                        if (ix.k == KU || ix.k == KB) { und = true; break; }
                        z3::expr q = ex(ix);
                        if (ix.w < 64) q = z3::sext(q, 64 - ix.w);
                        e = e + q * Z->bv_val((uint64_t)(u64)x.second, 64);
                    }
                    f.r[I.dst] = und ? undef(64) : symv(e);
                }
                ++f.i;
                break;
            }
            case O_BIN: { Val r = binOp(s, I.sub, V(0), V(1)); f.r[I.dst] = r; ++f.i; break; }
            case O_ICMP: f.r[I.dst] = icmp(I.sub, V(0), V(1)); ++f.i; break;
            case O_FCMP:
                if (V(0).k != KC || V(1).k != KC) f.r[I.dst] = fcmpSym(I.sub, V(0), V(1));
                else f.r[I.dst] = conc(fcmp(I.sub, fpOf(V(0)), fpOf(V(1))), 1);
                ++f.i; break;
            case O_FNEG: f.r[I.dst] = fpTo(-fpOf(V(0)), I.w); ++f.i; break;
            case O_CAST: {
                const Val& v = V(0);
                switch (I.sub) {
                    case LLVMSIToFP: case LLVMUIToFP: case LLVMFPToSI: case LLVMFPToUI: case LLVMFPExt: case LLVMFPTrunc: { Val r = fpCast(I.sub, v, I.w); f.r[I.dst] = r; break; }
                    default: { Val r = castOp(I.sub, v, I.w); f.r[I.dst] = r; }
                }
                ++f.i;
                break;
            }
            case O_SELECT: {
                const Val& c = V(0);
                if (c.k == KC) { Val r = c.c & 1 ? V(1) : V(2); f.r[I.dst] = r; }
                else if (c.k == KS) {
                    const Val &x = V(1), &y = V(2);
                    if ((x.k == KC || x.k == KS) && (y.k == KC || y.k == KS)) f.r[I.dst] = symv(z3::ite(asBool(c), ex(x), ex(y)));
                    else { bool t = decide(s, asBool(c)); Val r = t ? x : y; f.r[I.dst] = r; }
                } else throw PathErr{"uninit", "select on an uninitialised value"};
                ++f.i;
                break;
            }
            case O_PHI: {
                // evaluate all phis of the block simultaneously
                Block& B = f.f->b[f.b];
                vector<std::pair<int, Val>> upd;
                size_t k = f.i;
                for (; k < B.in.size() && B.in[k].op == O_PHI; ++k) {
                    bool ok = false;
                    for (auto& x : B.in[k].phi) if (x.first == f.prev) { upd.push_back({B.in[k].dst, opv(f, x.second)}); ok = true; break; }
                    if (!ok) unsupported("phi predecessor");
                }
                for (auto& u : upd) f.r[u.first] = u.second;
                f.i = (int)k;
                break;
            }
            case O_CALL: {
                Func* g = I.callee;
                if (!g) {
                    u64 p = concretize(s, opv(f, I.calleeOp), "call target");
                    auto it = funcAt.find(p);
                    if (it == funcAt.end()) throw PathErr{"memory", p == 0 ? "call through a null function pointer" : "call through an invalid function pointer"};
                    g = it->second;
                }
                vector<Val> args;
                args.reserve(I.a.size());
                for (int o : I.a) args.push_back(opv(f, o));
                if (g->builtin > 0 || !g->defined) {
                    if (callBuiltin(s, g, I, args)) advance(s);
                    break;
                }
                for (size_t k = 0; k < args.size(); ++k)
                    if (I.byval[k]) {
                        u64 src = concretize(s, args[k], "byval argument");
                        u64 so, dof;
                        u64 n = I.byval[k];
                        u64 p = newObj(s, n, 16, 0, "byval");
                        Obj* o = access(s, src, n, false, so);
                        vector<Cell> tmp(o->d.begin() + so, o->d.begin() + so + n);
                        Obj* q = access(s, p, n, true, dof);
                        std::copy(tmp.begin(), tmp.end(), q->d.begin() + dof);
                        args[k] = conc(p, 64);
                        f.allocas.push_back(p);
                    }
                pushCall(s, g, args, I.dst);
                break;
            }
            case O_EXTRACT: {
                Val v = V(0);
                for (unsigned ix : I.idx) { if (v.k != KA) unsupported("extractvalue"); Val t = v.n.p->el[ix]; v = t; }
                f.r[I.dst] = v;
                ++f.i;
                break;
            }
            case O_INSERT: {
                if (I.idx.size() != 1) unsupported("nested insertvalue");
                const Val& ag = V(0);
                if (ag.k != KA) unsupported("insertvalue into non-aggregate");
                Val r; r.k = KA; Node* n = new Node; n->el = ag.n.p->el; n->el[I.idx[0]] = V(1); r.n = NodeRef(n);
                f.r[I.dst] = r;
                ++f.i;
                break;
            }
            case O_LPAD: {
                Val r; r.k = KA; Node* n = new Node; n->el = {conc(s.landPtr, 64), conc(s.landSel, 32)}; r.n = NodeRef(n);
                f.r[I.dst] = r;
                ++f.i;
                break;
            }
            case O_FREEZE: { Val v = V(0); if (v.k == KU) v = conc(0, v.w); f.r[I.dst] = v; ++f.i; break; }
            case O_FENCE: ++f.i; break;
            default: unsupported("instruction " + valStr(I.v));
        }
    }
}

int main(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: symex MODULE ENTRY [options]\n"); return 2; }
    string entry = argv[2];
    for (int i = 3; i < argc; ++i) {
        string a = argv[i];
        auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : "0"); };
        if (a == "--max-steps") maxStepsPerPath = std::stoull(nx());
        else if (a == "--time") timeLimit = std::stod(nx());
        else if (a == "--max-errors") maxErrors = std::stoi(nx());
        else if (a == "--samples") nSamples = (unsigned)std::stoul(nx());
        else if (a == "--seed") { sampleSeed = std::stoull(nx()); rngState ^= sampleSeed * 0x9e3779b97f4a7c15ull; }
        else if (a == "--fix") { string x = nx(); size_t p = x.find('='); fixedInputs[x.substr(0, p)] = std::stoull(x.substr(p + 1)); }
        else if (a == "--smt-dump") smtDump = nx();
        else if (a == "--query-timeout") queryTimeout = (unsigned)std::stoul(nx());
        else if (a == "--no-leak-check") checkLeaks = false;
    }
    t0 = now();
    z3::context zc;
    Z = &zc;
    keepAlive.reserve(1 << 16);
    z3::solver sv(zc, "QF_BV");
    z3::params pr(zc);
    pr.set("timeout", queryTimeout);
    sv.set(pr);
    S = &sv;

    LLVMMemoryBufferRef mb;
    char* err = nullptr;
    if (LLVMCreateMemoryBufferWithContentsOfFile(argv[1], &mb, &err)) { fprintf(stderr, "%s\n", err); return 2; }
    LLVMContextRef ctx = LLVMContextCreate();
    if (LLVMParseIRInContext(ctx, mb, &M, &err)) { fprintf(stderr, "%s\n", err); return 2; }
    TD = LLVMGetModuleDataLayout(M);
    byvalKind = LLVMGetEnumAttributeKindForName("byval", 5);

    u64 fa = 0x400000;
    vector<std::unique_ptr<Func>> funcs;
    Func* ent = nullptr;
    for (auto f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
        auto F = std::make_unique<Func>();
        size_t l; const char* n = LLVMGetValueName2(f, &l);
        F->name = string(n, l);
        F->addr = fa; fa += 16;
        F->defined = !LLVMIsDeclaration(f);
        F->v = f;
        F->builtin = F->defined ? 0 : classify(F->name);
        funcOf[f] = F.get(); funcAt[F->addr] = F.get();
        if (F->name == entry) ent = F.get();
        funcs.push_back(std::move(F));
    }
    if (!ent || !ent->defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    u64 ga = 0x10000000;
    for (auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        size_t l; const char* n = LLVMGetValueName2(g, &l);
        LLVMTypeRef t = LLVMGlobalGetValueType(g);
        u64 sz = LLVMTypeIsSized(t) ? LLVMABISizeOfType(TD, t) : 64;
        u64 al = std::max<u64>(LLVMGetAlignment(g), LLVMTypeIsSized(t) ? LLVMABIAlignmentOfType(TD, t) : 8);
        u64 b = place(ga, std::max<u64>(sz, 64), al);
        globAddr[g] = b; globByName[string(n, l)] = b;
    }
    vector<LLVMValueRef> ctors;
    for (auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        size_t l; const char* n = LLVMGetValueName2(g, &l);
        string nm(n, l);
        if (nm == "llvm.global_ctors") {
            LLVMValueRef in = LLVMGetInitializer(g);
            for (int i = 0; i < LLVMGetNumOperands(in); ++i) {
                LLVMValueRef fn = LLVMGetOperand(LLVMGetOperand(in, i), 1);
                if (LLVMIsAFunction(fn)) runList.push_back(funcOf.at(fn));
            }
            continue;
        }
        if (nm.rfind("llvm.", 0) == 0) continue;
        LLVMTypeRef t = LLVMGlobalGetValueType(g);
        auto o = std::make_shared<Obj>();
        o->base = globAddr[g]; o->name = nm;
        LLVMValueRef in = LLVMGetInitializer(g);
        if (LLVMIsDeclaration(g) || !in) {
            o->size = 64; o->opaque = true; o->kind = 3; o->d.resize(64);
            if (nm.rfind("_ZTI", 0) == 0 && nm.size() < 30) {  // type_info of a built-in type: a vtable pointer and the name
                string tn = nm.substr(4);
                o->opaque = false; o->size = 16 + tn.size() + 1; o->d.resize(o->size);
                u64 np = o->base + 16, vt = gname("_ZTVN10__cxxabiv117__class_type_infoE");
                for (int i = 0; i < 8; ++i) { o->d[i].tag = o->d[8 + i].tag = 1; o->d[i].v = (uint8_t)(vt >> 8 * i); o->d[8 + i].v = (uint8_t)(np >> 8 * i); }
                for (size_t i = 0; i <= tn.size(); ++i) { o->d[16 + i].tag = 1; o->d[16 + i].v = i < tn.size() ? (uint8_t)tn[i] : 0; }
            }
        } else {
            o->size = LLVMABISizeOfType(TD, t);
            o->kind = LLVMIsGlobalConstant(g) ? 3 : 2; o->local = LLVMIsThreadLocal(g);
            o->d.resize(o->size);
            for (auto& c : o->d) { c.tag = 1; c.v = 0; }  // padding
            initBytes(o->d, 0, t, constVal(in));
        }
        globalsInit[o->base] = o;
    }
    runList.push_back(ent);
    vtClass = gname("_ZTVN10__cxxabiv117__class_type_infoE");
    vtSi = gname("_ZTVN10__cxxabiv120__si_class_type_infoE");
    vtVmi = gname("_ZTVN10__cxxabiv121__vmi_class_type_infoE");

    auto s0 = std::make_unique<State>();
    s0->mem = globalsInit;
    s0->phase = -1;
    ++nStates;
    work.push_back(std::move(s0));
    bool complete = true;
    while (!work.empty()) {
        auto s = std::move(work.back());
        work.pop_back();
        if ((int)errKeys.size() >= maxErrors) { complete = false; break; }
        try {
            inPath = true;
            runState(*s);
            inPath = false;
        } catch (PathEnd&) {
            inPath = false;
            ++nPruned;
        } catch (PathErr& e) {
            inPath = false;
            ++nErrPaths;
            report(*s, e.kind, e.msg);
        } catch (z3::exception& e) {
            inPath = false;
            unsupported(string("z3: ") + e.msg());
        }
    }
    printf("{\"entry\":\"%s\",\"complete\":%s,\"paths\":%llu,\"pruned\":%llu,\"error_paths\":%llu,\"states\":%llu,\"forks\":%llu,\"instructions\":%llu,"
           "\"queries\":%llu,\"assertions\":%llu,\"assertion_queries\":%llu,\"model_cache_hits\":%llu,\"slice_cache_hits\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\n",
           jesc(entry).c_str(), complete ? "true" : "false", (unsigned long long)nPaths, (unsigned long long)nPruned, (unsigned long long)nErrPaths,
           (unsigned long long)nStates, (unsigned long long)nForks, (unsigned long long)nSteps, (unsigned long long)nQueries,
           (unsigned long long)nAsserts, (unsigned long long)nAssertQ, (unsigned long long)nModelHits, (unsigned long long)nSliceHits, solverTime, now() - t0);
    printf("\"covers\":[");
    bool first = true;
    for (auto& c : allCovers) { printf("%s\"%s\"", first ? "" : ",", jesc(c).c_str()); first = false; }
    printf("],\n\"functions\":[");
    first = true;
    for (auto& f : funcs) if (f->hits && (f->name.find("boost") != string::npos)) { printf("%s\"%s\"", first ? "" : ",", jesc(f->name).c_str()); first = false; }
    printf("],\n\"errors\":[");
    first = true;
    for (auto& e : errors) {
        printf("%s\n{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":[", first ? "" : ",", e.kind.c_str(), jesc(e.msg).c_str(), jesc(e.where).c_str());
        bool f2 = true;
        for (auto& i : e.in) { printf("%s[\"%s\",%llu]", f2 ? "" : ",", jesc(i.first).c_str(), (unsigned long long)i.second); f2 = false; }
        printf("]}");
        first = false;
    }
    printf("],\n\"samples\":[");
    first = true;
    for (auto& x : sampleJson) { printf("%s\n%s", first ? "" : ",", x.c_str()); first = false; }
    printf("]}\n");
    fflush(stdout);
    _Exit(0);
}
