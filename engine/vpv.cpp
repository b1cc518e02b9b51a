// vpv: a deductive verifier for LLVM IR.
//
// Input : an LLVM bitcode/IR module compiled from a contract file (which includes the real samurai headers).
// Output: JSON: for each entry "vc_*" the named obligations, how many verification conditions each produced, how many
//         the SMT solver discharged, counter-examples for the failed ones, and what stayed undecided.
//
// The module is executed symbolically along every feasible path; ints are mathematical integers with explicit range /
// wrap-around conditions, doubles are mathematical reals, memory is byte-addressed objects, loops are either unrolled
// exhaustively (until the path condition is unsatisfiable) or cut at invariants (vp_inv*).
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <z3.h>

#include <cassert>
#include <cfenv>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace llvm;
typedef __int128 i128;
typedef unsigned __int128 u128;
using clk = std::chrono::steady_clock;

static double now()
{
    return std::chrono::duration<double>(clk::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------------------------------------------------------------
// options
static uint64_t opt_max_steps   = 400000000ull; // per entry, all paths
static uint64_t opt_path_steps  = 200000000ull;
static double opt_time          = 600;          // seconds per entry
static std::atomic<double> deadline{1e300};
static unsigned opt_qtimeout    = 20000;        // ms per query
static unsigned opt_max_paths   = 200000;
static int opt_trace            = 0;
static std::string opt_dump_smt = "";
static bool opt_stop_first      = false;
static unsigned opt_havoc_rounds = 0;

// ---------------------------------------------------------------------------------------------------------------------
// z3 helpers
static Z3_context Z;
static Z3_solver S;
static Z3_sort sInt, sReal, sBool;

static Z3_ast R(Z3_ast a)
{
    Z3_inc_ref(Z, a);
    return a;
}

static std::string i128s(i128 v)
{
    if (v == 0)
    {
        return "0";
    }
    bool n = v < 0;
    u128 u = n ? (u128)(-v) : (u128)v;
    std::string s;
    while (u)
    {
        s += char('0' + (int)(u % 10));
        u /= 10;
    }
    if (n)
    {
        s += '-';
    }
    return std::string(s.rbegin(), s.rend());
}

static Z3_ast kI(i128 v)
{
    return R(Z3_mk_numeral(Z, i128s(v).c_str(), sInt));
}

static Z3_ast kB(bool b)
{
    return R(b ? Z3_mk_true(Z) : Z3_mk_false(Z));
}

static Z3_ast kD(double d)
{
    // exact rational of a double
    int ex;
    double m   = std::frexp(d, &ex); // d = m * 2^ex, |m| in [0.5,1)
    int64_t mi = (int64_t)std::ldexp(m, 53);
    ex -= 53;
    if (mi == 0)
    {
        return R(Z3_mk_numeral(Z, "0", sReal));
    }
    while (!(mi & 1))
    {
        mi >>= 1;
        ++ex;
    }
    Z3_ast num = R(Z3_mk_numeral(Z, std::to_string(mi).c_str(), sReal));
    if (ex == 0)
    {
        return num;
    }
    // 2^|ex| in decimal
    std::string p = "1";
    for (int k = 0; k < (ex > 0 ? ex : -ex); ++k)
    {
        int carry = 0;
        for (size_t q = p.size(); q-- > 0;)
        {
            int v = 2 * (p[q] - '0') + carry;
            p[q]  = (char)('0' + v % 10);
            carry = v / 10;
        }
        if (carry)
        {
            p.insert(p.begin(), '1');
        }
    }
    Z3_ast pw    = R(Z3_mk_numeral(Z, p.c_str(), sReal));
    Z3_ast a2[2] = {num, pw};
    Z3_ast r     = ex > 0 ? R(Z3_mk_mul(Z, 2, a2)) : R(Z3_mk_div(Z, num, pw));
    return R(Z3_simplify(Z, r));
}

static Z3_ast simp(Z3_ast a)
{
    return R(Z3_simplify(Z, a));
}

static Z3_ast zadd(Z3_ast a, Z3_ast b)
{
    Z3_ast x[2] = {a, b};
    return R(Z3_mk_add(Z, 2, x));
}

static Z3_ast zsub(Z3_ast a, Z3_ast b)
{
    Z3_ast x[2] = {a, b};
    return R(Z3_mk_sub(Z, 2, x));
}

static Z3_ast zmul(Z3_ast a, Z3_ast b)
{
    Z3_ast x[2] = {a, b};
    return R(Z3_mk_mul(Z, 2, x));
}

static Z3_ast zand(Z3_ast a, Z3_ast b)
{
    Z3_ast x[2] = {a, b};
    return R(Z3_mk_and(Z, 2, x));
}

static Z3_ast zor(Z3_ast a, Z3_ast b)
{
    Z3_ast x[2] = {a, b};
    return R(Z3_mk_or(Z, 2, x));
}

static Z3_ast znot(Z3_ast a)
{
    return R(Z3_mk_not(Z, a));
}

static Z3_ast zite(Z3_ast c, Z3_ast a, Z3_ast b)
{
    return R(Z3_mk_ite(Z, c, a, b));
}

static Z3_ast zeq(Z3_ast a, Z3_ast b)
{
    return R(Z3_mk_eq(Z, a, b));
}

static Z3_ast zle(Z3_ast a, Z3_ast b)
{
    return R(Z3_mk_le(Z, a, b));
}

static Z3_ast zlt(Z3_ast a, Z3_ast b)
{
    return R(Z3_mk_lt(Z, a, b));
}

static Z3_ast zdiv(Z3_ast a, Z3_ast b)
{
    return R(Z3_mk_div(Z, a, b));
}

static Z3_ast zmod(Z3_ast a, Z3_ast b)
{
    return R(Z3_mk_mod(Z, a, b));
}

static int boolConst(Z3_ast a) // 1 true, 0 false, -1 unknown
{
    Z3_lbool b = Z3_get_bool_value(Z, a);
    return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}

static bool isNumeral(Z3_ast a, std::string* out = nullptr)
{
    if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST)
    {
        if (out)
        {
            *out = Z3_get_numeral_string(Z, a);
        }
        return true;
    }
    return false;
}

static bool intConst(Z3_ast a, i128& v)
{
    std::string s;
    if (!isNumeral(a, &s))
    {
        return false;
    }
    if (s.find('/') != std::string::npos)
    {
        return false;
    }
    bool neg = false;
    size_t p = 0;
    if (s[0] == '-')
    {
        neg = true;
        p   = 1;
    }
    if (s.size() - p > 36)
    {
        return false;
    }
    i128 r = 0;
    for (; p < s.size(); ++p)
    {
        r = r * 10 + (s[p] - '0');
    }
    v = neg ? -r : r;
    return true;
}

// ---------------------------------------------------------------------------------------------------------------------
struct Val
{
    enum Kind : uint8_t
    {
        INT,
        FLT,
        AGG,
        UNDEF,
        RAW
    };
    Kind k        = UNDEF;
    bool sym      = false;
    uint16_t w    = 0; // bits (INT), bytes (as RAW piece: see bs)
    uint16_t bs   = 0;
    uint32_t prov = 0;
    int64_t c     = 0;
    double d      = 0;
    Z3_ast e      = nullptr;
    i128 lo = 0, hi = 0;
    std::shared_ptr<std::vector<Val>> agg;
};

static i128 imin(unsigned w)
{
    return w == 1 ? 0 : -((i128)1 << (w - 1));
}

static i128 imax(unsigned w)
{
    return w == 1 ? 1 : ((i128)1 << (w - 1)) - 1;
}

static int64_t canon(u128 v, unsigned w)
{
    if (w >= 64)
    {
        return (int64_t)(uint64_t)v;
    }
    uint64_t m = (1ull << w) - 1;
    uint64_t x = (uint64_t)v & m;
    if (w > 1 && (x >> (w - 1)))
    {
        x |= ~m;
    }
    return (int64_t)x;
}

static uint64_t uval(const Val& v)
{
    return v.w >= 64 ? (uint64_t)v.c : ((uint64_t)v.c & ((1ull << v.w) - 1));
}

static Val vI(int64_t c, unsigned w)
{
    Val v;
    v.k  = Val::INT;
    v.w  = w;
    v.c  = canon((u128)(i128)c, w);
    v.lo = v.hi = v.c;
    return v;
}

static Val vD(double d)
{
    Val v;
    v.k = Val::FLT;
    v.d = d;
    return v;
}

static Val vF(Z3_ast e)
{
    Val v;
    v.k   = Val::FLT;
    v.sym = true;
    v.e   = e;
    return v;
}

static Val vBool(Z3_ast e)
{
    int b = boolConst(e);
    if (b >= 0)
    {
        return vI(b, 1);
    }
    Val v;
    v.k   = Val::INT;
    v.w   = 1;
    v.sym = true;
    v.e   = e;
    v.lo  = 0;
    v.hi  = 1;
    return v;
}

static Val vUndef(unsigned bs = 0)
{
    Val v;
    v.bs = bs;
    return v;
}

static Z3_ast P2(unsigned w)
{
    return kI((i128)1 << w);
}

// build a symbolic int of width w from expression e with mathematically possible range [lo,hi]; wraps if it can exceed
static Val mkS(Z3_ast e, unsigned w, i128 lo, i128 hi)
{
    assert(w > 1);
    if (lo < imin(w) || hi > imax(w))
    {
        i128 m = (i128)1 << w;
        if (lo >= imin(w) && hi <= imax(w) + m)
        {
            e = zite(zle(e, kI(imax(w))), e, zsub(e, kI(m)));
        }
        else if (hi <= imax(w) && lo >= imin(w) - m)
        {
            e = zite(zle(kI(imin(w)), e), e, zadd(e, kI(m)));
        }
        else
        {
            e = zsub(zmod(zadd(e, kI((i128)1 << (w - 1))), kI(m)), kI((i128)1 << (w - 1)));
        }
        lo = imin(w);
        hi = imax(w);
    }
    Val v;
    v.k   = Val::INT;
    v.w   = w;
    v.sym = true;
    v.e   = e;
    v.lo  = lo;
    v.hi  = hi;
    i128 cv;
    if (lo == hi)
    {
        return vI((int64_t)lo, w);
    }
    if (intConst(e, cv))
    {
        return vI((int64_t)cv, w);
    }
    return v;
}

static Z3_ast eI(const Val& v) // Int-sorted expression, signed value
{
    if (!v.sym)
    {
        return kI(v.w == 1 ? (v.c & 1) : v.c);
    }
    if (v.w == 1)
    {
        return zite(v.e, kI(1), kI(0));
    }
    return v.e;
}

static Z3_ast eB(const Val& v) // Bool expression of an i1
{
    if (!v.sym)
    {
        return kB(v.c & 1);
    }
    return v.e;
}

static Z3_ast eF(const Val& v)
{
    return v.sym ? v.e : kD(v.d);
}

static void urange(const Val& v, i128& lo, i128& hi)
{
    if (!v.sym)
    {
        lo = hi = (i128)uval(v);
        return;
    }
    if (v.w == 1)
    {
        lo = 0;
        hi = 1;
        return;
    }
    i128 m = (i128)1 << v.w;
    if (v.lo >= 0)
    {
        lo = v.lo;
        hi = v.hi;
    }
    else if (v.hi < 0)
    {
        lo = v.lo + m;
        hi = v.hi + m;
    }
    else
    {
        lo = 0;
        hi = m - 1;
    }
}

static Z3_ast eU(const Val& v)
{
    if (!v.sym)
    {
        return kI((i128)uval(v));
    }
    if (v.w == 1)
    {
        return eI(v);
    }
    if (v.lo >= 0)
    {
        return v.e;
    }
    if (v.hi < 0)
    {
        return zadd(v.e, P2(v.w));
    }
    return zite(zlt(v.e, kI(0)), zadd(v.e, P2(v.w)), v.e);
}

// linear decomposition of an Int expression: constant + sum coef*term; returns false if not linear-looking
static bool linear(Z3_ast a, i128 mult, i128& cst, std::vector<std::pair<i128, Z3_ast>>& terms, int depth = 0)
{
    i128 v;
    if (intConst(a, v))
    {
        cst += mult * v;
        return true;
    }
    if (depth < 64 && Z3_get_ast_kind(Z, a) == Z3_APP_AST)
    {
        Z3_app app     = Z3_to_app(Z, a);
        Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, app));
        unsigned n     = Z3_get_app_num_args(Z, app);
        if (k == Z3_OP_ADD)
        {
            for (unsigned i = 0; i < n; ++i)
            {
                linear(Z3_get_app_arg(Z, app, i), mult, cst, terms, depth + 1);
            }
            return true;
        }
        if (k == Z3_OP_SUB)
        {
            for (unsigned i = 0; i < n; ++i)
            {
                linear(Z3_get_app_arg(Z, app, i), i == 0 ? mult : -mult, cst, terms, depth + 1);
            }
            return true;
        }
        if (k == Z3_OP_UMINUS)
        {
            linear(Z3_get_app_arg(Z, app, 0), -mult, cst, terms, depth + 1);
            return true;
        }
        if (k == Z3_OP_MUL && n == 2)
        {
            if (intConst(Z3_get_app_arg(Z, app, 0), v))
            {
                linear(Z3_get_app_arg(Z, app, 1), mult * v, cst, terms, depth + 1);
                return true;
            }
            if (intConst(Z3_get_app_arg(Z, app, 1), v))
            {
                linear(Z3_get_app_arg(Z, app, 0), mult * v, cst, terms, depth + 1);
                return true;
            }
        }
    }
    for (auto& t : terms)
    {
        if (t.second == a)
        {
            t.first += mult;
            return true;
        }
    }
    terms.push_back({mult, a});
    return true;
}

static Z3_ast fromLinear(i128 cst, const std::vector<std::pair<i128, Z3_ast>>& terms, i128 div)
{
    Z3_ast r = nullptr;
    for (auto& t : terms)
    {
        if (t.first == 0)
        {
            continue;
        }
        i128 q   = t.first / div;
        Z3_ast x = q == 1 ? t.second : zmul(kI(q), t.second);
        r        = r ? zadd(r, x) : x;
    }
    if (!r)
    {
        return kI(cst / div);
    }
    if (cst / div != 0)
    {
        r = zadd(r, kI(cst / div));
    }
    return r;
}

// floor(e / d), with an exact split when the non-constant coefficients are multiples of d
static Z3_ast floorDivE(Z3_ast e, i128 d)
{
    i128 c = 0;
    std::vector<std::pair<i128, Z3_ast>> t, keep, rest;
    linear(e, 1, c, t);
    for (auto& x : t)
    {
        if (x.first == 0)
        {
            continue;
        }
        if (x.first % d == 0)
        {
            keep.push_back(x);
        }
        else
        {
            rest.push_back(x);
        }
    }
    i128 cq = c >= 0 ? c / d : -((-c + d - 1) / d);
    i128 cr = c - cq * d;
    if (rest.empty())
    {
        return fromLinear(cq * d, keep, d);
    }
    if (keep.empty())
    {
        return zdiv(e, kI(d));
    }
    Z3_ast k = fromLinear(0, keep, d);
    Z3_ast r = fromLinear(c, rest, 1);
    (void)cr;
    return zadd(k, zdiv(r, kI(d)));
}

static bool isMod(Z3_ast e, Z3_ast& in, i128& n)
{
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST)
    {
        return false;
    }
    Z3_app a       = Z3_to_app(Z, e);
    Z3_func_decl f = Z3_get_app_decl(Z, a);
    if (Z3_get_decl_kind(Z, f) != Z3_OP_MOD)
    {
        return false;
    }
    std::string t;
    if (!isNumeral(Z3_get_app_arg(Z, a, 1), &t) || t.size() > 25 || t[0] == '-')
    {
        return false;
    }
    n = 0;
    for (char c : t)
    {
        if (c < '0' || c > '9')
        {
            return false;
        }
        n = n * 10 + (c - '0');
    }
    in = Z3_get_app_arg(Z, a, 0);
    return n > 0;
}

static Z3_ast modE(Z3_ast e, i128 d)
{
    i128 c = 0;
    std::vector<std::pair<i128, Z3_ast>> t, rest;
    linear(e, 1, c, t);
    for (auto& x : t)
    {
        if (x.first % d != 0)
        {
            rest.push_back(x);
        }
    }
    i128 cr = ((c % d) + d) % d;
    if (rest.empty())
    {
        return kI(cr);
    }
    // (x mod n) mod d = x mod d when d divides n: drop the inner reductions
    bool ch = false;
    for (auto& x : rest)
    {
        Z3_ast in;
        i128 n;
        if (isMod(x.second, in, n) && n % d == 0)
        {
            x.second = in;
            ch       = true;
        }
    }
    Z3_ast b = fromLinear(cr, rest, 1);
    if (ch)
    {
        return modE(b, d);
    }
    return zmod(b, kI(d));
}

// bit k of a nonnegative value
static Z3_ast bitE(Z3_ast e, int k)
{
    return modE(k ? floorDivE(e, (i128)1 << k) : e, 2);
}

// ---------------------------------------------------------------------------------------------------------------------
struct SymCell
{
    Val v;
    unsigned size;
};

struct ArrField
{
    unsigned off, size;
    bool real;
    Z3_ast arr;
};

struct Obj
{
    enum Kind : uint8_t
    {
        BYTES,
        ARRAY,
        CELLS
    };
    Kind kind     = BYTES;
    uint64_t base = 0, size = 0;
    bool freed = false, heap = false, konst = false, local = false;
    uint32_t cutdepth = 0;
    std::vector<uint8_t> b, st; // st: 0 undef 1 concrete 2 part of symcell
    std::map<unsigned, SymCell> cells;
    // ARRAY
    unsigned es = 0;
    std::vector<ArrField> fields;
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame
{
    Function* f = nullptr;
    BasicBlock* bb = nullptr;
    BasicBlock* prev = nullptr;
    BasicBlock::iterator pc;
    std::vector<Val> regs;
    CallBase* caller = nullptr;
    std::vector<uint32_t> allocas;
    std::map<Loop*, int> cut; // loop -> phase
    std::vector<Val> varargs;
};
typedef std::shared_ptr<Frame> FrameP;

struct ModelH
{
    Z3_model m;

    ModelH(Z3_model x)
        : m(x)
    {
        Z3_model_inc_ref(Z, m);
    }

    ~ModelH()
    {
        Z3_model_dec_ref(Z, m);
    }
};

struct AnyRec
{
    std::string name;
    Val v;
};

struct CellField
{
    std::string name;
    Z3_ast arr, arr0;
    bool real;
};

struct CellKey
{
    unsigned field;
    Z3_ast k[4];
    uint32_t obj;
};

struct CutFrame
{
    size_t depth;
    std::vector<std::pair<uint64_t, uint64_t>> assigns; // address ranges
    uint32_t nobj;                                      // objects existing at the cut
};

struct State
{
    std::vector<FrameP> stack;
    std::vector<ObjP> mem;
    uint64_t nextAddr = 0x10000000;
    std::vector<Z3_ast> pc;
    std::shared_ptr<ModelH> model;
    std::vector<AnyRec> anys;
    std::vector<CellField> cf;
    std::vector<CellKey> ck;
    std::vector<CutFrame> cuts;
    std::vector<std::pair<std::string, Val>> notes;
    uint64_t steps = 0;
    bool expectThrow = false;
    size_t pureBase = 0;
};
typedef std::unique_ptr<State> StateP;

struct Unsupported
{
    std::string why;
};

struct PathEnd
{
    std::string why;
};

struct ObStat
{
    uint64_t total = 0, discharged = 0, trivial = 0, failed = 0, unknown = 0;
    double t = 0;
};

struct Cex
{
    std::string label, detail, where;
    std::vector<std::pair<std::string, std::string>> vals;
    std::vector<std::pair<std::string, std::string>> notes;
    std::vector<std::string> cellvals;
};

struct FnInfo
{
    DenseMap<const Value*, unsigned> idx;
    unsigned n = 0;
    std::unique_ptr<DominatorTree> dt;
    std::unique_ptr<LoopInfo> li;
};

// ---------------------------------------------------------------------------------------------------------------------
struct Engine
{
    Module& M;
    const DataLayout& DL;
    std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fi;
    std::unordered_map<const Value*, uint64_t> gaddr; // globals and functions
    std::map<uint64_t, Function*> faddr;
    std::vector<ObjP> gmem;
    uint64_t gnext = 0x1000000;

    // per entry
    std::map<std::string, ObStat> obs;
    std::map<std::string, uint64_t> covers;
    std::vector<Cex> cexs;
    std::map<std::string, int> cexcount;
    std::map<std::string, uint64_t> undecided;
    std::set<std::string> called;
    std::set<const BasicBlock*> visited;
    uint64_t paths = 0, killed = 0, steps = 0, queries = 0, forks = 0, cutpaths = 0;
    double solver_t = 0, t0 = 0;
    bool boundHit = false;
    std::vector<StateP> work;
    std::vector<Z3_ast> spc; // asserted pc in solver
    unsigned nfresh = 0;

    // pure evaluation mode
    struct PureRes
    {
        std::vector<Z3_ast> pc;
        Val v;
    };
    std::vector<PureRes>* pure = nullptr;
    size_t pureDepth           = 0;

    Engine(Module& m)
        : M(m)
        , DL(m.getDataLayout())
    {
    }

    // ------------------------------------------------------------------ solver
    void sync(State& s)
    {
        size_t n = 0;
        while (n < spc.size() && n < s.pc.size() && spc[n] == s.pc[n])
        {
            ++n;
        }
        if (spc.size() > n)
        {
            Z3_solver_pop(Z, S, spc.size() - n);
            spc.resize(n);
        }
        while (spc.size() < s.pc.size())
        {
            Z3_solver_push(Z, S);
            Z3_solver_assert(Z, S, s.pc[spc.size()]);
            spc.push_back(s.pc[spc.size()]);
        }
    }

    // check pc && extra
    int check(State& s, Z3_ast extra, std::shared_ptr<ModelH>* mod)
    {
        sync(s);
        double a = now();
        ++queries;
        Z3_solver_push(Z, S);
        Z3_solver_assert(Z, S, extra);
        Z3_lbool r = Z3_solver_check(Z, S);
        if (r == Z3_L_TRUE && mod)
        {
            *mod = std::make_shared<ModelH>(Z3_solver_get_model(Z, S));
        }
        if (r == Z3_L_UNDEF)
        {
            // second attempt: a fresh non-incremental solver (full tactic portfolio)
            Z3_solver S2 = Z3_mk_solver(Z);
            Z3_solver_inc_ref(Z, S2);
            Z3_params pr = Z3_mk_params(Z);
            Z3_params_inc_ref(Z, pr);
            Z3_params_set_uint(Z, pr, Z3_mk_string_symbol(Z, "timeout"), opt_qtimeout);
            Z3_solver_set_params(Z, S2, pr);
            for (auto c : s.pc)
            {
                Z3_solver_assert(Z, S2, c);
            }
            Z3_solver_assert(Z, S2, extra);
            r = Z3_solver_check(Z, S2);
            if (r == Z3_L_TRUE && mod)
            {
                *mod = std::make_shared<ModelH>(Z3_solver_get_model(Z, S2));
            }
            Z3_params_dec_ref(Z, pr);
            Z3_solver_dec_ref(Z, S2);
        }
        if (r == Z3_L_UNDEF && !opt_dump_smt.empty())
        {
            std::ofstream o(opt_dump_smt + "/unk" + std::to_string(queries) + ".smt2");
            o << Z3_solver_to_string(Z, S) << "(check-sat)\n";
        }
        Z3_solver_pop(Z, S, 1);
        double dt = now() - a;
        solver_t += dt;
        if (opt_trace > 1 && dt > 1)
        {
            std::cerr << "slow query " << dt << " " << Z3_ast_to_string(Z, extra) << "\n";
        }
        return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    }

    int modelSays(State& s, Z3_ast c)
    {
        if (!s.model)
        {
            return -1;
        }
        Z3_ast out;
        if (!Z3_model_eval(Z, s.model->m, c, true, &out))
        {
            return -1;
        }
        R(out);
        return boolConst(out);
    }

    void addPc(State& s, Z3_ast c)
    {
        s.pc.push_back(c);
    }

    // assume cond on the state; false if infeasible
    bool assume(State& s, Z3_ast c)
    {
        c     = simp(c);
        int b = boolConst(c);
        if (b == 1)
        {
            return true;
        }
        if (b == 0)
        {
            return false;
        }
        if (modelSays(s, c) == 1)
        {
            addPc(s, c);
            return true;
        }
        std::shared_ptr<ModelH> m;
        int r = check(s, c, &m);
        if (r == 0)
        {
            return false;
        }
        addPc(s, c);
        s.model = r == 1 ? m : nullptr;
        return true;
    }

    // decide branch: returns 1/0; forks when both feasible (the pushed state takes the 'false' side)
    int decide(State& s, Z3_ast c)
    {
        c     = simp(c);
        int b = boolConst(c);
        if (b >= 0)
        {
            return b;
        }
        Z3_ast nc = znot(c);
        int mv    = modelSays(s, c);
        std::shared_ptr<ModelH> mt, mf;
        int canT = 1, canF = 1;
        if (mv == 1)
        {
            mt   = s.model;
            canF = check(s, nc, &mf);
        }
        else if (mv == 0)
        {
            mf   = s.model;
            canT = check(s, c, &mt);
        }
        else
        {
            canT = check(s, c, &mt);
            canF = canT == 0 ? 1 : check(s, nc, &mf);
        }
        if (canT == 0)
        {
            addPc(s, nc);
            s.model = mf;
            return 0;
        }
        if (canF == 0)
        {
            addPc(s, c);
            s.model = mt;
            return 1;
        }
        ++forks;
        auto t = std::make_unique<State>(s);
        // frames are shared copy-on-write
        t->pc.push_back(nc);
        t->model = mf;
        pendingFork = t.get();
        pushed      = std::move(t);
        addPc(s, c);
        s.model = mt;
        return 2;
    }

    State* pendingFork = nullptr;
    StateP pushed;

    std::string where(State& s)
    {
        std::string r;
        int n = 0;
        // source position: every inlined level that lies in the repository or in the contract
        if (!s.stack.empty())
        {
            Frame& f = *s.stack.back();
            const Instruction* in = f.pc != f.bb->end() ? &*f.pc : nullptr;
            int m = 0;
            std::string last;
            for (size_t i = s.stack.size(); i-- > 0 && m < 4;)
            {
                for (const DILocation* dl = in ? in->getDebugLoc().get() : nullptr; dl && m < 4; dl = dl->getInlinedAt())
                {
                    std::string fnm = dl->getFilename().str();
                    size_t q        = fnm.find("/include/samurai/");
                    size_t q2       = fnm.find("/contracts/");
                    if (q == std::string::npos && q2 == std::string::npos)
                    {
                        continue;
                    }
                    std::string here = (q != std::string::npos ? fnm.substr(q + 9) : fnm.substr(q2 + 1)) + ":" + std::to_string(dl->getLine()) + " ("
                                     + dl->getScope()->getSubprogram()->getName().str().substr(0, 60) + ")";
                    r += (m ? " <- " : "") + here;
                    ++m;
                }
                in = s.stack[i]->caller;
            }
            if (m)
            {
                return r;
            }
        }
        for (size_t i = s.stack.size(); i-- > 0 && n < 3; ++n)
        {
            std::string d = demangle(s.stack[i]->f->getName().str());
            if (d.size() > 160)
            {
                d = d.substr(0, 160) + "...";
            }
            r += (n ? " <- " : "") + d;
        }
        return r;
    }

    static std::string modelVal(Z3_model m, Z3_ast e)
    {
        Z3_ast out;
        if (!Z3_model_eval(Z, m, e, true, &out))
        {
            return "?";
        }
        R(out);
        std::string s;
        if (isNumeral(out, &s))
        {
            return s;
        }
        int b = boolConst(out);
        if (b >= 0)
        {
            return b ? "1" : "0";
        }
        return Z3_ast_to_string(Z, out);
    }

    void report(State& s, const std::string& label, const std::string& detail, Z3_model m)
    {
        if (cexcount[label]++ >= 3)
        {
            return;
        }
        Cex c;
        c.label  = label;
        c.detail = detail;
        c.where  = where(s);
        auto vs  = [&](const Val& v) -> std::string
        {
            if (v.k == Val::INT)
            {
                return v.sym ? modelVal(m, v.e) : std::to_string(v.c);
            }
            if (v.k == Val::FLT)
            {
                if (v.sym)
                {
                    return modelVal(m, v.e);
                }
                std::ostringstream o;
                o.precision(17);
                o << v.d;
                return o.str();
            }
            return "undef";
        };
        for (auto& a : s.anys)
        {
            c.vals.push_back({a.name, vs(a.v)});
        }
        for (auto& a : s.notes)
        {
            c.notes.push_back({a.first, vs(a.second)});
        }
        for (auto& k : s.ck)
        {
            Z3_ast sel = R(Z3_mk_select_n(Z, s.cf[k.field].arr0, 4, k.k));
            std::string line = s.cf[k.field].name;
            for (int i = 0; i < 4; ++i)
            {
                line += " " + modelVal(m, k.k[i]);
            }
            line += " " + modelVal(m, sel);
            c.cellvals.push_back(line);
        }
        cexs.push_back(c);
        if (deadline > now() + 20)
        {
            deadline = now() + 20; // a failed obligation is enough: do not explore for long after it
        }
    }

    // obligation: cond must hold on this path. returns false when path must stop
    bool oblige(State& s, const std::string& label, Z3_ast cond, const std::string& detail = "")
    {
        auto& o = obs[label];
        o.total++;
        cond  = simp(cond);
        int b = boolConst(cond);
        if (b == 1)
        {
            o.discharged++;
            o.trivial++;
            return true;
        }
        double a = now();
        std::shared_ptr<ModelH> m;
        int r;
        if (b == 0)
        {
            // path condition is known satisfiable unless the model was lost
            r = 1;
            m = s.model;
            if (!m)
            {
                r = check(s, kB(true), &m);
            }
        }
        else
        {
            Z3_ast nc = znot(cond);
            if (modelSays(s, nc) == 1)
            {
                r = 1;
                m = s.model;
            }
            else
            {
                r = check(s, nc, &m);
            }
        }
        o.t += now() - a;
        if (r == 0)
        {
            o.discharged++;
            if (b != 0)
            {
                s.pc.push_back(cond);
            }
            return true;
        }
        if (r == 1)
        {
            o.failed++;
            report(s, label, detail, m->m);
        }
        else
        {
            o.unknown++;
            undecided["solver-unknown:" + label]++;
        }
        if (b == 0)
        {
            return false;
        }
        return assume(s, cond);
    }

    // ------------------------------------------------------------------ memory
    uint32_t alloc(State& s, uint64_t size, const std::string& name, bool heap = false, bool local = false)
    {
        auto o  = std::make_shared<Obj>();
        o->base = s.nextAddr;
        o->size = size;
        o->b.resize(size);
        o->st.resize(size);
        o->name  = name;
        o->heap  = heap;
        o->local = local;
        s.nextAddr += ((size + 15) / 16) * 16 + 64;
        s.mem.push_back(o);
        return (uint32_t)s.mem.size(); // id = index+1
    }

    uint32_t findObj(State& s, uint64_t a)
    {
        // binary search on base
        size_t lo = 0, hi = s.mem.size();
        while (lo < hi)
        {
            size_t m = (lo + hi) / 2;
            if (s.mem[m]->base <= a)
            {
                lo = m + 1;
            }
            else
            {
                hi = m;
            }
        }
        if (lo == 0)
        {
            return 0;
        }
        return (uint32_t)lo; // id of object with base <= a
    }

    Obj& wr(State& s, uint32_t id)
    {
        ObjP& p = s.mem[id - 1];
        if (p.use_count() > 1)
        {
            p = std::make_shared<Obj>(*p);
        }
        return *p;
    }

    // ---- extraction of sub-ranges of a symbolic cell value
    Val extract(const Val& v, unsigned size, unsigned off, unsigned n)
    {
        if (off == 0 && n == size)
        {
            return v;
        }
        if (v.k == Val::UNDEF)
        {
            return vUndef(n);
        }
        if (v.k != Val::INT)
        {
            throw Unsupported{"partial read of a non-integer symbolic cell"};
        }
        if (!v.sym)
        {
            return vI((int64_t)(uval(v) >> (8 * off)), 8 * n);
        }
        Z3_ast u = v.e;
        if (v.w == 1)
        {
            u = eI(v);
        }
        if (off)
        {
            u = floorDivE(u, (i128)1 << (8 * off));
        }
        i128 lo = v.lo, hi = v.hi;
        auto fl = [&](i128 x)
        {
            i128 d = (i128)1 << (8 * off);
            return x >= 0 ? x / d : -((-x + d - 1) / d);
        };
        lo = fl(lo);
        hi = fl(hi);
        return mkS(u, 8 * n, lo, hi);
    }

    void splitCell(Obj& o, unsigned at) // make 'at' a cell boundary
    {
        if (at == 0 || at >= o.size)
        {
            return;
        }
        auto it = o.cells.upper_bound(at);
        if (it == o.cells.begin())
        {
            return;
        }
        --it;
        unsigned c0 = it->first, sz = it->second.size;
        if (c0 < at && at < c0 + sz)
        {
            Val v  = it->second.v;
            Val a  = extract(v, sz, 0, at - c0);
            Val b2 = extract(v, sz, at - c0, c0 + sz - at);
            o.cells.erase(it);
            putVal(o, c0, a, at - c0);
            putVal(o, at, b2, c0 + sz - at);
        }
    }

    void clearRange(Obj& o, unsigned off, unsigned n)
    {
        if (!o.cells.empty())
        {
            splitCell(o, off);
            splitCell(o, off + n);
            auto it = o.cells.lower_bound(off);
            while (it != o.cells.end() && it->first < off + n)
            {
                it = o.cells.erase(it);
            }
        }
    }

    void putVal(Obj& o, unsigned off, const Val& v, unsigned n)
    {
        if (v.k == Val::RAW)
        {
            unsigned p = 0;
            for (auto& x : *v.agg)
            {
                putVal(o, off + p, x, x.bs);
                p += x.bs;
            }
            return;
        }
        if (v.k == Val::UNDEF)
        {
            std::fill(o.st.begin() + off, o.st.begin() + off + n, 0);
            return;
        }
        if (v.k == Val::INT && !v.sym)
        {
            uint64_t u = uval(v);
            for (unsigned i = 0; i < n; ++i)
            {
                o.b[off + i]  = i < 8 ? (uint8_t)(u >> (8 * i)) : (v.c < 0 ? 0xff : 0);
                o.st[off + i] = 1;
            }
            return;
        }
        if (v.k == Val::FLT && !v.sym)
        {
            if (n == 8)
            {
                memcpy(&o.b[off], &v.d, 8);
            }
            else if (n == 4)
            {
                float f = (float)v.d;
                memcpy(&o.b[off], &f, 4);
            }
            else
            {
                throw Unsupported{"store of wide float"};
            }
            std::fill(o.st.begin() + off, o.st.begin() + off + n, 1);
            return;
        }
        if (v.k == Val::AGG)
        {
            throw Unsupported{"putVal agg"};
        }
        std::fill(o.st.begin() + off, o.st.begin() + off + n, 2);
        o.cells[off] = {v, n};
    }

    // read n bytes as raw pieces -> INT or RAW or UNDEF
    Val readRaw(Obj& o, unsigned off, unsigned n)
    {
        bool allc = true, allu = true;
        for (unsigned i = 0; i < n; ++i)
        {
            uint8_t st = o.st[off + i];
            if (st != 1)
            {
                allc = false;
            }
            if (st != 0)
            {
                allu = false;
            }
        }
        if (allc && n <= 8)
        {
            uint64_t u = 0;
            for (unsigned i = 0; i < n; ++i)
            {
                u |= (uint64_t)o.b[off + i] << (8 * i);
            }
            return vI((int64_t)u, 8 * n);
        }
        if (allu)
        {
            return vUndef(n);
        }
        auto it = o.cells.find(off);
        if (it != o.cells.end() && it->second.size == n)
        {
            return it->second.v;
        }
        // pieces
        auto pv    = std::make_shared<std::vector<Val>>();
        unsigned p = off, end = off + n;
        while (p < end)
        {
            if (o.st[p] == 2)
            {
                auto c = o.cells.upper_bound(p);
                --c;
                unsigned c0 = c->first, cs = c->second.size;
                unsigned m  = std::min(end, c0 + cs) - p;
                Val x       = extract(c->second.v, cs, p - c0, m);
                x.bs        = m;
                pv->push_back(x);
                p += m;
            }
            else
            {
                unsigned q = p;
                uint8_t st = o.st[p];
                while (q < end && o.st[q] == st && q - p < 8)
                {
                    ++q;
                }
                Val x;
                if (st == 0)
                {
                    x = vUndef(q - p);
                }
                else
                {
                    uint64_t u = 0;
                    for (unsigned i = p; i < q; ++i)
                    {
                        u |= (uint64_t)o.b[i] << (8 * (i - p));
                    }
                    x = vI((int64_t)u, 8 * (q - p));
                }
                x.bs = q - p;
                pv->push_back(x);
                p = q;
            }
        }
        if (pv->size() == 1)
        {
            return (*pv)[0];
        }
        Val r;
        r.k   = Val::RAW;
        r.agg = pv;
        r.bs  = n;
        return r;
    }

    // turn RAW into INT when an arithmetic use needs it
    Val asInt(const Val& v, unsigned w)
    {
        if (v.k == Val::INT)
        {
            return v;
        }
        if (v.k == Val::FLT && !v.sym)
        {
            int64_t u;
            if (w == 64)
            {
                memcpy(&u, &v.d, 8);
            }
            else
            {
                float f = (float)v.d;
                int32_t q;
                memcpy(&q, &f, 4);
                u = q;
            }
            return vI(u, w);
        }
        if (v.k == Val::RAW)
        {
            Z3_ast e = nullptr;
            i128 lo = 0, hi = 0;
            unsigned p = 0;
            bool sym   = false;
            u128 conc  = 0;
            for (size_t i = 0; i < v.agg->size(); ++i)
            {
                const Val& x = (*v.agg)[i];
                if (x.k == Val::UNDEF)
                {
                    throw Unsupported{"arithmetic on partially undefined value"};
                }
                if (x.k != Val::INT)
                {
                    throw Unsupported{"arithmetic on mixed raw value"};
                }
                bool last = i + 1 == v.agg->size();
                i128 l, h;
                Z3_ast xe;
                Val y = x;
                if (y.w != 8 * x.bs)
                {
                    y.w = 8 * x.bs;
                }
                if (last)
                {
                    xe = eI(x);
                    l  = x.lo;
                    h  = x.hi;
                }
                else
                {
                    urange(y, l, h);
                    xe = eU(y);
                }
                if (x.sym)
                {
                    sym = true;
                }
                else
                {
                    conc |= (u128)uval(y) << (8 * p);
                }
                i128 m = (i128)1 << (8 * p);
                e      = e ? zadd(e, zmul(kI(m), xe)) : xe;
                lo += l * m;
                hi += h * m;
                p += x.bs;
            }
            if (!sym && w <= 64)
            {
                return vI((int64_t)(uint64_t)conc, w);
            }
            if (w > 64)
            {
                throw Unsupported{"wide symbolic int"};
            }
            return mkS(e, w, lo, hi);
        }
        if (v.k == Val::UNDEF)
        {
            throw Unsupported{"use of undefined value"};
        }
        throw Unsupported{"asInt"};
    }

    Val fromRaw(const Val& r, Type* t)
    {
        if (t->isDoubleTy() || t->isFloatTy())
        {
            if (r.k == Val::INT && !r.sym)
            {
                if (t->isDoubleTy())
                {
                    double d;
                    memcpy(&d, &r.c, 8);
                    return vD(d);
                }
                float f;
                int32_t q = (int32_t)r.c;
                memcpy(&f, &q, 4);
                return vD(f);
            }
            if (r.k == Val::FLT || r.k == Val::UNDEF)
            {
                return r;
            }
            if (r.k == Val::RAW)
            {
                return fromRaw(asInt(r, 64), t);
            }
            throw Unsupported{"float load from symbolic int"};
        }
        if (r.k == Val::INT)
        {
            unsigned w = DL.getTypeSizeInBits(t);
            if (t->isPointerTy())
            {
                w = 64;
            }
            Val v = r;
            if (w < v.w || (w == 1 && v.w == 8))
            {
                return truncV(v, w);
            }
            if (v.w == 1 && w > 1)
            {
                return v.sym ? mkS(zite(v.e, kI(1), kI(0)), w, 0, 1) : vI(v.c & 1, w);
            }
            v.w = w;
            return v;
        }
        return r;
    }

    Val truncV(const Val& a, unsigned w)
    {
        if (a.k == Val::UNDEF)
        {
            return a;
        }
        if (!a.sym)
        {
            return vI(a.c, w);
        }
        if (w == 1)
        {
            if (a.lo >= 0 && a.hi <= 1)
            {
                return vBool(simp(zeq(a.e, kI(1))));
            }
            return vBool(simp(zeq(modE(a.e, 2), kI(1))));
        }
        return mkS(a.e, w, a.lo, a.hi);
    }

    struct Loc
    {
        uint32_t id;
        uint64_t off;
    };

    void frameCheckStore(State& s, uint32_t id, uint64_t addr, uint64_t n)
    {
        for (auto& c : s.cuts)
        {
            if (id > c.nobj)
            {
                continue; // allocated inside the loop body
            }
            bool ok = false;
            for (auto& r : c.assigns)
            {
                if (addr >= r.first && addr + n <= r.first + r.second)
                {
                    ok = true;
                    break;
                }
            }
            if (!ok)
            {
                undecided["frame: store outside the declared assigns of a cut loop in " + where(s) + " object "
                          + s.mem[id - 1]->name + "+" + std::to_string(addr - s.mem[id - 1]->base) + " size "
                          + std::to_string(n)]++;
                throw PathEnd{"frame"};
            }
        }
    }

    // resolve concrete address
    Loc resolve(State& s, uint64_t a, uint64_t n, const char* what)
    {
        uint32_t id = findObj(s, a);
        if (id)
        {
            Obj& o = *s.mem[id - 1];
            if (a + n <= o.base + o.size && !o.freed)
            {
                return {id, a - o.base};
            }
            if (o.freed && a < o.base + o.size + 32)
            {
                oblige(s, "memory-safety", kB(false), std::string(what) + " of freed memory");
                throw PathEnd{"use after free"};
            }
        }
        std::string nm = id ? s.mem[id - 1]->name + "[" + std::to_string((int64_t)(a - s.mem[id - 1]->base)) + "/"
                                  + std::to_string(s.mem[id - 1]->size) + "]"
                            : std::string("null");
        oblige(s, "memory-safety", kB(false), std::string(what) + " out of bounds: " + nm);
        throw PathEnd{"oob"};
    }

    // concretise a symbolic int value: forks over its feasible values (current state keeps one of them)
    int64_t concretise(State& s, const Val& v0)
    {
        if (!v0.sym)
        {
            return v0.c;
        }
        if (v0.w == 1)
        {
            throw Unsupported{"concretise i1"};
        }
        if (!s.model)
        {
            std::shared_ptr<ModelH> m;
            int r = check(s, kB(true), &m);
            if (r != 1)
            {
                throw PathEnd{"infeasible"};
            }
            s.model = m;
        }
        std::string x = modelVal(s.model->m, v0.e);
        int64_t val   = std::stoll(x);
        int r         = decide(s, zeq(v0.e, kI(val)));
        if (r == 0)
        {
            throw Unsupported{"concretise"};
        }
        if (r == 2)
        {
            // the forked state must re-execute the current instruction
            pendRetry();
        }
        return val;
    }

    // address of an access of n bytes through p; a symbolic pointer is first obliged to stay inside its object
    uint64_t ptrAddr(State& s, const Val& p, uint64_t n, const char* what)
    {
        if (p.sym && p.prov && p.prov <= s.mem.size() && s.mem[p.prov - 1]->kind == Obj::BYTES)
        {
            Obj& o = *s.mem[p.prov - 1];
            if (o.size < n || o.freed || !oblige(s, "memory-safety", zand(zle(kI((int64_t)o.base), p.e), zle(p.e, kI((int64_t)(o.base + o.size - n)))), std::string(what) + " in bounds " + o.name))
            {
                oblige(s, "memory-safety", kB(false), std::string(what) + " out of bounds: " + o.name);
                throw PathEnd{"oob"};
            }
        }
        return (uint64_t)concretise(s, p);
    }

    void pendRetry()
    {
        // the pushed state restarts at the current instruction (pc still points at it)
        work.push_back(std::move(pushed));
        pendingFork = nullptr;
    }

    // decompose symbolic pointer in ARRAY object: returns element index expression and field
    bool arrLoc(State& s, const Val& p, uint64_t n, uint32_t& id, Z3_ast& idx, int& fld)
    {
        id = p.prov;
        if (!p.sym)
        {
            id = findObj(s, (uint64_t)p.c);
        }
        if (!id || s.mem[id - 1]->kind != Obj::ARRAY)
        {
            return false;
        }
        Obj& o   = *s.mem[id - 1];
        i128 cst = 0;
        std::vector<std::pair<i128, Z3_ast>> t;
        if (p.sym)
        {
            linear(p.e, 1, cst, t);
        }
        else
        {
            cst = p.c;
        }
        cst -= (i128)o.base;
        for (auto& x : t)
        {
            if (x.first % o.es != 0)
            {
                throw Unsupported{"array pointer with non-multiple stride"};
            }
        }
        i128 fo = ((cst % o.es) + o.es) % o.es;
        fld     = -1;
        for (size_t i = 0; i < o.fields.size(); ++i)
        {
            if (o.fields[i].off == fo && o.fields[i].size == n)
            {
                fld = (int)i;
            }
        }
        if (fld < 0)
        {
            throw Unsupported{"array access to an undeclared field offset " + std::to_string((int)fo) + " size "
                              + std::to_string(n)};
        }
        idx = fromLinear(cst - fo, t, o.es);
        return true;
    }

    Z3_ast arrLen(Obj& o)
    {
        return o.cells.count(0) ? eI(o.cells[0].v) : kI((i128)(o.size));
    }

    Val loadV(State& s, const Val& p, Type* t)
    {
        if (p.k != Val::INT)
        {
            throw Unsupported{"load through undefined pointer"};
        }
        unsigned n = DL.getTypeStoreSize(t);
        {
            uint32_t id;
            Z3_ast idx;
            int fld;
            if (n <= 8 && arrLoc(s, p, n, id, idx, fld))
            {
                Obj& o = *s.mem[id - 1];
                oblige(s, "memory-safety", zand(zle(kI(0), idx), zlt(idx, arrLen(o))), "array read in bounds " + o.name);
                Z3_ast v = R(Z3_mk_select(Z, o.fields[fld].arr, idx));
                if (o.fields[fld].real)
                {
                    return vF(v);
                }
                unsigned w = 8 * n;
                // element values are within machine range (type invariant)
                Z3_ast rng = zand(zle(kI(imin(w)), v), zle(v, kI(imax(w))));
                s.pc.push_back(rng);
                return fromRaw(mkS(v, w, imin(w), imax(w)), t);
            }
        }
        uint64_t a;
        if (p.sym)
        {
            a = ptrAddr(s, p, n, "read");
        }
        else
        {
            a = (uint64_t)p.c;
        }
        Loc l  = resolve(s, a, n, "read");
        Obj& o = *s.mem[l.id - 1];
        if (o.kind == Obj::CELLS)
        {
            // o.es = key index+1
            CellKey& k = s.ck[o.es];
            Z3_ast v   = R(Z3_mk_select_n(Z, s.cf[k.field].arr, 4, k.k));
            if (s.cf[k.field].real)
            {
                if (n != 8)
                {
                    throw Unsupported{"cell load size"};
                }
                return vF(v);
            }
            unsigned w = 8 * n;
            s.pc.push_back(zand(zle(kI(imin(w)), v), zle(v, kI(imax(w)))));
            return fromRaw(mkS(v, w, imin(w), imax(w)), t);
        }
        if (t->isStructTy() || t->isArrayTy())
        {
            return loadAgg(s, a, t);
        }
        if (auto* vt = dyn_cast<FixedVectorType>(t))
        {
            Val r;
            r.k         = Val::AGG;
            r.agg       = std::make_shared<std::vector<Val>>();
            Type* et    = vt->getElementType();
            uint64_t es = DL.getTypeStoreSize(et);
            for (unsigned i = 0; i < vt->getNumElements(); ++i)
            {
                r.agg->push_back(loadV(s, vI((int64_t)(a + i * es), 64), et));
            }
            return r;
        }
        // fast path
        return fromRaw(readRaw(o, (unsigned)l.off, n), t);
    }

    Val loadAgg(State& s, uint64_t a, Type* t)
    {
        Val r;
        r.k   = Val::AGG;
        r.agg = std::make_shared<std::vector<Val>>();
        if (auto* st = dyn_cast<StructType>(t))
        {
            const StructLayout* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
            {
                r.agg->push_back(loadV(s, vI((int64_t)(a + sl->getElementOffset(i)), 64), st->getElementType(i)));
            }
        }
        else
        {
            auto* at    = cast<ArrayType>(t);
            uint64_t es = DL.getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < at->getNumElements(); ++i)
            {
                r.agg->push_back(loadV(s, vI((int64_t)(a + i * es), 64), at->getElementType()));
            }
        }
        return r;
    }

    void storeV(State& s, const Val& p, const Val& v, Type* t)
    {
        if (p.k != Val::INT)
        {
            throw Unsupported{"store through undefined pointer"};
        }
        unsigned n = DL.getTypeStoreSize(t);
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
        {
            uint64_t a = ptrAddr(s, p, n, "write");
            if (v.k == Val::UNDEF)
            {
                Loc l = resolve(s, a, n, "write");
                Obj& o = wr(s, l.id);
                clearRange(o, l.off, n);
                putVal(o, l.off, vUndef(n), n);
                return;
            }
            if (auto* st = dyn_cast<StructType>(t))
            {
                const StructLayout* sl = DL.getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i)
                {
                    storeV(s, vI((int64_t)(a + sl->getElementOffset(i)), 64), (*v.agg)[i], st->getElementType(i));
                }
            }
            else
            {
                Type* et    = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
                uint64_t es = DL.getTypeAllocSize(et);
                for (unsigned i = 0; i < v.agg->size(); ++i)
                {
                    storeV(s, vI((int64_t)(a + i * es), 64), (*v.agg)[i], et);
                }
            }
            return;
        }
        {
            uint32_t id;
            Z3_ast idx;
            int fld;
            if (n <= 8 && arrLoc(s, p, n, id, idx, fld))
            {
                {
                    Obj& o = *s.mem[id - 1];
                    oblige(s, "memory-safety", zand(zle(kI(0), idx), zlt(idx, arrLen(o))), "array write in bounds " + o.name);
                }
                if (!s.cuts.empty())
                {
                    frameCheckStore(s, id, s.mem[id - 1]->base, 1);
                }
                Obj& o              = wr(s, id);
                Z3_ast x            = o.fields[fld].real ? eF(v) : eI(asInt(v, 8 * n));
                o.fields[fld].arr   = R(Z3_mk_store(Z, o.fields[fld].arr, idx, x));
                return;
            }
        }
        uint64_t a = ptrAddr(s, p, n, "write");
        Loc l      = resolve(s, a, n, "write");
        if (!s.cuts.empty())
        {
            frameCheckStore(s, l.id, a, n);
        }
        if (s.mem[l.id - 1]->kind == Obj::CELLS)
        {
            CellKey& k  = s.ck[s.mem[l.id - 1]->es];
            CellField& f = s.cf[k.field];
            Z3_ast x    = f.real ? eF(v) : eI(asInt(v, 8 * n));
            f.arr       = R(Z3_mk_store_n(Z, f.arr, 4, k.k, x));
            return;
        }
        if (s.mem[l.id - 1]->konst)
        {
            oblige(s, "memory-safety", kB(false), "write to constant");
            throw PathEnd{"const write"};
        }
        Obj& o = wr(s, l.id);
        clearRange(o, l.off, n);
        Val x = v;
        if (x.k == Val::INT && x.w != 8 * n)
        {
            if (x.w == 1)
            {
                x = x.sym ? mkS(eI(x), 8 * n, 0, 1) : vI(x.c & 1, 8 * n);
            }
            else if (x.w < 8 * n)
            {
                x = zextV(x, 8 * n);
            }
        }
        putVal(o, l.off, x, n);
    }

    void memCopy(State& s, const Val& dst, const Val& src, uint64_t n)
    {
        if (n == 0)
        {
            return;
        }
        // array objects: only whole-element copies field by field
        {
            uint32_t sid = src.sym ? src.prov : findObj(s, (uint64_t)src.c);
            uint32_t did = dst.sym ? dst.prov : findObj(s, (uint64_t)dst.c);
            bool sa      = sid && s.mem[sid - 1]->kind == Obj::ARRAY;
            bool da      = did && s.mem[did - 1]->kind == Obj::ARRAY;
            if (sa || da)
            {
                Obj& o = *s.mem[(sa ? sid : did) - 1];
                auto fields = o.fields;
                uint64_t es = o.es;
                if (n % es != 0)
                {
                    throw Unsupported{"partial element copy in array object"};
                }
                for (uint64_t k = 0; k < n / es; ++k)
                {
                    for (auto& f : fields)
                    {
                        Type* t = f.real ? Type::getDoubleTy(M.getContext()) : (Type*)Type::getIntNTy(M.getContext(), 8 * f.size);
                        Val v   = loadV(s, addPtr(src, (int64_t)(k * es + f.off)), t);
                        storeV(s, addPtr(dst, (int64_t)(k * es + f.off)), v, t);
                    }
                }
                return;
            }
        }
        uint64_t da = (uint64_t)concretise(s, dst), sa = (uint64_t)concretise(s, src);
        Loc ls = resolve(s, sa, n, "read");
        Loc ld = resolve(s, da, n, "write");
        if (!s.cuts.empty())
        {
            frameCheckStore(s, ld.id, da, n);
        }
        ObjP so = s.mem[ls.id - 1];
        if (so->kind == Obj::CELLS || s.mem[ld.id - 1]->kind == Obj::CELLS)
        {
            Type* t = Type::getDoubleTy(M.getContext());
            if (n != 8)
            {
                throw Unsupported{"cell memcpy"};
            }
            storeV(s, dst, loadV(s, src, t), t);
            return;
        }
        ObjP keep = std::make_shared<Obj>(); // snapshot for overlap safety
        // gather
        std::vector<uint8_t> b(so->b.begin() + ls.off, so->b.begin() + ls.off + n);
        std::vector<uint8_t> st(so->st.begin() + ls.off, so->st.begin() + ls.off + n);
        std::vector<std::pair<unsigned, SymCell>> cs;
        if (!so->cells.empty())
        {
            auto it = so->cells.upper_bound((unsigned)ls.off);
            if (it != so->cells.begin())
            {
                --it;
            }
            for (; it != so->cells.end() && it->first < ls.off + n; ++it)
            {
                uint64_t c0 = it->first, c1 = it->first + it->second.size;
                uint64_t a0 = std::max<uint64_t>(c0, ls.off), a1 = std::min<uint64_t>(c1, ls.off + n);
                if (a0 >= a1)
                {
                    continue;
                }
                cs.push_back({(unsigned)(a0 - ls.off),
                              SymCell{extract(it->second.v, it->second.size, a0 - c0, a1 - a0), (unsigned)(a1 - a0)}});
            }
        }
        Obj& o = wr(s, ld.id);
        clearRange(o, ld.off, n);
        std::copy(b.begin(), b.end(), o.b.begin() + ld.off);
        std::copy(st.begin(), st.end(), o.st.begin() + ld.off);
        for (auto& c : cs)
        {
            putVal(o, ld.off + c.first, c.second.v, c.second.size);
        }
    }

    Val addPtr(const Val& p, int64_t k)
    {
        if (k == 0)
        {
            return p;
        }
        if (!p.sym)
        {
            Val r  = vI(p.c + k, 64);
            r.prov = p.prov;
            return r;
        }
        Val r  = mkS(zadd(p.e, kI(k)), 64, imin(64), imax(64));
        r.prov = p.prov;
        return r;
    }

    // ------------------------------------------------------------------ constants
    Val constV(State& s, const Constant* c)
    {
        Type* t = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c))
        {
            if (ci->getBitWidth() > 64)
            {
                Val v = vI(ci->getValue().getSExtValue(), 64);
                v.w   = ci->getBitWidth();
                return v;
            }
            return vI(ci->getSExtValue(), ci->getBitWidth());
        }
        if (auto* cf = dyn_cast<ConstantFP>(c))
        {
            if (t->isDoubleTy())
            {
                return vD(cf->getValueAPF().convertToDouble());
            }
            if (t->isFloatTy())
            {
                return vD(cf->getValueAPF().convertToFloat());
            }
            // long double: try
            APFloat f = cf->getValueAPF();
            bool li;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            return vD(f.convertToDouble());
        }
        if (isa<ConstantPointerNull>(c))
        {
            return vI(0, 64);
        }
        if (isa<UndefValue>(c))
        {
            if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
            {
                return undefAgg(t);
            }
            return vUndef(DL.getTypeStoreSize(t));
        }
        if (isa<GlobalVariable>(c) || isa<Function>(c))
        {
            return vI((int64_t)gaddr.at(c), 64);
        }
        if (auto* ga = dyn_cast<GlobalAlias>(c))
        {
            return constV(s, ga->getAliasee());
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c))
        {
            switch (ce->getOpcode())
            {
                case Instruction::GetElementPtr:
                {
                    auto* go = cast<GEPOperator>(ce);
                    APInt off(64, 0);
                    if (!go->accumulateConstantOffset(DL, off))
                    {
                        throw Unsupported{"constexpr gep"};
                    }
                    return addPtr(constV(s, cast<Constant>(go->getPointerOperand())), off.getSExtValue());
                }
                case Instruction::BitCast:
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::AddrSpaceCast:
                {
                    Val v = constV(s, ce->getOperand(0));
                    return v;
                }
                case Instruction::Sub:
                {
                    Val a = constV(s, ce->getOperand(0)), b = constV(s, ce->getOperand(1));
                    return vI(a.c - b.c, a.w);
                }
                case Instruction::Trunc:
                    return vI(constV(s, ce->getOperand(0)).c, t->getIntegerBitWidth());
                default:
                    throw Unsupported{"constexpr"};
            }
        }
        if (auto* az = dyn_cast<ConstantAggregateZero>(c))
        {
            Val r;
            r.k        = Val::AGG;
            r.agg      = std::make_shared<std::vector<Val>>();
            unsigned n = az->getElementCount().getFixedValue();
            for (unsigned i = 0; i < n; ++i)
            {
                r.agg->push_back(constV(s, az->getElementValue(i)));
            }
            return r;
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(c))
        {
            Val r;
            r.k   = Val::AGG;
            r.agg = std::make_shared<std::vector<Val>>();
            for (auto& op : ca->operands())
            {
                r.agg->push_back(constV(s, cast<Constant>(op)));
            }
            return r;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c))
        {
            Val r;
            r.k   = Val::AGG;
            r.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < cd->getNumElements(); ++i)
            {
                r.agg->push_back(constV(s, cd->getElementAsConstant(i)));
            }
            return r;
        }
        std::string str;
        raw_string_ostream os(str);
        c->print(os);
        throw Unsupported{"constant " + os.str().substr(0, 80)};
    }

    Val undefAgg(Type* t)
    {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
        {
            Val r;
            r.k        = Val::AGG;
            r.agg      = std::make_shared<std::vector<Val>>();
            unsigned n = t->isStructTy() ? t->getStructNumElements()
                                         : (t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements());
            for (unsigned i = 0; i < n; ++i)
            {
                Type* et = t->isStructTy() ? t->getStructElementType(i)
                                           : (t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType());
                r.agg->push_back(undefAgg(et));
            }
            return r;
        }
        return vUndef(DL.getTypeStoreSize(t));
    }

    void initConst(State& s, Obj& o, uint64_t off, const Constant* c)
    {
        Type* t = c->getType();
        if (isa<UndefValue>(c))
        {
            return;
        }
        if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c))
        {
            uint64_t n = DL.getTypeAllocSize(t);
            std::fill(o.b.begin() + off, o.b.begin() + off + n, 0);
            std::fill(o.st.begin() + off, o.st.begin() + off + n, 1);
            return;
        }
        if (auto* cs = dyn_cast<ConstantStruct>(c))
        {
            const StructLayout* sl = DL.getStructLayout(cs->getType());
            for (unsigned i = 0; i < cs->getNumOperands(); ++i)
            {
                initConst(s, o, off + sl->getElementOffset(i), cs->getOperand(i));
            }
            return;
        }
        if (auto* ca = dyn_cast<ConstantArray>(c))
        {
            uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType());
            for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            {
                initConst(s, o, off + i * es, ca->getOperand(i));
            }
            return;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c))
        {
            uint64_t es = DL.getTypeAllocSize(cd->getElementType());
            for (unsigned i = 0; i < cd->getNumElements(); ++i)
            {
                initConst(s, o, off + i * es, cd->getElementAsConstant(i));
            }
            return;
        }
        if (auto* ci = dyn_cast<ConstantInt>(c))
        {
            uint64_t n = DL.getTypeStoreSize(t);
            for (uint64_t i = 0; i < n; ++i)
            {
                o.b[off + i]  = i * 8 < ci->getBitWidth() ? (uint8_t)ci->getValue().lshr(8 * i).trunc(8 > ci->getBitWidth() ? ci->getBitWidth() : 8).getZExtValue() : 0;
                o.st[off + i] = 1;
            }
            return;
        }
        if (isa<ConstantFP>(c) && !t->isDoubleTy() && !t->isFloatTy())
        {
            return;
        }
        Val v = constV(s, c);
        putVal(o, off, v, DL.getTypeStoreSize(t));
    }

    FnInfo& info(Function* f)
    {
        auto& p = fi[f];
        if (!p)
        {
            p = std::make_unique<FnInfo>();
            for (auto& a : f->args())
            {
                p->idx[&a] = p->n++;
            }
            for (auto& bb : *f)
            {
                for (auto& i : bb)
                {
                    if (!i.getType()->isVoidTy())
                    {
                        p->idx[&i] = p->n++;
                    }
                }
            }
        }
        return *p;
    }

    LoopInfo& loops(Function* f)
    {
        auto& p = info(f);
        if (!p.li)
        {
            p.dt = std::make_unique<DominatorTree>(*f);
            p.li = std::make_unique<LoopInfo>(*p.dt);
        }
        return *p.li;
    }

    Frame& top(State& s)
    {
        FrameP& p = s.stack.back();
        if (p.use_count() > 1)
        {
            p = std::make_shared<Frame>(*p);
        }
        return *p;
    }

    Val opV(State& s, const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v))
        {
            return constV(s, c);
        }
        Frame& f = *s.stack.back();
        return f.regs[info(f.f).idx.find(v)->second];
    }

    void setV(State& s, const Instruction* i, const Val& v)
    {
        Frame& f                        = top(s);
        f.regs[info(f.f).idx.find(i)->second] = v;
    }

    // ------------------------------------------------------------------ int ops
    Val zextV(const Val& a, unsigned w)
    {
        if (a.k != Val::INT)
        {
            return a;
        }
        if (!a.sym)
        {
            return vI((int64_t)uval(a), w);
        }
        i128 lo, hi;
        urange(a, lo, hi);
        return mkS(eU(a), w, lo, hi);
    }

    Val sextV(const Val& a, unsigned w)
    {
        if (!a.sym)
        {
            return vI(a.w == 1 ? -(a.c & 1) : a.c, w);
        }
        if (a.w == 1)
        {
            return mkS(zite(a.e, kI(-1), kI(0)), w, -1, 0);
        }
        return mkS(a.e, w, a.lo, a.hi);
    }

    Val noOverflow(State& s, Z3_ast e, unsigned w, i128 lo, i128 hi, bool nsw, uint32_t prov = 0)
    {
        Val r;
        if (nsw && (lo < imin(w) || hi > imax(w)))
        {
            // UB if it overflows: an obligation
            if (!oblige(s, "no-signed-overflow", zand(zle(kI(imin(w)), e), zle(e, kI(imax(w)))), "signed arithmetic overflow"))
            {
                throw PathEnd{"overflow"};
            }
            lo = std::max(lo, imin(w));
            hi = std::min(hi, imax(w));
        }
        r      = mkS(e, w, lo, hi);
        r.prov = prov;
        return r;
    }

    Val binI(State& s, const Instruction* I, unsigned opc, Val a, Val b)
    {
        unsigned w = I->getType()->getScalarSizeInBits();
        bool nsw = false, nuw = false;
        if (auto* o = dyn_cast<OverflowingBinaryOperator>(I))
        {
            nsw = o->hasNoSignedWrap();
            nuw = o->hasNoUnsignedWrap();
        }
        (void)nuw;
        return binII(s, opc, a, b, w, nsw, I);
    }

    Val binII(State& s, unsigned opc, Val a, Val b, unsigned w, bool nsw, const Instruction* I)
    {
        if (w == 1 && a.k == Val::INT && b.k == Val::INT)
        {
            if (!a.sym && !b.sym)
            {
                bool x = a.c & 1, y = b.c & 1;
                switch (opc)
                {
                    case Instruction::And:
                    case Instruction::Mul:
                        return vI(x & y, 1);
                    case Instruction::Or:
                        return vI(x | y, 1);
                    case Instruction::Xor:
                    case Instruction::Add:
                    case Instruction::Sub:
                        return vI(x ^ y, 1);
                }
                throw Unsupported{"i1 op"};
            }
            Z3_ast x = eB(a), y = eB(b);
            switch (opc)
            {
                case Instruction::And:
                case Instruction::Mul:
                    return vBool(simp(zand(x, y)));
                case Instruction::Or:
                    return vBool(simp(zor(x, y)));
                case Instruction::Xor:
                case Instruction::Add:
                case Instruction::Sub:
                    return vBool(simp(R(Z3_mk_xor(Z, x, y))));
            }
            throw Unsupported{"i1 op"};
        }
        if (opc == Instruction::And && w % 8 == 0 && (a.k == Val::UNDEF || a.k == Val::RAW) && b.k == Val::INT && !b.sym)
        {
            Val r = maskRaw(a, uval(b), w);
            if (r.k != Val::UNDEF)
            {
                return r;
            }
        }
        if (opc == Instruction::Or && w % 8 == 0 && (a.k == Val::UNDEF) != (b.k == Val::UNDEF) && (a.k == Val::RAW || b.k == Val::RAW))
        {
            return rawOp(opc, a, b, w);
        }
        if (a.k == Val::UNDEF || b.k == Val::UNDEF)
        {
            // optimisers may create freeze/undef arithmetic whose result is unused
            return vUndef(w / 8);
        }
        if (w > 64)
        {
            return wideOp(opc, a, b, w);
        }
        if ((opc == Instruction::LShr || opc == Instruction::Shl || opc == Instruction::Or) && (a.k == Val::RAW || b.k == Val::RAW || a.k == Val::FLT || b.k == Val::FLT))
        {
            Val r = rawOp(opc, a, b, w);
            if (r.k != Val::UNDEF)
            {
                return r;
            }
        }
        a = asInt(a, w);
        b = asInt(b, w);
        if (!a.sym && !b.sym)
        {
            uint64_t ua = uval(a), ub = uval(b);
            i128 sa = a.c, sb = b.c;
            uint32_t pr = a.prov ? a.prov : b.prov;
            auto ck = [&](i128 r)
            {
                if (nsw && (r < imin(w) || r > imax(w)))
                {
                    oblige(s, "no-signed-overflow", kB(false), "signed arithmetic overflow");
                    throw PathEnd{"overflow"};
                }
                Val v  = vI((int64_t)(uint64_t)(u128)r, w);
                v.prov = opc == Instruction::Add ? pr : 0;
                return v;
            };
            switch (opc)
            {
                case Instruction::Add:
                    return ck(sa + sb);
                case Instruction::Sub:
                    return ck(sa - sb);
                case Instruction::Mul:
                    return ck(sa * sb);
                case Instruction::And:
                    return vI((int64_t)(ua & ub), w);
                case Instruction::Or:
                    return vI((int64_t)(ua | ub), w);
                case Instruction::Xor:
                    return vI((int64_t)(ua ^ ub), w);
                case Instruction::Shl:
                    if (ub >= w)
                    {
                        oblige(s, "no-undefined-shift", kB(false), "shift amount out of range");
                        throw PathEnd{"shift"};
                    }
                    if (nsw)
                    {
                        return ck(sa * ((i128)1 << ub));
                    }
                    return vI((int64_t)(ua << ub), w);
                case Instruction::LShr:
                    if (ub >= w)
                    {
                        oblige(s, "no-undefined-shift", kB(false), "shift amount out of range");
                        throw PathEnd{"shift"};
                    }
                    return vI((int64_t)(ua >> ub), w);
                case Instruction::AShr:
                    if (ub >= w)
                    {
                        oblige(s, "no-undefined-shift", kB(false), "shift amount out of range");
                        throw PathEnd{"shift"};
                    }
                    return vI(a.c >> ub, w);
                case Instruction::UDiv:
                case Instruction::URem:
                case Instruction::SDiv:
                case Instruction::SRem:
                    if (ub == 0)
                    {
                        oblige(s, "no-division-by-zero", kB(false), "division by zero");
                        throw PathEnd{"div0"};
                    }
                    if (opc == Instruction::UDiv)
                    {
                        return vI((int64_t)(ua / ub), w);
                    }
                    if (opc == Instruction::URem)
                    {
                        return vI((int64_t)(ua % ub), w);
                    }
                    if (opc == Instruction::SDiv)
                    {
                        return vI((int64_t)(sa / sb), w);
                    }
                    return vI((int64_t)(sa % sb), w);
            }
            throw Unsupported{"int op"};
        }
        switch (opc)
        {
            case Instruction::Add:
            {
                uint32_t pr = a.prov ? a.prov : b.prov;
                if (!a.sym && a.c == 0)
                {
                    return b;
                }
                if (!b.sym && b.c == 0)
                {
                    return a;
                }
                if (pr)
                {
                    nsw = false;
                    Val r;
                    r      = mkS(simp(zadd(eI(a), eI(b))), w, imin(w), imax(w));
                    r.prov = pr;
                    return r;
                }
                return noOverflow(s, simp(zadd(eI(a), eI(b))), w, a.lo + b.lo, a.hi + b.hi, nsw);
            }
            case Instruction::Sub:
            {
                if (!b.sym && b.c == 0)
                {
                    return a;
                }
                Z3_ast e = simp(zsub(eI(a), eI(b)));
                if (a.prov && b.prov)
                {
                    return mkS(e, w, imin(w), imax(w));
                }
                if (a.prov)
                {
                    Val r  = mkS(e, w, imin(w), imax(w));
                    r.prov = a.prov;
                    return r;
                }
                return noOverflow(s, e, w, a.lo - b.hi, a.hi - b.lo, nsw);
            }
            case Instruction::Mul:
            {
                i128 c[4];
                auto mulsat = [](i128 x, i128 y) -> i128
                {
                    const i128 LIM = (i128)1 << 100;
                    if (x == 0 || y == 0)
                    {
                        return 0;
                    }
                    long double q = (long double)x * (long double)y;
                    if (q > (long double)LIM)
                    {
                        return LIM;
                    }
                    if (q < -(long double)LIM)
                    {
                        return -LIM;
                    }
                    return x * y;
                };
                c[0] = mulsat(a.lo, b.lo);
                c[1] = mulsat(a.lo, b.hi);
                c[2] = mulsat(a.hi, b.lo);
                c[3] = mulsat(a.hi, b.hi);
                i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
                return noOverflow(s, simp(zmul(eI(a), eI(b))), w, lo, hi, nsw);
            }
            case Instruction::Shl:
            {
                if (b.sym)
                {
                    int64_t k = concretise(s, b);
                    b         = vI(k, w);
                }
                uint64_t k = uval(b);
                if (k >= w)
                {
                    oblige(s, "no-undefined-shift", kB(false), "shift amount out of range");
                    throw PathEnd{"shift"};
                }
                i128 m = (i128)1 << k;
                if (!a.sym)
                {
                    return binII(s, opc, a, b, w, nsw, I);
                }
                return noOverflow(s, simp(zmul(kI(m), eI(a))), w, a.lo * m, a.hi * m, nsw);
            }
            case Instruction::AShr:
            case Instruction::LShr:
            {
                if (b.sym)
                {
                    int64_t k = concretise(s, b);
                    b         = vI(k, w);
                }
                uint64_t k = uval(b);
                if (k >= w)
                {
                    oblige(s, "no-undefined-shift", kB(false), "shift amount out of range");
                    throw PathEnd{"shift"};
                }
                if (!a.sym)
                {
                    return binII(s, opc, a, b, w, nsw, I);
                }
                if (k == 0)
                {
                    return a;
                }
                i128 lo = a.lo, hi = a.hi;
                Z3_ast e = a.e;
                if (opc == Instruction::LShr)
                {
                    urange(a, lo, hi);
                    e = eU(a);
                }
                i128 d  = (i128)1 << k;
                auto fl = [&](i128 x)
                {
                    return x >= 0 ? x / d : -((-x + d - 1) / d);
                };
                return mkS(floorDivE(e, d), w, fl(lo), fl(hi));
            }
            case Instruction::And:
            {
                if (a.sym && b.sym)
                {
                    // and of 0/1 values
                    if (a.lo >= 0 && a.hi <= 1 && b.lo >= 0 && b.hi <= 1)
                    {
                        return mkS(zite(zand(zeq(a.e, kI(1)), zeq(b.e, kI(1))), kI(1), kI(0)), w, 0, 1);
                    }
                    // a & sign-splat patterns (x & (y>>31))
                    if (b.lo >= -1 && b.hi <= 0)
                    {
                        return mkS(zite(zeq(b.e, kI(-1)), a.e, kI(0)), w, std::min(a.lo, (i128)0), std::max(a.hi, (i128)0));
                    }
                    if (a.lo >= -1 && a.hi <= 0)
                    {
                        return mkS(zite(zeq(a.e, kI(-1)), b.e, kI(0)), w, std::min(b.lo, (i128)0), std::max(b.hi, (i128)0));
                    }
                    if (a.lo >= 0 && a.hi <= 255 && b.lo >= 0 && b.hi <= 255)
                    {
                        Z3_ast r = kI(0);
                        i128 hi  = 0;
                        for (int k = 0; k < 8; ++k)
                        {
                            i128 d = (i128)1 << k;
                            if (d <= a.hi && d <= b.hi)
                            {
                                r = zadd(r, zite(zand(zeq(bitE(a.e, k), kI(1)), zeq(bitE(b.e, k), kI(1))), kI(d), kI(0)));
                                hi += d;
                            }
                        }
                        return mkS(simp(r), w, 0, hi);
                    }
                    throw Unsupported{"symbolic and"};
                }
                if (!a.sym)
                {
                    std::swap(a, b);
                }
                uint64_t m = uval(b);
                if (m == 0)
                {
                    return vI(0, w);
                }
                uint64_t full = w >= 64 ? ~0ull : ((1ull << w) - 1);
                if (m == full)
                {
                    return a;
                }
                if ((m & (m + 1)) == 0) // low mask
                {
                    i128 d = (i128)m + 1;
                    if (a.lo >= 0 && a.hi <= (i128)m)
                    {
                        return a;
                    }
                    return mkS(modE(a.e, d), w, 0, d - 1);
                }
                uint64_t nm = ~m & full;
                if ((nm & (nm + 1)) == 0) // clear low bits
                {
                    i128 d  = (i128)nm + 1;
                    auto fl = [&](i128 x)
                    {
                        return (x >= 0 ? x / d : -((-x + d - 1) / d)) * d;
                    };
                    return mkS(zmul(kI(d), floorDivE(a.e, d)), w, fl(a.lo), fl(a.hi));
                }
                // contiguous mask: ((x >> l) & low) << l
                unsigned l = __builtin_ctzll(m);
                uint64_t h = m >> l;
                if ((h & (h + 1)) == 0)
                {
                    Z3_ast q = floorDivE(a.e, (i128)1 << l);
                    return mkS(zmul(kI((i128)1 << l), modE(q, (i128)h + 1)), w, 0, (i128)m > imax(w) ? (i128)m : (i128)m);
                }
                if (nm != 0)
                {
                    unsigned l2 = __builtin_ctzll(nm);
                    uint64_t h2 = nm >> l2;
                    if ((h2 & (h2 + 1)) == 0) // x & ~m = x - (x & m)
                    {
                        Val c = vI((int64_t)nm, w);
                        Val t = binII(s, Instruction::And, a, c, w, false, nullptr);
                        if (a.lo >= 0)
                        {
                            return mkS(simp(zsub(a.e, eI(t))), w, 0, a.hi);
                        }
                        return noOverflow(s, simp(zsub(a.e, eI(t))), w, imin(w), imax(w), false);
                    }
                }
                throw Unsupported{"and mask"};
            }
            case Instruction::Or:
            {
                if (auto* pd = dyn_cast_or_null<PossiblyDisjointInst>(I))
                {
                    if (pd->isDisjoint())
                    {
                        return noOverflow(s, simp(zadd(eI(a), eI(b))), w, a.lo + b.lo, a.hi + b.hi, false);
                    }
                }
                if (a.lo >= 0 && a.hi <= 1 && b.lo >= 0 && b.hi <= 1)
                {
                    return mkS(zite(zor(zeq(eI(a), kI(1)), zeq(eI(b), kI(1))), kI(1), kI(0)), w, 0, 1);
                }
                if (!a.sym)
                {
                    std::swap(a, b);
                }
                if (!b.sym)
                {
                    uint64_t m = uval(b);
                    if (m == 0)
                    {
                        return a;
                    }
                    if (b.c == -1)
                    {
                        return b;
                    }
                    // x | m = x + m - (x & m)
                    Val t = binII(s, Instruction::And, a, b, w, false, nullptr);
                    if (a.lo >= 0 && b.lo >= 0)
                    {
                        i128 h = 1;
                        while (h <= a.hi || h <= b.hi)
                        {
                            h *= 2;
                        }
                        return mkS(simp(zsub(zadd(eI(a), eI(b)), eI(t))), w, 0, std::min(h - 1, imax(w)));
                    }
                    return noOverflow(s, simp(zsub(zadd(eI(a), eI(b)), eI(t))), w, imin(w), imax(w), false);
                }
                // disjoint by known range/multiple: e.g. (hi << 32) | zext(lo)
                {
                    auto tryDis = [&](const Val& hi_, const Val& lo_) -> bool
                    {
                        i128 ll, lh;
                        urange(lo_, ll, lh);
                        if (lh >= ((i128)1 << 62))
                        {
                            return false;
                        }
                        i128 m = 1;
                        while (m <= lh)
                        {
                            m <<= 1;
                        }
                        i128 v;
                        return intConst(modE(hi_.e, m), v) && v == 0;
                    };
                    if (tryDis(a, b))
                    {
                        return mkS(simp(zadd(a.e, eU(b))), w, imin(w), imax(w));
                    }
                    if (tryDis(b, a))
                    {
                        return mkS(simp(zadd(b.e, eU(a))), w, imin(w), imax(w));
                    }
                }
                if (a.lo >= 0 && a.hi <= 255 && b.lo >= 0 && b.hi <= 255)
                {
                    Val t  = binII(s, Instruction::And, a, b, w, false, nullptr);
                    i128 h = 1;
                    while (h <= a.hi || h <= b.hi)
                    {
                        h *= 2;
                    }
                    return mkS(simp(zsub(zadd(eI(a), eI(b)), eI(t))), w, 0, h - 1);
                }
                throw Unsupported{"symbolic or"};
            }
            case Instruction::Xor:
            {
                if (!a.sym)
                {
                    std::swap(a, b);
                }
                if (!b.sym && b.c == -1)
                {
                    return mkS(zsub(kI(-1), a.e), w, -1 - a.hi, -1 - a.lo);
                }
                if (!b.sym && b.c == 0)
                {
                    return a;
                }
                if (a.lo >= 0 && a.hi <= 1 && b.lo >= 0 && b.hi <= 1)
                {
                    return mkS(zite(zeq(eI(a), eI(b)), kI(0), kI(1)), w, 0, 1);
                }
                if (b.sym && a.sym && b.lo >= -1 && b.hi <= 0)
                {
                    return mkS(zite(zeq(b.e, kI(-1)), zsub(kI(-1), a.e), a.e), w, imin(w), imax(w));
                }
                if (!b.sym)
                {
                    // x ^ m = x + m - 2*(x & m)
                    Val t = binII(s, Instruction::And, a, b, w, false, nullptr);
                    return mkS(simp(zsub(zadd(eI(a), eI(b)), zmul(kI(2), eI(t)))), w, imin(w), imax(w));
                }
                throw Unsupported{"symbolic xor"};
            }
            case Instruction::SDiv:
            case Instruction::SRem:
            {
                bool rem = opc == Instruction::SRem;
                if (!oblige(s, "no-division-by-zero", znot(zeq(eI(b), kI(0))), "division by zero"))
                {
                    throw PathEnd{"div0"};
                }
                if (b.sym)
                {
                    // concretise small divisors
                    if (b.hi - b.lo > 64)
                    {
                        Z3_ast x = eI(a), y = eI(b);
                        // trunc division through Euclidean div on |x|,|y|
                        Z3_ast ax = zite(zle(kI(0), x), x, zsub(kI(0), x));
                        Z3_ast ay = zite(zle(kI(0), y), y, zsub(kI(0), y));
                        Z3_ast q  = zdiv(ax, ay);
                        Z3_ast sg = R(Z3_mk_xor(Z, zlt(x, kI(0)), zlt(y, kI(0))));
                        Z3_ast qq = zite(sg, zsub(kI(0), q), q);
                        if (!rem)
                        {
                            return mkS(qq, w, imin(w), imax(w));
                        }
                        return mkS(zsub(x, zmul(y, qq)), w, imin(w), imax(w));
                    }
                    b = vI(concretise(s, b), w);
                    if (!a.sym)
                    {
                        return binII(s, opc, a, b, w, nsw, I);
                    }
                }
                i128 d = b.c;
                if (d == 1)
                {
                    return rem ? vI(0, w) : a;
                }
                i128 ad = d < 0 ? -d : d;
                bool exact = I && isa<PossiblyExactOperator>(I) && cast<PossiblyExactOperator>(I)->isExact();
                i128 qlo = a.lo / ad, qhi = a.hi / ad;
                // truncated division from the floor quotient and remainder (the same terms everywhere)
                bool ex  = exact && !rem;
                Z3_ast m = modE(a.e, ad), q = floorDivE(a.e, ad), r = m;
                if (a.lo < 0 && !ex)
                {
                    Z3_ast up = simp(zor(zle(kI(0), a.e), zeq(m, kI(0))));
                    q         = zite(up, q, zadd(q, kI(1)));
                    r         = zite(up, m, zsub(m, kI(ad)));
                }
                if (d < 0)
                {
                    q      = zsub(kI(0), q);
                    i128 t = qlo;
                    qlo    = -qhi;
                    qhi    = -t;
                }
                if (rem)
                {
                    return mkS(simp(r), w, a.lo >= 0 ? 0 : -(ad - 1), a.hi <= 0 ? 0 : ad - 1);
                }
                return mkS(q, w, qlo, qhi);
            }
            case Instruction::UDiv:
            case Instruction::URem:
            {
                bool rem = opc == Instruction::URem;
                if (!oblige(s, "no-division-by-zero", znot(zeq(eI(b), kI(0))), "division by zero"))
                {
                    throw PathEnd{"div0"};
                }
                if (b.sym)
                {
                    b = vI(concretise(s, b), w);
                    if (!a.sym)
                    {
                        return binII(s, opc, a, b, w, nsw, I);
                    }
                }
                i128 d = (i128)uval(b);
                i128 lo, hi;
                urange(a, lo, hi);
                if (rem)
                {
                    return mkS(modE(eU(a), d), w, 0, d - 1);
                }
                return mkS(floorDivE(eU(a), d), w, lo / d, hi / d);
            }
        }
        throw Unsupported{"int op"};
    }

    // operations on raw byte composites used for moving structs in registers
    static unsigned bytesOf(const Val& v, unsigned w)
    {
        (void)v;
        return w / 8;
    }

    std::vector<Val> pieces(const Val& v, unsigned bytes)
    {
        std::vector<Val> r;
        if (v.k == Val::RAW)
        {
            r = *v.agg;
        }
        else
        {
            Val x = v;
            x.bs  = bytes;
            r.push_back(x);
        }
        return r;
    }

    Val fromPieces(std::vector<Val> p, unsigned bytes)
    {
        if (p.size() == 1)
        {
            return p[0];
        }
        Val r;
        r.k   = Val::RAW;
        r.bs  = bytes;
        r.agg = std::make_shared<std::vector<Val>>(std::move(p));
        return r;
    }

    // x & m with a mask made of whole bytes: keeps the (possibly undefined) pieces selected and zeroes the others
    Val maskRaw(const Val& v, uint64_t m, unsigned w)
    {
        unsigned n = w / 8;
        for (unsigned k = 0; k < n; ++k)
        {
            uint64_t b = (m >> (8 * k)) & 255;
            if (b != 0 && b != 255)
            {
                return vUndef();
            }
        }
        std::vector<Val> out;
        unsigned pos = 0;
        auto src     = v.k == Val::UNDEF ? std::vector<Val>{} : pieces(v, n);
        if (src.empty())
        {
            Val u = vUndef(n);
            u.bs  = n;
            src.push_back(u);
        }
        for (auto& x : src)
        {
            unsigned a0 = 0;
            while (a0 < x.bs)
            {
                bool on     = ((m >> (8 * (pos + a0))) & 255) != 0;
                unsigned a1 = a0 + 1;
                while (a1 < x.bs && (((m >> (8 * (pos + a1))) & 255) != 0) == on)
                {
                    ++a1;
                }
                Val y = on ? extract(x, x.bs, a0, a1 - a0) : vI(0, 8 * (a1 - a0));
                y.bs  = a1 - a0;
                out.push_back(y);
                a0 = a1;
            }
            pos += x.bs;
        }
        bool allUndef = true;
        for (auto& x : out)
        {
            allUndef = allUndef && x.k == Val::UNDEF;
        }
        if (allUndef)
        {
            return vUndef();
        }
        bool hasUndef = false;
        for (auto& x : out)
        {
            hasUndef = hasUndef || x.k != Val::INT;
        }
        return hasUndef ? fromPieces(out, n) : asInt(fromPieces(out, n), w);
    }

    Val rawOp(unsigned opc, const Val& a, const Val& b, unsigned w)
    {
        unsigned n = w / 8;
        if (opc == Instruction::LShr || opc == Instruction::Shl)
        {
            if (b.sym || b.k != Val::INT || (uval(b) % 8) != 0)
            {
                return vUndef();
            }
            unsigned k = uval(b) / 8;
            auto p     = pieces(a, n);
            std::vector<Val> q;
            unsigned pos = 0;
            if (opc == Instruction::Shl)
            {
                Val z = vI(0, 8 * k);
                z.bs  = k;
                if (k)
                {
                    q.push_back(z);
                }
            }
            for (auto& x : p)
            {
                unsigned x0 = pos, x1 = pos + x.bs;
                pos = x1;
                unsigned lo = opc == Instruction::LShr ? k : 0, hi = opc == Instruction::LShr ? n : n - k;
                unsigned a0 = std::max(x0, lo), a1 = std::min(x1, hi);
                if (a0 < a1)
                {
                    Val y = extract(x, x.bs, a0 - x0, a1 - a0);
                    y.bs  = a1 - a0;
                    q.push_back(y);
                }
            }
            if (opc == Instruction::LShr && k)
            {
                Val z = vI(0, 8 * k);
                z.bs  = k;
                q.push_back(z);
            }
            return fromPieces(q, n);
        }
        if (opc == Instruction::Or)
        {
            // or where one side has zero pieces
            auto p = pieces(a, n), q = pieces(b, n);
            std::set<unsigned> cuts;
            unsigned pos = 0;
            for (auto& x : p)
            {
                pos += x.bs;
                cuts.insert(pos);
            }
            pos = 0;
            for (auto& x : q)
            {
                pos += x.bs;
                cuts.insert(pos);
            }
            auto sub = [&](std::vector<Val>& v, unsigned a0, unsigned a1)
            {
                unsigned ps = 0;
                for (auto& x : v)
                {
                    if (a0 >= ps && a1 <= ps + x.bs)
                    {
                        Val y = extract(x, x.bs, a0 - ps, a1 - a0);
                        y.bs  = a1 - a0;
                        return y;
                    }
                    ps += x.bs;
                }
                throw Unsupported{"raw or"};
            };
            std::vector<Val> out;
            unsigned prev = 0;
            for (unsigned c : cuts)
            {
                Val x = sub(p, prev, c), y = sub(q, prev, c);
                auto isz = [](const Val& v)
                {
                    return v.k == Val::INT && !v.sym && v.c == 0;
                };
                if (isz(y))
                {
                    out.push_back(x);
                }
                else if (isz(x))
                {
                    out.push_back(y);
                }
                else
                {
                    return vUndef();
                }
                prev = c;
            }
            return fromPieces(out, n);
        }
        return vUndef();
    }

    Val wideOp(unsigned opc, const Val& a, const Val& b, unsigned w)
    {
        if (w == 128)
        {
            Val r = rawOp(opc, a, b, w);
            if (r.k != Val::UNDEF)
            {
                return r;
            }
            // concrete 128-bit arithmetic with 64-bit operands
            if (a.k == Val::INT && b.k == Val::INT && !a.sym && !b.sym)
            {
                i128 x = a.c, y = b.c, z = 0;
                if (opc == Instruction::Mul)
                {
                    z = x * y;
                }
                else if (opc == Instruction::Add)
                {
                    z = x + y;
                }
                else if (opc == Instruction::Sub)
                {
                    z = x - y;
                }
                else
                {
                    throw Unsupported{"wide op"};
                }
                if (z < imin(64) || z > imax(64))
                {
                    throw Unsupported{"wide op result"};
                }
                Val v = vI((int64_t)z, 64);
                v.w   = 128;
                return v;
            }
        }
        throw Unsupported{"wide integer op"};
    }

    Val icmpV(State& s, CmpInst::Predicate p, Val a, Val b, unsigned w)
    {
        (void)s;
        if (a.k == Val::UNDEF || b.k == Val::UNDEF)
        {
            return vUndef(1);
        }
        if (a.k != Val::INT)
        {
            a = asInt(a, w);
        }
        if (b.k != Val::INT)
        {
            b = asInt(b, w);
        }
        if (!a.sym && !b.sym)
        {
            uint64_t ua = uval(a), ub = uval(b);
            int64_t sa = a.c, sb = b.c;
            bool r;
            switch (p)
            {
                case CmpInst::ICMP_EQ:
                    r = ua == ub;
                    break;
                case CmpInst::ICMP_NE:
                    r = ua != ub;
                    break;
                case CmpInst::ICMP_ULT:
                    r = ua < ub;
                    break;
                case CmpInst::ICMP_ULE:
                    r = ua <= ub;
                    break;
                case CmpInst::ICMP_UGT:
                    r = ua > ub;
                    break;
                case CmpInst::ICMP_UGE:
                    r = ua >= ub;
                    break;
                case CmpInst::ICMP_SLT:
                    r = sa < sb;
                    break;
                case CmpInst::ICMP_SLE:
                    r = sa <= sb;
                    break;
                case CmpInst::ICMP_SGT:
                    r = sa > sb;
                    break;
                default:
                    r = sa >= sb;
            }
            return vI(r, 1);
        }
        if (w == 1)
        {
            Z3_ast x = eB(a), y = eB(b);
            if (p == CmpInst::ICMP_EQ)
            {
                return vBool(simp(R(Z3_mk_iff(Z, x, y))));
            }
            if (p == CmpInst::ICMP_NE)
            {
                return vBool(simp(R(Z3_mk_xor(Z, x, y))));
            }
            throw Unsupported{"icmp i1"};
        }
        bool uns = CmpInst::isUnsigned(p);
        if (uns && (a.prov || b.prov))
        {
            uns = false; // addresses are positive
        }
        i128 al, ah, bl, bh;
        if (uns)
        {
            urange(a, al, ah);
            urange(b, bl, bh);
        }
        else
        {
            al = a.lo;
            ah = a.hi;
            bl = b.lo;
            bh = b.hi;
        }
        Z3_ast x = uns ? eU(a) : eI(a), y = uns ? eU(b) : eI(b);
        switch (p)
        {
            case CmpInst::ICMP_EQ:
                if (ah < bl || bh < al)
                {
                    return vI(0, 1);
                }
                return vBool(simp(zeq(eI(a), eI(b))));
            case CmpInst::ICMP_NE:
                if (ah < bl || bh < al)
                {
                    return vI(1, 1);
                }
                return vBool(simp(znot(zeq(eI(a), eI(b)))));
            case CmpInst::ICMP_ULT:
            case CmpInst::ICMP_SLT:
                if (ah < bl)
                {
                    return vI(1, 1);
                }
                if (al >= bh)
                {
                    return vI(0, 1);
                }
                return vBool(simp(zlt(x, y)));
            case CmpInst::ICMP_ULE:
            case CmpInst::ICMP_SLE:
                if (ah <= bl)
                {
                    return vI(1, 1);
                }
                if (al > bh)
                {
                    return vI(0, 1);
                }
                return vBool(simp(zle(x, y)));
            case CmpInst::ICMP_UGT:
            case CmpInst::ICMP_SGT:
                if (bh < al)
                {
                    return vI(1, 1);
                }
                if (bl >= ah)
                {
                    return vI(0, 1);
                }
                return vBool(simp(zlt(y, x)));
            default:
                if (bh <= al)
                {
                    return vI(1, 1);
                }
                if (bl > ah)
                {
                    return vI(0, 1);
                }
                return vBool(simp(zle(y, x)));
        }
    }

    // ------------------------------------------------------------------ float ops
    static bool fastD(double a, double b, int op, double& r)
    {
        std::feclearexcept(FE_ALL_EXCEPT);
        volatile double x = a, y = b, z;
        switch (op)
        {
            case 0:
                z = x + y;
                break;
            case 1:
                z = x - y;
                break;
            case 2:
                z = x * y;
                break;
            default:
                z = x / y;
        }
        r = z;
        return !std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW) || !std::isfinite(a) || !std::isfinite(b);
    }

    Val normF(Z3_ast e)
    {
        e = simp(e);
        std::string str;
        if (isNumeral(e, &str))
        {
            // representable exactly as double?
            auto sl = str.find('/');
            if (sl == std::string::npos)
            {
                if (str.size() < 16)
                {
                    return vD((double)std::stoll(str));
                }
            }
            else if (str.size() < 32)
            {
                std::string n = str.substr(0, sl), d = str.substr(sl + 1);
                if (n.size() < 16 && d.size() < 16)
                {
                    int64_t dn = std::stoll(d);
                    if ((dn & (dn - 1)) == 0)
                    {
                        return vD((double)std::stoll(n) / (double)dn);
                    }
                }
            }
        }
        return vF(e);
    }

    Val binF(State& s, unsigned opc, const Val& a0, const Val& b0)
    {
        if (a0.k == Val::UNDEF || b0.k == Val::UNDEF)
        {
            return vUndef(8);
        }
        if (a0.k != Val::FLT || b0.k != Val::FLT)
        {
            throw Unsupported{"float op on non float"};
        }
        int op = opc == Instruction::FAdd ? 0 : opc == Instruction::FSub ? 1 : opc == Instruction::FMul ? 2 : opc == Instruction::FDiv ? 3 : -1;
        if (op < 0)
        {
            throw Unsupported{"frem"};
        }
        if (!a0.sym && !b0.sym)
        {
            double r;
            if (op == 3 && b0.d == 0)
            {
                return vD(a0.d / b0.d); // IEEE inf/nan, concrete
            }
            if (fastD(a0.d, b0.d, op, r))
            {
                return vD(r);
            }
        }
        if ((!a0.sym && !std::isfinite(a0.d)) || (!b0.sym && !std::isfinite(b0.d)))
        {
            throw Unsupported{"non-finite float arithmetic"};
        }
        Z3_ast x = eF(a0), y = eF(b0);
        switch (op)
        {
            case 0:
                return normF(zadd(x, y));
            case 1:
                return normF(zsub(x, y));
            case 2:
                return normF(zmul(x, y));
            default:
            {
                if (!oblige(s, "no-division-by-zero", znot(zeq(y, kD(0))), "floating division by zero"))
                {
                    throw PathEnd{"fdiv0"};
                }
                return normF(zdiv(x, y));
            }
        }
    }

    Val fcmpV(CmpInst::Predicate p, const Val& a, const Val& b)
    {
        if (a.k == Val::UNDEF || b.k == Val::UNDEF)
        {
            return vUndef(1);
        }
        if (p == CmpInst::FCMP_FALSE)
        {
            return vI(0, 1);
        }
        if (p == CmpInst::FCMP_TRUE)
        {
            return vI(1, 1);
        }
        if (!a.sym && !b.sym)
        {
            double x = a.d, y = b.d;
            bool un = std::isnan(x) || std::isnan(y), r = false;
            switch (p)
            {
                case CmpInst::FCMP_OEQ:
                    r = !un && x == y;
                    break;
                case CmpInst::FCMP_OGT:
                    r = x > y;
                    break;
                case CmpInst::FCMP_OGE:
                    r = x >= y;
                    break;
                case CmpInst::FCMP_OLT:
                    r = x < y;
                    break;
                case CmpInst::FCMP_OLE:
                    r = x <= y;
                    break;
                case CmpInst::FCMP_ONE:
                    r = !un && x != y;
                    break;
                case CmpInst::FCMP_ORD:
                    r = !un;
                    break;
                case CmpInst::FCMP_UNO:
                    r = un;
                    break;
                case CmpInst::FCMP_UEQ:
                    r = un || x == y;
                    break;
                case CmpInst::FCMP_UGT:
                    r = un || x > y;
                    break;
                case CmpInst::FCMP_UGE:
                    r = un || x >= y;
                    break;
                case CmpInst::FCMP_ULT:
                    r = un || x < y;
                    break;
                case CmpInst::FCMP_ULE:
                    r = un || x <= y;
                    break;
                default:
                    r = un || x != y;
            }
            return vI(r, 1);
        }
        // comparisons with infinities
        auto inf = [](const Val& v)
        {
            return !v.sym && std::isinf(v.d);
        };
        if (inf(a) || inf(b))
        {
            Val x = a, y = b;
            if (x.sym)
            {
                x = vD(0);
            }
            if (y.sym)
            {
                y = vD(0);
            }
            return fcmpV(p, x, y);
        }
        Z3_ast x = eF(a), y = eF(b), r;
        switch (p)
        {
            case CmpInst::FCMP_OEQ:
            case CmpInst::FCMP_UEQ:
                r = zeq(x, y);
                break;
            case CmpInst::FCMP_OGT:
            case CmpInst::FCMP_UGT:
                r = zlt(y, x);
                break;
            case CmpInst::FCMP_OGE:
            case CmpInst::FCMP_UGE:
                r = zle(y, x);
                break;
            case CmpInst::FCMP_OLT:
            case CmpInst::FCMP_ULT:
                r = zlt(x, y);
                break;
            case CmpInst::FCMP_OLE:
            case CmpInst::FCMP_ULE:
                r = zle(x, y);
                break;
            case CmpInst::FCMP_ONE:
            case CmpInst::FCMP_UNE:
                r = znot(zeq(x, y));
                break;
            case CmpInst::FCMP_ORD:
                return vI(1, 1);
            default:
                return vI(0, 1);
        }
        return vBool(simp(r));
    }

#include "exec.inc"
};

#include "main.inc"
