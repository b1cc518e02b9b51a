// Contract language used by the files in /verif/contracts.
// The same file is (1) compiled to LLVM IR and verified by the engine (VP_NATIVE undefined) and (2) compiled natively
// (VP_NATIVE defined) to replay a counter-example, or to run bounded enumerations, on the real compiled code.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>

extern "C"
{
    int64_t vp_any_i64(const char* name, int64_t lo, int64_t hi); // an arbitrary integer in [lo,hi]
    double vp_any_f64(const char* name);                          // an arbitrary real
    int64_t vp_concretise(int64_t x);                             // case split on every feasible value
    void vp_assume(bool c);                                       // precondition
    void vp_assert(bool c, const char* label);                    // postcondition (an obligation)
    void vp_cover(const char* label);                             // reachability witness (non-vacuity)
    void vp_note(const char* label, int64_t v);
    int vp_symbolic();
    void vp_throw_ok(bool ok);
    int vp_field_new(const char* name, bool real);
    void* vp_cell(int field, int64_t level, int64_t x, int64_t y, int64_t z);
    void* vp_array_new(const char* name, int64_t elem_size, int64_t len, int64_t nfields, const int64_t* desc);
    void vp_array_setlen(void* a, int64_t n);
    int64_t vp_array_len(void* a);
    void vp_assert_forall(bool (*fn)(void*, int64_t), void* ctx, const char* label);
    void vp_assume_forall(bool (*fn)(void*, int64_t), void* ctx);
    void vp_inv(const char* id, bool c);
    void vp_inv_forall(bool (*fn)(void*, int64_t), void* ctx, const char* id);
    void vp_assigns(void* p, int64_t n);
    void vp_inv_cut(const char* id);
}

// VC: a contract proved by the verifier (and also run natively).  BC: bounded, seeded-random native runs.
// BX: bounded, exhaustive native enumeration of every choice.  KF: demonstrates a known finding (it fails while present).
#ifdef VP_NATIVE
struct VpEntry
{
    const char* name;
    void (*f)();
    int kind;
};

struct VpReg
{
    VpReg(const char* name, void (*f)(), int kind);
};
#define VP_ENTRY(name, kind)                        \
    extern "C" void name();                         \
    static VpReg vp_reg_##name(#name, name, kind);  \
    extern "C" void name()
#define VC(name) VP_ENTRY(vc_##name, 0)
#define BC(name) VP_ENTRY(bc_##name, 1)
#define BX(name) VP_ENTRY(bx_##name, 2)
#define KF(name) VP_ENTRY(kf_##name, 3)
#else
#define VC(name) extern "C" void vc_##name()
#define BC(name) extern "C" void bc_##name()
#define BX(name) extern "C" void bx_##name()
#define KF(name) extern "C" void kf_##name()
#endif

inline int vp_any_int(const char* n, int lo, int hi)
{
    return static_cast<int>(vp_any_i64(n, lo, hi));
}

// a case split: the result is a concrete value on each path
inline int vp_case(const char* n, int lo, int hi)
{
    return static_cast<int>(vp_concretise(vp_any_i64(n, lo, hi)));
}

inline bool vp_any_bool(const char* n)
{
    return vp_any_i64(n, 0, 1) != 0;
}

// equality of reals: exact in the proof; natively up to rounding
inline bool vp_eq(double a, double b)
{
    if (vp_symbolic())
    {
        return a == b;
    }
    double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
    return a == b || std::fabs(a - b) <= 1e-9 * (1. + m);
}

// logical connectives without short-circuit branching (keeps conditions as one formula)
inline bool vp_implies(bool a, bool b)
{
    return (!a) | b;
}

inline bool vp_iff(bool a, bool b)
{
    return a == b;
}

// floor division by a power of two and by a positive constant: the mathematical definition
inline int64_t vp_fdiv(int64_t a, int64_t b)
{
    int64_t q = a / b;
    return q - static_cast<int64_t>(((a % b) != 0) & ((a % b) < 0));
}
