// C05: the algebra of sets (intersection, union, difference, translation, level change) enumerates exactly the cells
// of the mathematical set, each once
#include "common.hpp"
#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>
#include <samurai/subset/node_op.hpp>
#include <samurai/subset/subset_op.hpp>

static constexpr int B = 1 << 20;

// the mathematical projection of a set at level l, translated by t, on the level m
template <std::size_t dim, std::size_t N>
struct Node
{
    SymSet<dim, N> s;
    int level;
    Pt<dim> t{};
    samurai::LevelCellArray<dim> a;

    Node(int lo, int hi, int level_, int maxlen = 0, int nrows = 0)
        : s(any_set<dim, N>(lo, hi, maxlen, nrows))
        , level(level_)
    {
        build();
    }

    Node(const SymSet<dim, N>& s_, int level_)
        : s(s_)
        , level(level_)
    {
        build();
    }

    void build()
    {
        samurai::LevelCellList<dim> l(static_cast<std::size_t>(level));
        s.fill(l);
        a = samurai::LevelCellArray<dim>(l);
    }

    bool in(const Pt<dim>& q, int m) const
    {
        bool r = false;
        for (std::size_t k = 0; k < s.n; ++k)
        {
            i64 st = i64(s.p[k].s) + t[0], en = i64(s.p[k].e) + t[0];
            bool b = true;
            if (m >= level)
            {
                i64 x = vp_fdiv(q[0], 1 << (m - level));
                b     = (st <= x) & (x < en);
                for (std::size_t d = 1; d < dim; ++d)
                {
                    b = b & (vp_fdiv(q[d], 1 << (m - level)) == i64(s.p[k].row[d - 1]) + t[d]);
                }
            }
            else
            {
                int f = 1 << (level - m);
                b     = (vp_fdiv(st, f) <= q[0]) & (q[0] <= vp_fdiv(en - 1, f));
                for (std::size_t d = 1; d < dim; ++d)
                {
                    b = b & (vp_fdiv(i64(s.p[k].row[d - 1]) + t[d], f) == q[d]);
                }
            }
            r = r | b;
        }
        return r;
    }
};

template <std::size_t dim>
static Pt<dim> coarse(const Pt<dim>& q, int L, int m)
{
    Pt<dim> c = q;
    for (std::size_t d = 0; d < dim; ++d)
    {
        c[d] = static_cast<int>(L > m ? vp_fdiv(q[d], 1 << (L - m)) : q[d]);
    }
    return c;
}

// runs the set and checks that the point q is visited exactly `want` times
template <std::size_t dim, class Set>
static void check(Set&& set, int L, int common, const Pt<dim>& q, bool want, bool replay = false)
{
    int seen     = 0;
    bool valid   = true;
    bool ordered = true, first = true;
    Pt<dim> prev{};
    auto s = set.on(static_cast<std::size_t>(L));
    vp_assert(s.level() == static_cast<std::size_t>(L), "level-of-the-result");
    s(
        [&](const auto& i, const auto& idx)
        {
            seen += static_cast<int>(iv_has<dim>(i, idx, q));
            valid = valid & (i.start < i.end) & (i.step == 1);
            Pt<dim> c{};
            c[0] = i.start;
            for (std::size_t d = 1; d < dim; ++d)
            {
                c[d] = idx[d - 1];
            }
            if (!first && L <= common)
            {
                ordered = ordered & lex_less<dim>(prev, c);
            }
            prev    = c;
            prev[0] = i.end;
            first   = false;
        });
    vp_assert(seen == static_cast<int>(want), "each-cell-of-the-set-exactly-once");
    vp_assert(valid, "intervals-valid");
    vp_assert(ordered, "intervals-ordered-and-separated");
    if (!replay)
    {
        return;
    }
    // the same through apply_op, and a second time (replay)
    int seen2 = 0;
    s.apply_op(
        [&](std::size_t level, const auto& i, const auto& idx)
        {
            seen2 += static_cast<int>(iv_has<dim>(i, idx, q)) + (level == static_cast<std::size_t>(L) ? 0 : 1000);
        });
    vp_assert(seen2 == seen, "apply_op-same-cells");
}

enum
{
    INTER,
    UNION,
    DIFF
};

// pieces given in order, separated on a row: every canonical set is of this form
template <std::size_t dim, std::size_t N>
static SymSet<dim, N> sorted_set(int bound)
{
    auto s = any_set<dim, N>(-bound, bound);
    for (std::size_t k = 1; k < N; ++k)
    {
        Pt<dim> u{}, v{};
        u[0] = s.p[k - 1].e;
        v[0] = s.p[k].s;
        for (std::size_t d = 1; d < dim; ++d)
        {
            u[d] = s.p[k - 1].row[d - 1];
            v[d] = s.p[k].row[d - 1];
        }
        vp_assume(lex_less<dim>(u, v));
    }
    return s;
}

template <std::size_t dim, std::size_t N, std::size_t M>
static void binary(int op, int la, int lb, int L)
{
    Node<dim, N> a(sorted_set<dim, N>(B), la);
    Node<dim, M> b(sorted_set<dim, M>(B), lb);
    int common = la > lb ? la : lb;
    int m      = L < common ? L : common;
    auto q     = any_point<dim>("q", -8 * B, 8 * B);
    auto c     = coarse<dim>(q, L, m);
    bool ia = a.in(c, m), ib = b.in(c, m);
    if (op == INTER)
    {
        check<dim>(samurai::intersection(a.a, b.a), L, common, q, ia & ib);
    }
    else if (op == UNION)
    {
        check<dim>(samurai::union_(a.a, b.a), L, common, q, ia | ib);
    }
    else
    {
        check<dim>(samurai::difference(a.a, b.a), L, common, q, ia & !ib);
    }
}

// relative levels: equal, first coarser, first finer; result below, between, above
#define ENTRY(op, OP, d, n, m, la, lb, L) \
    VC(op##_##d##d_##la##lb##_on##L)      \
    {                                     \
        binary<d, n, m>(OP, la, lb, L);   \
    }
#define ALL_LEVELS(op, OP, d, n, m) \
    ENTRY(op, OP, d, n, m, 1, 1, 0) \
    ENTRY(op, OP, d, n, m, 1, 1, 1) \
    ENTRY(op, OP, d, n, m, 1, 1, 2) \
    ENTRY(op, OP, d, n, m, 1, 2, 0) \
    ENTRY(op, OP, d, n, m, 1, 2, 1) \
    ENTRY(op, OP, d, n, m, 1, 2, 2) \
    ENTRY(op, OP, d, n, m, 1, 2, 3) \
    ENTRY(op, OP, d, n, m, 2, 1, 0) \
    ENTRY(op, OP, d, n, m, 2, 1, 1) \
    ENTRY(op, OP, d, n, m, 2, 1, 2) \
    ENTRY(op, OP, d, n, m, 2, 1, 3)
#define ALL_LEVELS_2D(op, OP)        \
    ENTRY(op, OP, 2, 1, 1, 1, 1, 0)  \
    ENTRY(op, OP, 2, 2, 1, 1, 1, 1)  \
    ENTRY(op, OP, 2, 2, 1, 1, 1, 2)  \
    ENTRY(op, OP, 2, 1, 1, 1, 2, 0)  \
    ENTRY(op, OP, 2, 2, 1, 1, 2, 1)  \
    ENTRY(op, OP, 2, 2, 1, 1, 2, 2)  \
    ENTRY(op, OP, 2, 1, 1, 1, 2, 3)  \
    ENTRY(op, OP, 2, 1, 1, 2, 1, 0)  \
    ENTRY(op, OP, 2, 1, 1, 2, 1, 1)  \
    ENTRY(op, OP, 2, 1, 1, 2, 1, 2)  \
    ENTRY(op, OP, 2, 1, 1, 2, 1, 3)
//@opt * bound=at most 2 intervals (1-D) or 2 row pieces (2-D) per set, levels 0 to 3; coordinates arbitrary in +-2^20 nat=0.3
ALL_LEVELS(inter, INTER, 1, 2, 2)
ALL_LEVELS(union, UNION, 1, 2, 2)
ALL_LEVELS(diff, DIFF, 1, 2, 2)
ALL_LEVELS_2D(inter, INTER)
ALL_LEVELS_2D(union, UNION)
ALL_LEVELS_2D(diff, DIFF)

// deeper sets
#define DEEP(op, OP, d, n, m, la, lb, L)        \
    VC(deep_##op##_##d##d_##la##lb##_on##L)     \
    {                                           \
        binary<d, n, m>(OP, la, lb, L);         \
    }
#define ALL_DEEP(op, OP)             \
    DEEP(op, OP, 2, 2, 1, 1, 1, 0)   \
    DEEP(op, OP, 2, 2, 1, 1, 2, 0)   \
    DEEP(op, OP, 2, 2, 1, 2, 1, 1)   \
    DEEP(op, OP, 2, 2, 1, 2, 1, 2)   \
    DEEP(op, OP, 2, 2, 1, 2, 1, 3)   \
    DEEP(op, OP, 2, 2, 1, 2, 1, 0)   \
    DEEP(op, OP, 1, 3, 3, 1, 1, 1)   \
    DEEP(op, OP, 1, 3, 2, 2, 1, 1)
//@opt vc_deep_* tier=thorough time=600 ttime=600 bound=at most 3 intervals (1-D) or 2 row pieces (2-D)
ALL_DEEP(inter, INTER)
ALL_DEEP(union, UNION)
ALL_DEEP(diff, DIFF)

// translated sets, and contraction
template <std::size_t dim, std::size_t N>
static void translated(int la, int lb, int L, int lo = -64, int hi = 64)
{
    Node<dim, N> a(sorted_set<dim, N>(B), la);
    Node<dim, 1> b(sorted_set<dim, 1>(B), lb);
    xt::xtensor_fixed<int, xt::xshape<dim>> t;
    for (std::size_t d = 0; d < dim; ++d)
    {
        a.t[d] = vp_any_int("t", lo, hi);
        t[d]   = a.t[d];
    }
    int common = la > lb ? la : lb;
    int m      = L < common ? L : common;
    auto q     = any_point<dim>("q", -8 * B, 8 * B);
    auto c     = coarse<dim>(q, L, m);
    check<dim>(samurai::intersection(samurai::translate(a.a, t), b.a), L, common, q, a.in(c, m) & b.in(c, m), true);
}

VC(translate_1d_same)
{
    translated<1, 2>(1, 1, 1);
}

VC(translate_1d_finer_result)
{
    translated<1, 1>(1, 2, 2);
}

VC(translate_1d_coarser_result)
{
    translated<1, 2>(2, 1, 1);
}

VC(translate_2d_same)
{
    translated<2, 2>(1, 1, 1);
}

VC(translate_2d_finer_result)
{
    translated<2, 1>(1, 2, 2);
}

VC(translate_2d_coarser_result)
{
    translated<2, 1>(2, 1, 1);
}

VC(translate_3d_same)
{
    translated<3, 1>(1, 1, 1);
}

template <std::size_t dim>
static void contracted()
{
    Node<dim, 1> a(sorted_set<dim, 1>(B), 1), b(a.s, 1);
    xt::xtensor_fixed<int, xt::xshape<dim>> t;
    for (std::size_t d = 0; d < dim; ++d)
    {
        a.t[d] = d == 0 ? vp_any_int("t", 0, 64) : vp_case("t", 0, 1);
        t[d]   = a.t[d];
        b.t[d] = -a.t[d];
    }
    auto q = any_point<dim>("q", -8 * B, 8 * B);
    check<dim>(samurai::contraction(a.a, t), 1, 1, q, a.in(q, 1) & b.in(q, 1));
}

VC(contraction_1d)
{
    contracted<1>();
}

VC(contraction_2d)
{
    contracted<2>();
}

// compositions of three sets
template <std::size_t dim>
static void composed(int shape, int la, int lb, int lc, int L)
{
    Node<dim, 1> a(sorted_set<dim, 1>(B), la), b(sorted_set<dim, 1>(B), lb), c(sorted_set<dim, 1>(B), lc);
    int common = std::max(la, std::max(lb, lc));
    int m      = L < common ? L : common;
    auto q     = any_point<dim>("q", -8 * B, 8 * B);
    auto p     = coarse<dim>(q, L, m);
    bool x = a.in(p, m), y = b.in(p, m), z = c.in(p, m);
    using namespace samurai;
    switch (shape)
    {
        case 0:
            return check<dim>(difference(intersection(a.a, b.a), c.a), L, common, q, x & y & !z);
        case 1:
            return check<dim>(difference(a.a, union_(b.a, c.a)), L, common, q, x & !(y | z));
        case 2:
            return check<dim>(intersection(difference(a.a, b.a), c.a), L, common, q, x & !y & z);
        case 3:
            return check<dim>(union_(difference(a.a, b.a), c.a), L, common, q, (x & !y) | z);
        case 4:
            return check<dim>(difference(a.a, difference(b.a, c.a)), L, common, q, x & !(y & !z));
        case 5:
            return check<dim>(intersection(a.a, b.a, c.a), L, common, q, x & y & z);
        case 6:
            return check<dim>(union_(a.a, b.a, c.a), L, common, q, x | y | z);
        case 7:
            return check<dim>(difference(a.a, b.a, c.a), L, common, q, x & !y & !z);
        default:
            return check<dim>(union_(intersection(a.a, b.a), c.a), L, common, q, (x & y) | z);
    }
}

#define SHAPE(k)                  \
    VC(composed_1d_##k)           \
    {                             \
        composed<1>(k, 1, 1, 1, 1); \
    }                             \
    VC(composed_1d_levels_##k)    \
    {                             \
        composed<1>(k, 1, 0, 2, 1); \
    }                             \
    VC(composed_2d_##k)           \
    {                             \
        composed<2>(k, 1, 1, 1, 1); \
    }
SHAPE(0)
SHAPE(1)
SHAPE(2)
SHAPE(3)
SHAPE(4)
SHAPE(5)
SHAPE(6)
SHAPE(7)
SHAPE(8)

// three dimensions, and empty sets
VC(binary_3d_same)
{
    binary<3, 1, 1>(vp_case("op", 0, 2), 1, 1, 1);
}

VC(binary_3d_coarser)
{
    binary<3, 1, 1>(vp_case("op", 0, 2), 1, 1, 0);
}

VC(with_empty)
{
    Node<2, 1> a(sorted_set<2, 1>(B), 1);
    samurai::LevelCellArray<2> e(static_cast<std::size_t>(vp_case("le", 0, 2)));
    auto q = any_point<2>("q", -8 * B, 8 * B);
    int L  = vp_case("L", 0, 1);
    bool x = a.in(q, L);
    check<2>(samurai::union_(a.a, e), L, 2, q, x);
    check<2>(samurai::union_(e, a.a), L, 2, q, x);
    check<2>(samurai::difference(a.a, e), L, 2, q, x);
    check<2>(samurai::difference(e, a.a), L, 2, q, false);
    check<2>(samurai::intersection(a.a, e), L, 2, q, false);
    check<2>(samurai::intersection(e, a.a), L, 2, q, false);
    check<2>(samurai::difference(samurai::union_(e, a.a), e), L, 2, q, x);
}

// bounded, native: random sets of many pieces, random levels, translations and compositions, every cell checked
template <std::size_t dim>
static void random_sets()
{
    constexpr int R = dim == 1 ? 24 : dim == 2 ? 6 : 3;
    using SS        = SymSet<dim, 12>;
    auto mk         = [&](int level)
    {
        SS s;
        s.n = static_cast<std::size_t>(vp_case("n", 0, 12));
        for (std::size_t k = 0; k < s.n; ++k)
        {
            s.p[k].s = vp_any_int("s", -R, R);
            s.p[k].e = s.p[k].s + vp_any_int("len", 1, 4);
            for (std::size_t d = 1; d < dim; ++d)
            {
                s.p[k].row[d - 1] = vp_any_int("row", -R, R);
            }
        }
        Node<dim, 12> n(s, level);
        return n;
    };
    int la = vp_case("la", 0, 3), lb = vp_case("lb", 0, 3), lc = vp_case("lc", 0, 3), L = vp_case("L", 0, 3);
    auto a = mk(la);
    auto b = mk(lb);
    auto c = mk(lc);
    xt::xtensor_fixed<int, xt::xshape<dim>> t, u;
    for (std::size_t d = 0; d < dim; ++d)
    {
        a.t[d] = t[d] = vp_any_int("t", -3, 3);
        b.t[d] = u[d] = vp_any_int("u", -3, 3);
    }
    int common = std::max(la, std::max(lb, lc));
    int m      = L < common ? L : common;
    int shape  = vp_case("shape", 0, 8);
    using namespace samurai;
    auto ta  = translate(a.a, t);
    auto tb  = translate(b.a, u);
    auto run = [&](auto set, auto f)
    {
        std::map<Pt<dim>, int> seen;
        set.on(static_cast<std::size_t>(L))(
            [&](const auto& i, const auto& idx)
            {
                Pt<dim> p{};
                for (std::size_t d = 1; d < dim; ++d)
                {
                    p[d] = idx[d - 1];
                }
                vp_assert(i.start < i.end, "intervals-valid");
                for (int x = i.start; x < i.end; ++x)
                {
                    p[0] = x;
                    ++seen[p];
                }
            });
        bool ok = true;
        i64 n   = 0;
        for (auto& kv : seen)
        {
            auto p = coarse<dim>(kv.first, L, m);
            ok     = ok && kv.second == 1 && f(a.in(p, m), b.in(p, m), c.in(p, m));
        }
        vp_assert(ok, "only-cells-of-the-set-and-once");
        // completeness over the bounding box
        int lo = -R - 4, hi = R + 8;
        int f2 = 1 << std::max(0, L - std::min(la, std::min(lb, lc)));
        lo *= f2;
        hi *= f2;
        int w   = hi - lo;
        i64 tot = 1;
        for (std::size_t d = 0; d < dim; ++d)
        {
            tot *= w;
        }
        // sampled above a few thousand cells
        i64 step = tot > 4000 ? tot / 4000 : 1;
        for (i64 k = vp_any_i64("off", 0, step - 1); k < tot; k += step)
        {
            Pt<dim> q{};
            i64 r = k;
            for (std::size_t d = 0; d < dim; ++d)
            {
                q[d] = lo + static_cast<int>(r % w);
                r /= w;
            }
            auto p = coarse<dim>(q, L, m);
            if (f(a.in(p, m), b.in(p, m), c.in(p, m)))
            {
                ++n;
                ok = ok && seen.count(q);
            }
        }
        vp_assert(ok, "every-cell-of-the-set");
        if (n > 0)
        {
            vp_cover("non-empty");
        }
    };
    switch (shape)
    {
        case 0:
            return run(difference(intersection(ta, tb), c.a), [](bool x, bool y, bool z) { return x & y & !z; });
        case 1:
            return run(difference(ta, union_(tb, c.a)), [](bool x, bool y, bool z) { return x & !(y | z); });
        case 2:
            return run(intersection(difference(ta, tb), c.a), [](bool x, bool y, bool z) { return x & !y & z; });
        case 3:
            return run(union_(difference(ta, tb), c.a), [](bool x, bool y, bool z) { return (x & !y) | z; });
        case 4:
            return run(difference(ta, difference(tb, c.a)), [](bool x, bool y, bool z) { return x & !(y & !z); });
        case 5:
            return run(intersection(ta, tb, c.a), [](bool x, bool y, bool z) { return x & y & z; });
        case 6:
            return run(union_(ta, tb, c.a), [](bool x, bool y, bool z) { return x | y | z; });
        case 7:
            return run(difference(ta, tb, c.a), [](bool x, bool y, bool z) { return x & !y & !z; });
        default:
            return run(union_(intersection(ta, tb), c.a), [](bool x, bool y, bool z) { return (x & y) | z; });
    }
}

//@opt bc_random_sets_1d time=15 max=40000
BC(random_sets_1d)
{
    random_sets<1>();
}
//@opt bc_random_sets_2d time=15 max=40000
BC(random_sets_2d)
{
    random_sets<2>();
}
//@opt bc_random_sets_3d time=15 max=40000
BC(random_sets_3d)
{
    random_sets<3>();
}
