#pragma once
// C10: the tagging rules of the adaptation (which cells are kept, refined, coarsened)
#include "winmesh.hpp"
#include <samurai/algorithm/graduation.hpp>
#include <samurai/algorithm/utils.hpp>
#include <samurai/mr/criteria.hpp>
#include <samurai/mr/operators.hpp>
#include <vector>

static constexpr int B    = 1 << 20;
static constexpr int KEEP = 1, COARSEN = 2, REFINE = 4, ENLARGE = 8; // the meaning of the bits (cell_flag.hpp)
static const samurai::CellFlag refine_flag = samurai::CellFlag::refine;

static std::array<int, 3> position()
{
    std::array<int, 3> p;
    for (auto& x : p)
    {
        x = vp_any_int("p", -B, B);
    }
    return p;
}

static std::array<int, 3> twice(const std::array<int, 3>& p)
{
    return {2 * p[0], 2 * p[1], 2 * p[2]};
}

template <class F>
static std::vector<int> any_tags(F& f)
{
    std::vector<int> old(f.array().size());
    for (std::size_t n = 0; n < old.size(); ++n)
    {
        old[n]              = vp_any_int("tag", 0, 15);
        f.array().data()[n] = old[n];
    }
    return old;
}

static bool has(int tag, int bit)
{
    return (tag & bit) != 0;
}

template <class F>
static void expect(const F& f, const std::vector<int>& e, const char* label)
{
    bool ok = true;
    for (std::size_t n = 0; n < e.size(); ++n)
    {
        ok = ok & (f.array().data()[n] == e[n]);
    }
    vp_assert(ok, label);
}

template <std::size_t dim, class Op, class I>
static void call(Op&& op, std::size_t level, const I& i, const std::array<int, 3>& p)
{
    if constexpr (dim == 1)
    {
        op(level, i);
    }
    else if constexpr (dim == 2)
    {
        op(level, i, p[1]);
    }
    else
    {
        op(level, i, p[1], p[2]);
    }
}

// the way subset.apply_op calls an operator: with the row as an index array
template <std::size_t dim, class Op, class I>
static void call_row(Op&& op, std::size_t level, const I& i, const std::array<int, 3>& p)
{
    xt::xtensor_fixed<int, xt::xshape<dim - 1>> yz;
    for (std::size_t d = 1; d < dim; ++d)
    {
        yz[d - 1] = p[d];
    }
    op(level, i, yz);
}

// a parent row of n cells on level0 and its children on level0+1
template <std::size_t dim>
struct Family
{
    using M = WinMesh<dim>;
    M m;
    std::array<int, 3> p;
    typename M::interval_t i;
    int n;

    explicit Family(int nmax, int margin = 1)
    {
        n        = vp_case("n", 1, nmax);
        p        = position();
        m.level0 = static_cast<std::size_t>(vp_any_i64("level", 1, 20));
        int g    = margin;
        m.window(0, p, {-g, -g, -g}, {n + g, 1 + g, 1 + g});
        m.window(1, twice(p), {0, 0, 0}, {2 * n, 2, 2});
        i = {p[0], p[0] + n};
    }

    std::size_t child(int x, int q) const
    {
        return m.at(1, 2 * x + (q & 1), (q >> 1) & 1, (q >> 2) & 1);
    }
};

static constexpr int children(std::size_t dim)
{
    return 1 << dim;
}

// maximum: brothers are kept or coarsened together, and the parent of kept or coarsened brothers is kept
template <std::size_t dim>
static void maximum(int nmax)
{
    Family<dim> f(nmax, 0);
    samurai::Field<WinMesh<dim>, int, 1> tag("tag", f.m);
    auto e = any_tags(tag);
    call_row<dim>(samurai::maximum(tag), f.m.level0, f.i, f.p);
    for (int x = 0; x < f.n; ++x)
    {
        bool kept = false, coarsen = true;
        for (int q = 0; q < children(dim); ++q)
        {
            kept    = kept | has(e[f.child(x, q)], KEEP);
            coarsen = coarsen & has(e[f.child(x, q)], COARSEN);
        }
        for (int q = 0; q < children(dim); ++q)
        {
            int t             = e[f.child(x, q)];
            t                 = kept ? (t | KEEP) : t;
            e[f.child(x, q)] = coarsen ? t : (t & ~COARSEN);
        }
        auto k = f.m.at(0, x, 0, 0);
        e[k]   = (kept | coarsen) ? (e[k] | KEEP) : e[k];
    }
    expect(tag, e, "brothers-are-kept-or-coarsened-together");
}

// keep_children_together: a kept cell keeps its brothers
template <std::size_t dim>
static void together(int nmax)
{
    Family<dim> f(nmax, 0);
    samurai::Field<WinMesh<dim>, int, 1> tag("tag", f.m);
    auto e = any_tags(tag);
    call_row<dim>(samurai::keep_children_together(tag), f.m.level0, f.i, f.p);
    for (int x = 0; x < f.n; ++x)
    {
        bool kept = false;
        for (int q = 0; q < children(dim); ++q)
        {
            kept = kept | has(e[f.child(x, q)], KEEP);
        }
        for (int q = 0; q < children(dim); ++q)
        {
            int t            = e[f.child(x, q)];
            e[f.child(x, q)] = kept ? (t | KEEP) : t;
        }
    }
    expect(tag, e, "a-kept-cell-keeps-its-brothers");
}

// operators that spread a flag to the neighbours on the same level: op tags 'to' on every cell at distance <= width of a cell of the
// row whose tag has a bit of 'from' (from = 0: every cell)
template <std::size_t dim, class MakeOp>
static void spread(int nmax, int width, int from, int to, MakeOp&& make, const char* label)
{
    using M = WinMesh<dim>;
    M m;
    int n    = vp_case("n", 1, nmax);
    auto p   = position();
    m.level0 = static_cast<std::size_t>(vp_any_i64("level", 1, 20));
    int g    = width + 1;
    m.window(0, p, {-g, -g, -g}, {n + g, 1 + g, 1 + g});
    samurai::Field<M, int, 1> tag("tag", m);
    auto old = any_tags(tag);
    auto e   = old;
    typename M::interval_t i{p[0], p[0] + n};
    call_row<dim>(make(tag), m.level0, i, p);
    int wy = dim > 1 ? width : 0, wz = dim > 2 ? width : 0;
    for (int x = 0; x < n; ++x)
    {
        bool on = from ? has(old[m.at(0, x, 0, 0)], from) : true;
        for (int a = -width; a <= width; ++a)
        {
            for (int b = -wy; b <= wy; ++b)
            {
                for (int c = -wz; c <= wz; ++c)
                {
                    auto k = m.at(0, x + a, b, c);
                    e[k]   = on ? (e[k] | to) : e[k];
                }
            }
        }
    }
    expect(tag, e, label);
}

// a neighbour, along an axis or a diagonal, at the given distance; returns the opposite
template <std::size_t dim, class S>
static std::array<int, 3> any_stencil(S& s, int far)
{
    static const char* const name[] = {"sx", "sy", "sz"};
    std::array<int, 3> o{0, 0, 0};
    for (std::size_t d = 0; d < dim; ++d)
    {
        s[d] = far * vp_case(name[d], -1, 1);
        o[d] = -s[d];
    }
    vp_assume(o[0] != 0 || o[1] != 0 || o[2] != 0);
    return o;
}

// balance_2to1(s): the neighbour at -s of a kept cell is kept
template <std::size_t dim>
static void balance(int nmax)
{
    using M = WinMesh<dim>;
    M m;
    int n    = vp_case("n", 1, nmax);
    auto p   = position();
    m.level0 = static_cast<std::size_t>(vp_any_i64("level", 1, 20));
    m.window(0, p, {-2, -2, -2}, {n + 2, 3, 3});
    samurai::Field<M, int, 1> tag("tag", m);
    auto old = any_tags(tag);
    auto e   = old;
    typename M::interval_t i{p[0], p[0] + n};
    xt::xtensor_fixed<int, xt::xshape<dim>> s;
    auto o = any_stencil<dim>(s, vp_case("far", 1, 2));
    call_row<dim>(samurai::balance_2to1(tag, s), m.level0, i, p);
    for (int x = 0; x < n; ++x)
    {
        auto k = m.at(0, x + o[0], o[1], o[2]);
        e[k]   = has(e[m.at(0, x, 0, 0)], KEEP) ? (e[k] | KEEP) : e[k];
    }
    if (o[1] != 0 || o[2] != 0)
    {
        expect(tag, e, "the-neighbour-of-a-kept-cell-is-kept");
    }
    else
    {
        // along x the row overlaps the cells written: at least the neighbours of the kept cells are kept, only the keep bit of
        // cells of the shifted row is added, and only because some cell of the row is kept
        bool at_least = true, only = true;
        for (int x = -2; x < n + 2; ++x)
        {
            for (int y = dim > 1 ? -2 : 0; y < (dim > 1 ? 3 : 1); ++y)
            {
                for (int z = dim > 2 ? -2 : 0; z < (dim > 2 ? 3 : 1); ++z)
                {
                    auto k   = m.at(0, x, y, z);
                    int t    = tag.array().data()[k];
                    bool row = y == 0 && z == 0 && x - o[0] >= 0 && x - o[0] < n;
                    bool any = false;
                    for (int r = 0; r < n; ++r)
                    {
                        any = any | has(old[m.at(0, r, 0, 0)], KEEP);
                    }
                    at_least = at_least & (row ? vp_implies(has(old[m.at(0, x - o[0], 0, 0)], KEEP), has(t, KEEP)) : true);
                    only     = only & (t == old[k] || (row && any && t == (old[k] | KEEP)));
                }
            }
        }
        vp_assert(at_least, "the-neighbour-of-a-kept-cell-is-kept");
        vp_assert(only, "nothing-else-is-tagged");
    }
}

// make_graduation: the parent of a kept cell is refined
template <std::size_t dim>
static void parents(int nmax)
{
    using M = WinMesh<dim>;
    M m;
    int n    = vp_case("n", 1, nmax);
    auto p   = position();
    int x0   = vp_case("x0", 0, 1), y0 = dim > 1 ? vp_case("y0", 0, 1) : 0, z0 = dim > 2 ? vp_case("z0", 0, 1) : 0;
    m.level0 = static_cast<std::size_t>(vp_any_i64("level", 1, 20));
    int N    = (x0 + n + 1) / 2;
    m.window(-1, p, {-1, -1, -1}, {N + 1, 2, 2});
    m.window(0, twice(p), {0, 0, 0}, {2 * N, 2, 2});
    samurai::Field<M, int, 1> tag("tag", m);
    auto e = any_tags(tag);
    typename M::interval_t i{2 * p[0] + x0, 2 * p[0] + x0 + n};
    std::array<int, 3> q{2 * p[0] + x0, 2 * p[1] + y0, 2 * p[2] + z0};
    call_row<dim>(samurai::make_graduation(tag), m.level0, i, q);
    for (int x = x0; x < x0 + n; ++x)
    {
        auto k = m.at(-1, x >> 1, 0, 0);
        e[k]   = has(e[m.at(0, x, y0, z0)], KEEP) ? (e[k] | REFINE) : e[k];
    }
    expect(tag, e, "the-parent-of-a-kept-cell-is-refined");
}

// graduate(s): the coarse neighbour of a refined cell is refined, that of a kept cell is kept.
// The row holds the fine positions inside the coarse neighbours; the fine cell concerned is at -s of it.
template <std::size_t dim>
static void graduate(int nmax)
{
    using M = WinMesh<dim>;
    M m;
    int n    = vp_case("n", 1, dim == 1 ? 1 : nmax);
    auto p   = position();
    int x0   = vp_case("x0", 0, 1), y0 = dim > 1 ? vp_case("y0", 0, 1) : 0, z0 = dim > 2 ? vp_case("z0", 0, 1) : 0;
    m.level0 = static_cast<std::size_t>(vp_any_i64("level", 1, 20));
    int N    = (x0 + n + 1) / 2;
    m.window(-1, p, {-1, -1, -1}, {N + 1, 2, 2});
    m.window(0, twice(p), {-1, -1, -1}, {2 * N + 1, 3, 3});
    samurai::Field<M, int, 1> tag("tag", m);
    auto e = any_tags(tag);
    xt::xtensor_fixed<int, xt::xshape<dim>> s;
    auto o = any_stencil<dim>(s, 1);
    typename M::interval_t i{2 * p[0] + x0, 2 * p[0] + x0 + n};
    std::array<int, 3> q{2 * p[0] + x0, 2 * p[1] + y0, 2 * p[2] + z0};
    call_row<dim>(samurai::graduate(tag, s), m.level0, i, q);
    for (int x = x0; x < x0 + n; ++x)
    {
        auto k = m.at(-1, x >> 1, 0, 0);
        int t  = e[m.at(0, x + o[0], y0 + o[1], z0 + o[2])];
        e[k]   = has(t, REFINE) ? (e[k] | REFINE) : e[k];
        e[k]   = has(t, KEEP) ? (e[k] | KEEP) : e[k];
    }
    expect(tag, e, "the-coarse-neighbour-follows-the-fine-cell");
}

template <class F>
static std::vector<double> any_details(F& f)
{
    std::vector<double> old(f.array().size());
    for (std::size_t n = 0; n < old.size(); ++n)
    {
        old[n]              = vp_any_f64("d");
        f.array().data()[n] = old[n];
    }
    return old;
}

template <class F>
static std::size_t slot(const F& f, std::size_t cell, std::size_t c)
{
    constexpr std::size_t size = F::size;
    return F::is_soa ? c * f.mesh().nb_cells() + cell : cell * size + c;
}

static double vabs(double x)
{
    return x < 0 ? -x : x;
}

// to_coarsen_mr: brothers are marked to be coarsened exactly when all their details (every component) are below eps
// (in 1-D the details of two brothers are opposite: this is a precondition there), and never at or below the minimum level
template <std::size_t dim, std::size_t size, bool soa>
static void coarsen(int nmax)
{
    Family<dim> f(nmax, 0);
    using M = WinMesh<dim>;
    samurai::Field<M, int, 1> tag("tag", f.m);
    samurai::Field<M, double, size, soa> detail("detail", f.m);
    auto e = any_tags(tag);
    auto d = any_details(detail);
    if (dim == 1)
    {
        for (int x = 0; x < f.n; ++x)
        {
            for (std::size_t c = 0; c < size; ++c)
            {
                auto k = slot(detail, f.child(x, 1), c);
                d[k]   = -d[slot(detail, f.child(x, 0), c)];
                detail.array().data()[k] = d[k];
            }
        }
    }
    double eps = vp_any_f64("eps");
    vp_assume(eps > 0);
    auto min_level = static_cast<std::size_t>(vp_any_i64("min", 0, 22));
    call_row<dim>(samurai::to_coarsen_mr(detail, tag, eps, min_level), f.m.level0, f.i, f.p);
    bool active = f.m.level0 + 1 > min_level;
    for (int x = 0; x < f.n; ++x)
    {
        bool small = true;
        for (int q = 0; q < children(dim); ++q)
        {
            for (std::size_t c = 0; c < size; ++c)
            {
                small = small & (vabs(d[slot(detail, f.child(x, q), c)]) < eps);
            }
        }
        for (int q = 0; q < children(dim); ++q)
        {
            auto k = f.child(x, q);
            e[k]   = (active & small) ? COARSEN : e[k];
        }
    }
    expect(tag, e, "coarsened-exactly-when-all-the-details-are-small");
}

// to_refine_mr: a cell whose detail (some component) exceeds eps is refined, below the maximum level; the children of a cell whose
// detail exceeds eps/2^dim are kept
template <std::size_t dim, std::size_t size, bool soa>
static void refine(int nmax)
{
    Family<dim> f(nmax, 0);
    using M = WinMesh<dim>;
    samurai::Field<M, int, 1> tag("tag", f.m);
    samurai::Field<M, double, size, soa> detail("detail", f.m);
    auto e     = any_tags(tag);
    auto d     = any_details(detail);
    double eps = vp_any_f64("eps");
    vp_assume(eps > 0);
    auto max_level = static_cast<std::size_t>(vp_any_i64("max", 0, 22));
    call_row<dim>(samurai::to_refine_mr(detail, tag, eps, max_level), f.m.level0, f.i, f.p);
    bool active = f.m.level0 + 1 < max_level;
    for (int x = 0; x < f.n; ++x)
    {
        bool parent = false;
        for (std::size_t c = 0; c < size; ++c)
        {
            parent = parent | (vabs(d[slot(detail, f.m.at(0, x, 0, 0), c)]) > eps / (1 << dim));
        }
        for (int q = 0; q < children(dim); ++q)
        {
            auto k   = f.child(x, q);
            bool big = false;
            for (std::size_t c = 0; c < size; ++c)
            {
                big = big | (vabs(d[slot(detail, k, c)]) > eps);
            }
            int t = parent ? (e[k] | KEEP) : e[k];
            e[k]  = (active & big) ? REFINE : t;
        }
    }
    expect(tag, e, "refined-exactly-when-a-detail-is-large");
}
