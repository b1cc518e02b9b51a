#pragma once
// C09: transfer between levels
#include "winmesh.hpp"
#include <samurai/numeric/prediction.hpp>
#include <samurai/mr/operators.hpp>
#include <samurai/numeric/projection.hpp>
#include <vector>

static constexpr int B = 1 << 20;


// ---- the specification: the polynomial of degree 2s whose means over the 2s+1 neighbours are the coarse values ----
// weight of the neighbour m in [-s,s] in the mean over the left half of the cell [0,1]: its primitive is interpolated at the
// 2s+2 cell ends and evaluated at 1/2. The right half has the mirrored weights.
template <std::size_t s>
struct Weights
{
    static constexpr int S = static_cast<int>(s);
    double w[2 * s + 1];

    Weights()
    {
        double L[2 * s + 2];
        for (int q = -S; q <= S + 1; ++q)
        {
            double l = 1;
            for (int r = -S; r <= S + 1; ++r)
            {
                if (r != q)
                {
                    l *= (0.5 - r) / (q - r);
                }
            }
            L[q + S] = l;
        }
        for (int m = -S; m <= S; ++m)
        {
            double t = 0;
            for (int q = m + 1; q <= S + 1; ++q)
            {
                t += L[q + S];
            }
            w[m + S] = 2 * t - (m < 0 ? 2 : 0);
        }
    }

    // weight of the neighbour m for the child of parity c
    double operator()(int m, int c) const
    {
        return w[(c ? -m : m) + S];
    }
};

// lemma: these weights reproduce the mean of every polynomial of degree 2s, and the two children average to the parent
template <std::size_t s>
static void lemma()
{
    Weights<s> w;
    constexpr int S = static_cast<int>(s);
    bool exact = true, conserve = true;
    for (int a = 0; a <= 2 * S; ++a)
    {
        double l = 0, r = 0, half = 1;
        for (int m = -S; m <= S; ++m)
        {
            double hi = 1, lo = 1;
            for (int k = 0; k <= a; ++k)
            {
                hi *= m + 1;
                lo *= m;
            }
            l += w(m, 0) * (hi - lo) / (a + 1);
            r += w(m, 1) * (hi - lo) / (a + 1);
        }
        for (int k = 0; k <= a; ++k)
        {
            half *= 0.5;
        }
        exact = exact & vp_eq(l, 2 * half / (a + 1)) & vp_eq(r, 2 * (1 - half) / (a + 1));
    }
    for (int m = -S; m <= S; ++m)
    {
        conserve = conserve & vp_eq(w(m, 0) + w(m, 1), m == 0 ? 2. : 0.);
    }
    vp_assert(exact, "polynomials-of-degree-2s-are-reproduced");
    vp_assert(conserve, "the-two-children-average-to-the-parent");
    // the coefficient tables of the library are these weights
    auto p = samurai::interp_coeffs<2 * s + 1>(1.), q = samurai::interp_coeffs<2 * s + 1>(-1.);
    bool t = true;
    for (int m = -S; m <= S; ++m)
    {
        t = t & vp_eq(p[static_cast<std::size_t>(m + S)], w(m, 0)) & vp_eq(q[static_cast<std::size_t>(m + S)], w(m, 1));
    }
    vp_assert(t, "interpolation-coefficients");
}

template <class F>
static std::size_t slot(const F& f, std::size_t cell, std::size_t c)
{
    constexpr std::size_t size = F::size;
    return F::is_soa ? c * f.mesh().nb_cells() + cell : cell * size + c;
}

template <class F>
static std::vector<double> fill(F& f)
{
    std::vector<double> old(f.array().size());
    for (std::size_t n = 0; n < old.size(); ++n)
    {
        old[n]              = vp_any_f64("u");
        f.array().data()[n] = old[n];
    }
    return old;
}

template <class F>
static void frame(const F& f, const std::vector<double>& old, const std::vector<bool>& written, const char* label)
{
    bool same = true;
    for (std::size_t k = 0; k < old.size(); ++k)
    {
        if (!written[k])
        {
            same = same & (f.array().data()[k] == old[k]);
        }
    }
    vp_assert(same, label);
}

template <std::size_t dim, class Op, class I>
static void call(Op&& op, std::size_t level, const I& i, const std::array<int, 3>& p)
{
    if constexpr (dim == 1)
    {
        op(level, i);
    }
    else if constexpr (dim == 2)
    {
        op(level, i, p[1]);
    }
    else
    {
        op(level, i, p[1], p[2]);
    }
}

static std::array<int, 3> position()
{
    std::array<int, 3> p;
    for (auto& x : p)
    {
        x = vp_any_int("p", -B, B);
    }
    return p;
}

// projection: the value of a coarse cell becomes the mean of its 2^dim children; nothing else changes
template <std::size_t dim, std::size_t size, bool soa>
static void projection()
{
    using M = WinMesh<dim>;
    M m;
    int n    = vp_case("n", 1, 3);
    auto p   = position();
    m.level0 = static_cast<std::size_t>(vp_any_i64("level", 0, 20));
    m.window(0, p, {-1, -1, -1}, {n + 1, 2, 2});
    m.window(1, {2 * p[0], 2 * p[1], 2 * p[2]}, {0, 0, 0}, {2 * n, 2, 2});
    samurai::Field<M, double, size, soa> f("f", m), g("g", m);
    auto old  = fill(f);
    auto oldg = fill(g);
    typename M::interval_t i{p[0], p[0] + n};
    std::vector<bool> written(old.size(), false);
    call<dim>(samurai::projection(f), m.level0, i, p);
    call<dim>(samurai::projection(g, f), m.level0, i, p); // into another field
    bool mean = true, other = true;
    for (std::size_t c = 0; c < size; ++c)
    {
        for (int x = 0; x < n; ++x)
        {
            double s = 0;
            for (int q = 0; q < 1 << dim; ++q)
            {
                s += old[slot(f, m.at(1, 2 * x + (q & 1), (q >> 1) & 1, (q >> 2) & 1), c)];
            }
            auto k     = slot(f, m.at(0, x, 0, 0), c);
            written[k] = true;
            mean       = mean & vp_eq(f.array().data()[k], s / (1 << dim));
            other      = other & vp_eq(g.array().data()[k], s / (1 << dim));
        }
    }
    vp_assert(mean, "mean-of-the-children");
    vp_assert(other, "mean-of-the-children-into-another-field");
    frame(f, old, written, "nothing-else-changes");
    frame(g, oldg, written, "nothing-else-changes-in-the-other-field");
    // several fields at once
    auto oldf2 = fill(f), oldg2 = fill(g);
    call<dim>(samurai::variadic_projection(f, g), m.level0, i, p);
    bool both = true;
    for (std::size_t c = 0; c < size; ++c)
    {
        for (int x = 0; x < n; ++x)
        {
            double s = 0, t = 0;
            for (int q = 0; q < 1 << dim; ++q)
            {
                auto k = slot(f, m.at(1, 2 * x + (q & 1), (q >> 1) & 1, (q >> 2) & 1), c);
                s += oldf2[k];
                t += oldg2[k];
            }
            auto k = slot(f, m.at(0, x, 0, 0), c);
            both   = both & vp_eq(f.array().data()[k], s / (1 << dim)) & vp_eq(g.array().data()[k], t / (1 << dim));
        }
    }
    vp_assert(both, "several-fields-at-once");
}

// prediction. Children are called on every row of a strip of parents; then, for all values:
//  - along one direction it is exactly the mean of the interpolating polynomial of degree 2 order (dimension 1);
//  - averaging the children over all directions but one gives that one-dimensional prediction (so their mean is the parent);
//  - order 1: it is the tensor product up to the sign of the mixed terms; order >= 2: exact on sums of one-variable functions
//    (the mixed terms themselves are the known finding of this property).
template <std::size_t dim, std::size_t order>
struct Oracle
{
    static constexpr int S = static_cast<int>(order);
    Weights<order> w;

    // the prediction along the directions of the mask, at the child (x,y,z) of the parent at offset X
    template <class M>
    double along(const M& m, const std::vector<double>& u, std::size_t stride, std::size_t c, int lc, int X, int x, int y, int z, unsigned mask) const
    {
        double v = 0;
        for (int a = mask & 1 ? -S : 0; a <= (mask & 1 ? S : 0); ++a)
        {
            for (int b = mask & 2 ? -S : 0; b <= (mask & 2 ? S : 0); ++b)
            {
                for (int d = mask & 4 ? -S : 0; d <= (mask & 4 ? S : 0); ++d)
                {
                    double k = (mask & 1 ? w(a, x) : 1.) * (mask & 2 ? w(b, y) : 1.) * (mask & 4 ? w(d, z) : 1.);
                    v += k * u[c * stride + m.at(lc, X + a, b, d)];
                }
            }
        }
        return v;
    }
};

template <std::size_t dim, std::size_t order, class M, class V>
static void check_children(const M& m, const std::vector<double>& u, std::size_t size, int lc, int first, int last, V&& value, bool separable)
{
    constexpr unsigned full = (1u << dim) - 1;
    constexpr int ny = dim > 1 ? 2 : 1, nz = dim > 2 ? 2 : 1;
    Oracle<dim, order> o;
    std::size_t stride = m.nb_cells();
    bool exact = true, one = true, parent = true;
    for (std::size_t c = 0; c < size; ++c)
    {
        for (int x = first; x < last; ++x)
        {
            int X = x >> 1, px = x & 1;
            double sum = 0;
            for (int y = 0; y < ny; ++y)
            {
                for (int z = 0; z < nz; ++z)
                {
                    double v = value(c, x, y, z);
                    sum += v;
                    if (dim == 1 || separable)
                    {
                        exact = exact & vp_eq(v, o.along(m, u, stride, c, lc, X, px, y, z, full));
                    }
                    else if (order == 1)
                    {
                        // contributions of one, two and three directions
                        double p[8], q[8];
                        for (unsigned k = 0; k <= full; ++k)
                        {
                            p[k] = o.along(m, u, stride, c, lc, X, px, y, z, k);
                        }
                        for (unsigned k = 0; k <= full; ++k)
                        {
                            q[k] = 0;
                            for (unsigned l = 0; l <= k; ++l)
                            {
                                if ((l & k) == l)
                                {
                                    q[k] += (__builtin_popcount(k ^ l) & 1) ? -p[l] : p[l];
                                }
                            }
                        }
                        double lin = q[0] + q[1] + q[2], mix = q[3], tri = 0;
                        if (dim > 2)
                        {
                            lin += q[4];
                            mix += q[5] + q[6];
                            tri = q[7];
                        }
                        exact = exact & (vp_eq(v, lin + mix + tri) | vp_eq(v, lin - mix + tri) | vp_eq(v, lin - mix - tri) | vp_eq(v, lin + mix - tri));
                    }
                    if (dim > 1 && px == 0 && x + 1 < last)
                    {
                        // averages over all directions but y, all but z
                        double sy = 0, sz = 0;
                        for (int k = 0; k < 2; ++k)
                        {
                            for (int l = 0; l < nz; ++l)
                            {
                                sy += value(c, x + k, y, l);
                            }
                            for (int l = 0; l < ny; ++l)
                            {
                                sz += value(c, x + k, l, z);
                            }
                        }
                        one = one & vp_eq(sy / (2 * nz), o.along(m, u, stride, c, lc, X, px, y, z, 2));
                        if (dim > 2)
                        {
                            one = one & vp_eq(sz / (2 * ny), o.along(m, u, stride, c, lc, X, px, y, z, 4));
                        }
                    }
                }
            }
            one = one & vp_eq(sum / (ny * nz), o.along(m, u, stride, c, lc, X, px, 0, 0, 1));
            if (px == 0 && x + 1 < last)
            {
                for (int y = 0; y < ny; ++y)
                {
                    for (int z = 0; z < nz; ++z)
                    {
                        sum += value(c, x + 1, y, z);
                    }
                }
                parent = parent & vp_eq(sum / (2 * ny * nz), u[c * stride + m.at(lc, X, 0, 0)]);
            }
        }
    }
    vp_assert(exact, separable ? "exact-on-sums-of-one-variable-functions" : "interpolating-polynomial");
    vp_assert(one, "averages-are-the-one-dimensional-interpolation");
    vp_assert(parent, "children-average-to-the-parent");
}

// the field as component-major storage by cell, whatever its layout
template <class F>
static std::vector<double> values(const F& f, const std::vector<double>& a)
{
    std::size_t n = f.mesh().nb_cells();
    std::vector<double> u(a.size());
    for (std::size_t c = 0; c < F::size; ++c)
    {
        for (std::size_t k = 0; k < n; ++k)
        {
            u[c * n + k] = a[slot(f, k, c)];
        }
    }
    return u;
}

// arbitrary f(x) + g(y) + h(z) on the coarse window
template <std::size_t dim, class M, class F>
static void fill_separable(const M& m, F& f, std::vector<double>& old, int lc, int S, int np)
{
    for (std::size_t c = 0; c < F::size; ++c)
    {
        std::vector<double> g[3];
        for (std::size_t d = 0; d < dim; ++d)
        {
            for (int a = -S; a < (d == 0 ? np : 1) + S; ++a)
            {
                g[d].push_back(vp_any_f64("g"));
            }
        }
        for (int a = -S; a < np + S; ++a)
        {
            for (int b = dim > 1 ? -S : 0; b <= (dim > 1 ? S : 0); ++b)
            {
                for (int e = dim > 2 ? -S : 0; e <= (dim > 2 ? S : 0); ++e)
                {
                    double v = g[0][static_cast<std::size_t>(a + S)];
                    v += dim > 1 ? g[1][static_cast<std::size_t>(b + S)] : 0.;
                    v += dim > 2 ? g[2][static_cast<std::size_t>(e + S)] : 0.;
                    auto k              = slot(f, m.at(lc, a, b, e), c);
                    old[k]              = v;
                    f.array().data()[k] = v;
                }
            }
        }
    }
}

template <std::size_t dim, std::size_t order, bool dest_on_level, std::size_t size, bool soa>
static void prediction(bool separable = false)
{
    using M = WinMesh<dim, order>;
    constexpr int S  = static_cast<int>(order);
    constexpr int ny = dim > 1 ? 2 : 1, nz = dim > 2 ? 2 : 1;
    M m;
    auto p   = position(); // of the parent
    int n    = vp_case("n", 1, dest_on_level ? 2 : 3);
    m.level0 = static_cast<std::size_t>(vp_any_i64("level", 1, 20));
    std::array<int, 3> fine{2 * p[0], 2 * p[1], 2 * p[2]};
    // dest_on_level: i is an interval of parents, the children are on level + 1; otherwise an interval of children of any parity
    int lc = dest_on_level ? 0 : -1, lf = dest_on_level ? 1 : 0;
    int first = dest_on_level ? 0 : vp_case("r", 0, 1);
    int last  = dest_on_level ? 2 * n : first + n;
    int np    = (last + 1) / 2; // number of parents
    m.window(lc, p, {-S, -S, -S}, {np + S, S + 1, S + 1});
    m.window(lf, fine, {-1, 0, 0}, {2 * np + 1, 2, 2});
    samurai::Field<M, double, size, soa> f("f", m), g("g", m), h("h", m);
    auto old  = fill(f);
    auto oldg = fill(g);
    if (separable)
    {
        fill_separable<dim>(m, f, old, lc, S, np);
    }
    for (std::size_t k = 0; k < old.size(); ++k)
    {
        h.array().data()[k] = old[k];
    }
    for (int z = 0; z < (dest_on_level ? 1 : nz); ++z)
    {
        for (int y = 0; y < (dest_on_level ? 1 : ny); ++y)
        {
            std::array<int, 3> q{dest_on_level ? p[0] : fine[0] + first, dest_on_level ? p[1] : fine[1] + y, dest_on_level ? p[2] : fine[2] + z};
            typename M::interval_t i{q[0], q[0] + n};
            call<dim>(samurai::prediction<order, dest_on_level>(f), m.level0, i, q);
            call<dim>(samurai::prediction<order, dest_on_level>(g, h), m.level0, i, q); // into another field
        }
    }
    std::vector<bool> written(old.size(), false);
    bool same = true;
    for (std::size_t c = 0; c < size; ++c)
    {
        for (int z = 0; z < nz; ++z)
        {
            for (int y = 0; y < ny; ++y)
            {
                for (int x = first; x < last; ++x)
                {
                    auto k     = slot(f, m.at(lf, x, y, z), c);
                    written[k] = true;
                    same       = same & vp_eq(f.array().data()[k], g.array().data()[k]);
                }
            }
        }
    }
    check_children<dim, order>(
        m,
        values(f, old),
        size,
        lc,
        first,
        last,
        [&](std::size_t c, int x, int y, int z)
        {
            return f.array().data()[slot(f, m.at(lf, x, y, z), c)];
        },
        separable);
    vp_assert(same, "the-same-into-another-field");
    frame(f, old, written, "nothing-else-changes");
    frame(g, oldg, written, "nothing-else-changes-in-the-other-field");
    // several fields at once
    samurai::Field<M, double, size, soa> f2("f2", m), h2("h2", m);
    auto oldf2 = fill(f2), oldh2 = fill(h2);
    for (std::size_t k = 0; k < old.size(); ++k)
    {
        f2.array().data()[k] = old[k];
        h2.array().data()[k] = 3 * old[k];
    }
    std::array<int, 3> q{dest_on_level ? p[0] : fine[0] + first, dest_on_level ? p[1] : fine[1], dest_on_level ? p[2] : fine[2]};
    typename M::interval_t i{q[0], q[0] + n};
    call<dim>(samurai::variadic_prediction<order, dest_on_level>(f2, h2), m.level0, i, q);
    bool both = true;
    for (std::size_t c = 0; c < size; ++c)
    {
        for (int x = first; x < last; ++x)
        {
            auto k = slot(f, m.at(lf, x, 0, 0), c);
            both   = both & vp_eq(f2.array().data()[k], f.array().data()[k]) & vp_eq(h2.array().data()[k], 3 * f.array().data()[k]);
        }
    }
    vp_assert(both, "several-fields-at-once");
}

// details: field minus the prediction from the coarser level, on the children of the row and on the row itself
template <std::size_t dim, std::size_t order, std::size_t size, bool soa>
static void details(bool base_level)
{
    using M = WinMesh<dim, order>;
    constexpr int S  = static_cast<int>(order);
    constexpr int ny = dim > 1 ? 2 : 1, nz = dim > 2 ? 2 : 1;
    M m;
    auto pp  = position(); // the grand-parent
    int n    = vp_case("n", 1, 2);
    m.level0 = base_level ? 0 : static_cast<std::size_t>(vp_any_i64("level", 1, 20));
    std::array<int, 3> r{0, 0, 0}, p{0, 0, 0};
    for (std::size_t d = 0; d < dim; ++d)
    {
        r[d] = vp_case("r", 0, 1);
        p[d] = 2 * pp[d] + r[d];
    }
    int np = (r[0] + n + 1) / 2;
    if (!base_level)
    {
        m.window(-1, pp, {-S, -S, -S}, {np + S, S + 1, S + 1});
    }
    m.window(0, p, {-S, -S, -S}, {n + S, S + 1, S + 1});
    m.window(1, {2 * p[0], 2 * p[1], 2 * p[2]}, {0, 0, 0}, {2 * n, 2, 2});
    samurai::Field<M, double, size, soa> u("u", m), det("detail", m);
    auto oldu = fill(u);
    auto oldd = fill(det);
    typename M::interval_t i{p[0], p[0] + n};
    call<dim>(samurai::compute_detail(det, u), m.level0, i, p);
    std::vector<bool> written(oldd.size(), false), none(oldd.size(), false);
    // the prediction itself, by the operator under contract above
    samurai::Field<M, double, size, soa> f("f", m);
    for (std::size_t k = 0; k < oldu.size(); ++k)
    {
        f.array().data()[k] = oldu[k];
    }
    call<dim>(samurai::prediction<order, true>(f), m.level0, i, p);
    if (!base_level)
    {
        samurai::Field<M, double, size, soa> g("g", m);
        for (std::size_t k = 0; k < oldu.size(); ++k)
        {
            g.array().data()[k] = oldu[k];
        }
        call<dim>(samurai::prediction<order, false>(g), m.level0, i, p);
        for (std::size_t c = 0; c < size; ++c)
        {
            for (int x = 0; x < n; ++x)
            {
                auto k              = slot(f, m.at(0, x, 0, 0), c);
                f.array().data()[k] = g.array().data()[k];
            }
        }
    }
    bool fine = true, coarse = true;
    for (std::size_t c = 0; c < size; ++c)
    {
        for (int x = 0; x < 2 * n; ++x)
        {
            for (int y = 0; y < ny; ++y)
            {
                for (int z = 0; z < nz; ++z)
                {
                    auto k     = slot(u, m.at(1, x, y, z), c);
                    written[k] = true;
                    fine       = fine & vp_eq(det.array().data()[k], oldu[k] - f.array().data()[k]);
                }
            }
        }
        for (int x = 0; x < n && !base_level; ++x)
        {
            auto k     = slot(u, m.at(0, x, 0, 0), c);
            written[k] = true;
            coarse     = coarse & vp_eq(det.array().data()[k], oldu[k] - f.array().data()[k]);
        }
    }
    vp_assert(fine, "detail-is-value-minus-prediction");
    vp_assert(coarse, "detail-of-the-row-itself");
    frame(det, oldd, written, "nothing-else-changes");
    frame(u, oldu, none, "the-field-is-unchanged");
}
