#include "c13_field.hpp"
#include <samurai/numeric/error.hpp>
#include <samurai/numeric/gauss_legendre.hpp>

//@opt vc_gauss_* bound=cells of [-1,1] of levels 0 to 2 (position and level enumerated), polynomials with arbitrary coefficients of modulus at most 1, equality up to 1e-12
//@opt vc_norm_* bound=one or two cells, values and position arbitrary

static bool close(double a, double b)
{
    return (a - b <= 1e-12) & (b - a <= 1e-12);
}

static double power(double x, int k)
{
    double r = 1;
    for (int i = 0; i < k; ++i)
    {
        r *= x;
    }
    return r;
}

// the integral over a cell of sum_k c[k] x_d^k x_e^j
template <std::size_t dim, std::size_t degree>
static void gauss()
{
    using Cell = samurai::Cell<dim, samurai::Interval<int, long long>>;
    int level  = vp_case("level", 0, 1);
    xt::xtensor_fixed<int, xt::xshape<dim>> at;
    xt::xtensor_fixed<double, xt::xshape<dim>> origin;
    origin.fill(0);
    for (std::size_t d = 0; d < dim; ++d)
    {
        at[d] = vp_case("x", dim == 1 ? -(1 << level) : 0, (1 << level) - 1);
    }
    Cell cell(origin, 1., static_cast<std::size_t>(level), at, 0);
    samurai::GaussLegendre<degree> gl;
    constexpr int n = static_cast<int>(degree) + 1;
    // along one direction d, times a monomial along the next
    std::size_t d = static_cast<std::size_t>(vp_case("d", 0, static_cast<int>(dim) - 1)), e = (d + 1) % dim;
    int j         = dim > 1 ? vp_case("j", 0, static_cast<int>(degree) < 2 ? static_cast<int>(degree) : 2) : 0;
    double c[n];
    for (int k = 0; k < n; ++k)
    {
        c[k] = any_bounded("c");
    }
    auto f = [&](const auto& x)
    {
        double r = 0;
        for (int k = 0; k < n; ++k)
        {
            r += c[k] * (power(x[d], k) * power(x[e], j));
        }
        return r;
    };
    double q = gl.template quadrature<1>(cell, f), exact = 0;
    double h = std::ldexp(1., -level);
    auto along = [&](std::size_t a, int k) { return (power((at[a] + 1) * h, k + 1) - power(at[a] * h, k + 1)) / (k + 1); };
    for (int k = 0; k < n; ++k)
    {
        double v = c[k] * along(d, k);
        if (dim > 1)
        {
            v *= along(e, j);
        }
        exact += dim > 2 ? v * h : v;
    }
    vp_assert(close(q, exact), "the-quadrature-is-exact-for-polynomials-of-its-degree");
    // several components at once
    auto g2 = [&](const auto& x)
    {
        xt::xtensor_fixed<double, xt::xshape<2>> r;
        r[0] = f(x);
        r[1] = 1 - f(x);
        return r;
    };
    auto q2 = gl.template quadrature<2>(cell, g2);
    vp_assert(close(q2[0], q) & close(q2[1], power(h, static_cast<int>(dim)) - q), "each-component-is-integrated");
}

VC(gauss_0) { gauss<1, 0>(); }
VC(gauss_1) { gauss<1, 1>(); }
VC(gauss_2) { gauss<1, 2>(); }
VC(gauss_3) { gauss<1, 3>(); }
VC(gauss_5) { gauss<1, 5>(); }
VC(gauss_7) { gauss<1, 7>(); }
VC(gauss_9) { gauss<1, 9>(); }
VC(gauss_11) { gauss<1, 11>(); }
VC(gauss_13) { gauss<1, 13>(); }
VC(gauss_15) { gauss<1, 15>(); }
VC(gauss_17) { gauss<1, 17>(); }
VC(gauss_19) { gauss<1, 19>(); }
VC(gauss_21) { gauss<1, 21>(); }
VC(gauss_23) { gauss<1, 23>(); }
VC(gauss_25) { gauss<1, 25>(); }
VC(gauss_27) { gauss<1, 27>(); }
VC(gauss_29) { gauss<1, 29>(); }
VC(gauss_31) { gauss<1, 31>(); }
VC(gauss_33) { gauss<1, 33>(); }
VC(gauss_35) { gauss<1, 35>(); }
VC(gauss_37) { gauss<1, 37>(); }
VC(gauss_39) { gauss<1, 39>(); }
VC(gauss_0_2d) { gauss<2, 0>(); }
VC(gauss_3_2d) { gauss<2, 3>(); }
VC(gauss_4_2d) { gauss<2, 4>(); }
VC(gauss_1_3d) { gauss<3, 1>(); }
VC(gauss_2_3d) { gauss<3, 2>(); }

// the field of the means of a function, and the L2 norm of the error
template <std::size_t dim>
static void means()
{
    using M = MR<dim, 1, 1>;
    Tree<dim> t;
    t.place();
    t.start(1, 2, 1);
    t.refine(1);
    auto m = made<M>(t);
    samurai::GaussLegendre<1> gl;
    double c = vp_any_f64("c");
    auto fn  = [&](const auto& x)
    {
        double r = c;
        for (std::size_t d = 0; d < dim; ++d)
        {
            r += (1 << d) * x[d];
        }
        return r;
    };
    auto f  = samurai::make_field<1>("f", m, fn, gl);
    bool ok = true;
    samurai::for_each_cell(m, [&](const auto& cell) { ok = ok & vp_eq(f[cell], fn(cell.center())); });
    vp_assert(ok, "the-field-of-the-means");
}
VC(norm_means_1d) { means<1>(); }
VC(norm_means_2d) { means<2>(); }

template <std::size_t dim, bool relative>
static void norm()
{
    using M  = MR<dim, 1, 1>;
    using id = typename M::mesh_id_t;
    Tree<dim> t;
    t.place();
    t.start(1, 2, 1);
    t.refine(1);
    auto m = made<M>(t);
    samurai::Field<M, double, 1> f("f", m);
    Store<dim> at(t, m[id::reference]);
    any_values(f);
    double v  = vp_any_f64("v");
    auto fn   = [&](const auto&) { return v; };
    vp_assume(!relative || v > 1e-3);
    double e  = samurai::L2_error<relative>(f, fn), s = 0, n = 0;
    for (const auto& k : t.leaves.v)
    {
        double d = comp(f, at(k)) - v, w = std::ldexp(1., -static_cast<int>(dim) * k.level);
        s += d * d * w;
        n += v * v * w;
    }
    vp_assert(e >= 0, "the-norm-is-not-negative");
    vp_assert(relative ? vp_eq(e * e * n, s) : vp_eq(e * e, s), "the-norm-of-the-error");
}
VC(norm_error_1d) { norm<1, false>(); }
VC(norm_error_2d) { norm<2, false>(); }
