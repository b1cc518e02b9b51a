#include "c15_ops.hpp"
//@opt bc_* bound=random meshes of at most 3 x 2 root cells with at most 2 refinements and random values
// the reconstruction of Jiang and Shu (1996), by its own definition: three parabolas through cell means, weighted
static double weno_reference(const std::array<double, 5>& f)
{
    // the value at the right end of cell 2 of the parabola with the means of cells k, k+1, k+2
    auto parabola = [&](int k)
    {
        // means over [i, i+1] of a + b x + c x^2, with x = 0 at the left end of cell k
        double m0 = f[static_cast<std::size_t>(k)], m1 = f[static_cast<std::size_t>(k + 1)], m2 = f[static_cast<std::size_t>(k + 2)];
        double c  = (m2 - 2 * m1 + m0) / 2;
        double b  = m1 - m0 - 2 * c;
        double a  = m0 - b / 2 - c / 3;
        double x  = 3 - k;
        // smoothness: sum of the integrals of the squared derivatives over cell 2
        double lo = 2 - k, hi = 3 - k;
        auto prim = [&](double t)
        {
            return b * b * t + 2 * b * c * t * t + 4. / 3. * c * c * t * t * t;
        };
        double is = prim(hi) - prim(lo) + 4 * c * c;
        return std::array<double, 2>{a + b * x + c * x * x, is};
    };
    const double d[3] = {0.1, 0.6, 0.3};
    double num = 0, den = 0;
    for (int k = 0; k < 3; ++k)
    {
        auto p   = parabola(k);
        double w = d[k] / ((1e-6 + p[1]) * (1e-6 + p[1]));
        num += w * p[0];
        den += w;
    }
    return num / den;
}

static bool close_to(double a, double b)
{
    return std::abs(a - b) <= 1e-7 * (1 + std::abs(a) + std::abs(b));
}

BC(weno_flux)
{
    std::array<double, 5> f;
    int kind = vp_case("kind", 0, 2);
    double a = vp_any_f64("a"), b = vp_any_f64("b"), c = vp_any_f64("c");
    for (int k = 0; k < 5; ++k)
    {
        f[static_cast<std::size_t>(k)] = kind == 0 ? vp_any_f64("f") : a + b * k + (kind == 2 ? c * (k * k + 1. / 12.) : 0.);
    }
    double r = samurai::compute_weno5_flux(f);
    vp_assert(close_to(r, weno_reference(f)), "the-flux-is-the-weighted-reconstruction-at-the-face");
    if (kind != 0)
    {
        double x = 2.5;
        vp_assert(close_to(r, a + b * x + (kind == 2 ? c * x * x : 0.)), "the-reconstruction-is-exact-for-parabolas");
    }
}

// an operator whose fluxes are reconstructed upwind from f(cell, component)
template <std::size_t dim, class F, class S, class V, class Fl>
static void compare_weno(const Tree<dim>& t, const Store<dim>& at, F& u, S& scheme, V&& velocity, Fl&& f)
{
    Balance<dim, F> b(t, at, u, F::size);
    b.all(
        [&](const Face& e, std::size_t i, int side)
        {
            bool up = velocity(e) >= 0;
            std::array<double, 5> v;
            for (int k = 0; k < 5; ++k)
            {
                v[static_cast<std::size_t>(k)] = f(shifted(e.from, e.d, up ? k - 2 : 3 - k), e, i);
            }
            return out_of(weno_reference(v), side);
        });
    auto o  = scheme(u);
    bool ok = true;
    for (const auto& n : t.leaves.v)
    {
        for (std::size_t c = 0; c < F::size; ++c)
        {
            ok = ok && close_to(comp(o, at(n), c), b.out[static_cast<std::size_t>(t.leaves.find(n)) * F::size + c]);
        }
    }
    vp_assert(ok, "the-operator-is-the-balance-of-the-reconstructed-fluxes");
}

template <std::size_t dim, std::size_t comps>
static void weno_any(int which)
{
    using M  = MR<dim, 3, 1>;
    using id = typename M::mesh_id_t;
    using F  = FV_<M, comps>;
    auto t   = any_graded<dim>(dim == 3 ? 2 : 3, 2, 1, dim == 3 ? 1 : 2, 2);
    auto m   = made<M>(t);
    F u("u", m);
    Store<dim> at(t, m[id::reference]);
    any_values(u);
    if (which == 0) // constant velocity
    {
        samurai::VelocityVector<dim> v;
        for (std::size_t d = 0; d < dim; ++d)
        {
            v(d) = vp_any_f64("velocity");
        }
        auto scheme = samurai::make_convection_weno5<F>(v);
        compare_weno<dim>(t, at, u, scheme, [&](const Face& e) { return v(e.d); },
                          [&](const Node& n, const Face& e, std::size_t i) { return v(e.d) * comp(u, at(n), i); });
    }
    else if (which == 1) // a field of velocities
    {
        if constexpr (dim > 1)
        {
            FV_<M, dim> v("v", m);
            any_values(v);
            auto scheme = samurai::make_convection_weno5<F>(v);
            compare_weno<dim>(t, at, u, scheme, [&](const Face& e) { return comp(v, at(e.from), e.d); },
                              [&](const Node& n, const Face& e, std::size_t i) { return comp(v, at(e.from), e.d) * comp(u, at(n), i); });
        }
    }
    else if constexpr (comps == 1 || comps == dim) // by itself
    {
        auto scheme = samurai::make_convection_weno5<F>();
        auto along_ = [](const Face& e) { return comps == 1 ? std::size_t(0) : e.d; };
        compare_weno<dim>(t, at, u, scheme, [&](const Face& e) { return comp(u, at(e.from), along_(e)); },
                          [&](const Node& n, const Face& e, std::size_t i) { return comp(u, at(n), along_(e)) * comp(u, at(n), i); });
    }
}

BC(weno_1d) { weno_any<1, 1>(vp_case("which", 0, 1) * 2); }
BC(weno_2d) { weno_any<2, 1>(vp_case("which", 0, 2)); }
BC(weno_vec_2d) { weno_any<2, 2>(vp_case("which", 0, 2)); }
BC(weno_3d) { weno_any<3, 1>(vp_case("which", 0, 2)); }
