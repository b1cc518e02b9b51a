#pragma once
// C15: the operators that are provided, and sums and multiples of operators
#include "c15_flux.hpp"

template <class M, std::size_t n>
using FV_ = samurai::Field<M, double, n, false>;

static double face_size(const Face& e)
{
    return std::ldexp(1., -e.from.level);
}

// values of the cells on the two sides of a face, on the level of the finer one
template <std::size_t dim, class F>
struct Sides
{
    const Store<dim>& at;
    F& u;

    double low(const Face& e, std::size_t c) const
    {
        return comp(u, at(e.from), c);
    }

    double high(const Face& e, std::size_t c) const
    {
        return comp(u, at(shifted(e.from, e.d, 1)), c);
    }
};

static double out_of(double f, int side)
{
    return side ? -f : f;
}

// small numbers of either sign, by case
static double some_number(const char* name, int k = 0)
{
    static const double v[] = {3., -0.5, 0.};
    return v[vp_case(name, 0, 1 + k)];
}

enum Which
{
    diffusion,
    diffusion_number,
    diffusion_plain,
    laplacian,
    multi,
    divergence,
    gradient,
    upwind,
    identity,
    zero
};

// the field of velocities: known numbers of both signs
template <std::size_t dim, class V>
static void set_velocities(V& v)
{
    for (std::size_t n = 0; n < v.array().size(); ++n)
    {
        v.array().data()[n] = static_cast<double>(static_cast<int>((n * 5 + 2) % 7) - 3);
    }
}

template <std::size_t dim, class M, std::size_t comps, int which>
static void provided(const Tree<dim>& t, const std::array<bool, dim>& per, int how)
{
    using id = typename M::mesh_id_t;
    using F  = FV_<M, comps>;
    auto m   = made_any<M>(t, per);
    F u("u", m);
    Store<dim> at(t, m[id::reference]);
    any_values(u);
    Sides<dim, F> s{at, u};
    if constexpr (which == diffusion || which == diffusion_number || which == diffusion_plain || which == laplacian)
    {
        samurai::DiffCoeff<dim> K;
        for (std::size_t d = 0; d < dim; ++d)
        {
            K(d) = which == diffusion ? 2. - 3. * static_cast<double>(d) : which == diffusion_number ? 5. : 1.;
        }
        auto flux = [&](const Face& e, std::size_t i, int side)
        {
            double f = K(e.d) * (s.low(e, i) - s.high(e, i)) / face_size(e);
            return out_of(which == laplacian ? -f : f, side);
        };
        if constexpr (which == diffusion)
        {
            auto scheme = samurai::make_diffusion_order2<F>(K);
            compare<dim>(t, at, u, scheme, how, flux);
        }
        else if constexpr (which == diffusion_number)
        {
            auto scheme = samurai::make_diffusion_order2<F>(5.);
            compare<dim>(t, at, u, scheme, how, flux);
        }
        else if constexpr (which == diffusion_plain)
        {
            auto scheme = samurai::make_diffusion_order2<F>();
            compare<dim>(t, at, u, scheme, how, flux);
        }
        else
        {
            auto scheme = samurai::make_laplacian_order2<F>();
            compare<dim>(t, at, u, scheme, how, flux);
        }
    }
    else if constexpr (which == multi)
    {
        samurai::DiffCoeff<comps> K;
        for (std::size_t i = 0; i < comps; ++i)
        {
            K(i) = 2. - 3. * static_cast<double>(i);
        }
        auto scheme = samurai::make_multi_diffusion_order2<F>(K);
        compare<dim>(t, at, u, scheme, how,
                     [&](const Face& e, std::size_t i, int side)
                     {
                         return out_of(K(i) * (s.low(e, i) - s.high(e, i)) / face_size(e), side);
                     });
    }
    else if constexpr (which == divergence)
    {
        auto scheme = samurai::make_divergence_order2<F>();
        compare<dim>(t, at, u, scheme, how,
                     [&](const Face& e, std::size_t, int side)
                     {
                         return out_of((s.low(e, e.d) + s.high(e, e.d)) / 2, side);
                     });
    }
    else if constexpr (which == gradient)
    {
        auto scheme = samurai::make_gradient_order2<F>();
        compare<dim>(t, at, u, scheme, how,
                     [&](const Face& e, std::size_t i, int side)
                     {
                         return i == e.d ? out_of((s.low(e, 0) + s.high(e, 0)) / 2, side) : 0.;
                     });
    }
    else if constexpr (which == upwind)
    {
        samurai::VelocityVector<dim> v;
        for (std::size_t d = 0; d < dim; ++d)
        {
            v(d) = some_number("velocity", d == 0);
        }
        auto scheme = samurai::make_convection_upwind<F>(v);
        compare<dim>(t, at, u, scheme, how,
                     [&](const Face& e, std::size_t i, int side)
                     {
                         return out_of(v(e.d) * (v(e.d) >= 0 ? s.low(e, i) : s.high(e, i)), side);
                     });
    }
}

// convection by a velocity field
template <std::size_t dim, class M, std::size_t comps>
static void carried(const Tree<dim>& t, const std::array<bool, dim>& per, int how)
{
    using id = typename M::mesh_id_t;
    using F  = FV_<M, comps>;
    using V  = FV_<M, dim>;
    auto m   = made_any<M>(t, per);
    F u("u", m);
    V v("v", m);
    Store<dim> at(t, m[id::reference]);
    any_values(u);
    set_velocities<dim>(v);
    Sides<dim, F> s{at, u};
    auto scheme = samurai::make_convection_upwind<F>(v);
    compare<dim>(t, at, u, scheme, how,
                 [&](const Face& e, std::size_t i, int side)
                 {
                     double w = comp(v, at(e.from), e.d);
                     return out_of(w * (w >= 0 ? s.low(e, i) : s.high(e, i)), side);
                 });
}

// convection of the field by itself
template <std::size_t dim, class M, std::size_t comps>
static void self_carried(const Tree<dim>& t, const std::array<bool, dim>& per, int how)
{
    using id = typename M::mesh_id_t;
    using F  = FV_<M, comps>;
    auto m   = made_any<M>(t, per);
    F u("u", m);
    Store<dim> at(t, m[id::reference]);
    set_velocities<dim>(u);
    Sides<dim, F> s{at, u};
    auto scheme = samurai::make_convection_upwind<F>();
    compare<dim>(t, at, u, scheme, how,
                 [&](const Face& e, std::size_t i, int side)
                 {
                     std::size_t d = comps == 1 ? 0 : e.d;
                     double w      = s.low(e, d);
                     return out_of(w >= 0 ? w * s.low(e, i) : s.high(e, d) * s.high(e, i), side);
                 });
}

// a local operator: out = A u + B u*u by component
template <class F>
static auto local_square()
{
    using cfg = samurai::LocalCellSchemeConfig<samurai::SchemeType::NonLinear, F::size, F>;
    auto s    = samurai::make_cell_based_scheme<cfg>("square");
    s.set_scheme_function(
        [](const auto& cell, const auto& field) -> samurai::SchemeValue<cfg>
        {
            auto v = field[cell];
            return v * v;
        });
    return s;
}

// a linear operator on a star of cells
static double weight(std::size_t c, std::size_t i, std::size_t j, double h)
{
    return 1. + 2. * static_cast<double>(c) - 3. * static_cast<double>(i) + static_cast<double>(j) + 1. / h;
}

template <class F>
static auto star_operator()
{
    using cfg = samurai::StarStencilSchemeConfig<samurai::SchemeType::LinearHomogeneous, F::size, 1, F>;
    auto s    = samurai::make_cell_based_scheme<cfg>("star");
    s.coefficients_func() = [](double h)
    {
        samurai::StencilCoeffs<cfg> k;
        for (std::size_t c = 0; c < cfg::stencil_size; ++c)
        {
            for (std::size_t i = 0; i < F::size; ++i)
            {
                for (std::size_t j = 0; j < F::size; ++j)
                {
                    coeff_at(k, c, i, j) = weight(c, i, j, h);
                }
            }
        }
        return k;
    };
    return s;
}

// out = balance of the fluxes + local(leaf, component)
template <std::size_t dim, class F, class S, class Flux, class Local>
static void compare_sum(const Tree<dim>& t, const Store<dim>& at, F& u, const S& scheme, int how, Flux&& flux, Local&& local)
{
    using O = typename S::output_field_t;
    Balance<dim, F> b(t, at, u, O::size);
    b.all(flux);
    for (const auto& n : t.leaves.v)
    {
        for (std::size_t i = 0; i < O::size; ++i)
        {
            b.put(n, i, local(n, i));
        }
    }
    if (how == 0)
    {
        auto o = scheme(u);
        b.check(o, {});
    }
    else
    {
        O o("o", u.mesh());
        auto before = any_output(o);
        scheme.apply(o, u);
        b.check(o, before);
    }
}

template <std::size_t dim, class M, std::size_t comps>
static void algebra(const Tree<dim>& t, const std::array<bool, dim>& per, int which)
{
    using id = typename M::mesh_id_t;
    using F  = FV_<M, comps>;
    auto m   = made_any<M>(t, per);
    F u("u", m);
    Store<dim> at(t, m[id::reference]);
    if (which == 5 || which == 6)
    {
        set_velocities<dim>(u);
    }
    else
    {
        any_values(u);
    }
    Sides<dim, F> s{at, u};
    samurai::VelocityVector<dim> v;
    for (std::size_t d = 0; d < dim; ++d)
    {
        v(d) = d ? -2. : 3.;
    }
    auto diff = samurai::make_diffusion_order2<F>(5.);
    auto conv = samurai::make_convection_upwind<F>(v);
    auto fd   = [&](const Face& e, std::size_t i)
    {
        return 5. * (s.low(e, i) - s.high(e, i)) / face_size(e);
    };
    auto fc = [&](const Face& e, std::size_t i)
    {
        return v(e.d) * (v(e.d) >= 0 ? s.low(e, i) : s.high(e, i));
    };
    auto self = [&](const Face& e, std::size_t i)
    {
        std::size_t d = comps == 1 ? 0 : e.d;
        double w      = s.low(e, d);
        return w >= 0 ? w * s.low(e, i) : s.high(e, d) * s.high(e, i);
    };
    auto value = [&](const Node& n, std::size_t i)
    {
        return comp(u, at(n), i);
    };
    auto none = [](const auto&, std::size_t)
    {
        return 0.;
    };
    auto star = [&](const Node& n, std::size_t i)
    {
        auto shape = shape_of(samurai::star_stencil<dim, 1>());
        double f   = 0;
        for (int c = 0; c < shape.n; ++c)
        {
            Node q = n;
            for (std::size_t d = 0; d < dim; ++d)
            {
                q.x[d] += shape.at[c][d];
            }
            for (std::size_t j = 0; j < comps; ++j)
            {
                f += weight(static_cast<std::size_t>(c), i, j, std::ldexp(1., -n.level)) * comp(u, at(q), j);
            }
        }
        return f;
    };
    int how = vp_case("how", 0, 1);
    switch (which)
    {
        case 0: // multiples
        {
            double a    = vp_case("a", -2, 3) / 2.;
            auto scheme = a * diff;
            compare_sum<dim>(t, at, u, scheme, how, [&](const Face& e, std::size_t i, int side) { return out_of(a * fd(e, i), side); }, none);
            break;
        }
        case 1: // sums of fluxes of the same kind
        {
            auto scheme = conv + 2. * conv;
            compare_sum<dim>(t, at, u, scheme, how, [&](const Face& e, std::size_t i, int side) { return out_of(3. * fc(e, i), side); }, none);
            break;
        }
        case 2:
        {
            auto scheme = -conv + diff;
            compare_sum<dim>(t, at, u, scheme, how, [&](const Face& e, std::size_t i, int side) { return out_of(fd(e, i) - fc(e, i), side); }, none);
            break;
        }
        case 3: // fluxes and a local operator
        {
            auto one    = samurai::make_identity<F>();
            auto scheme = diff + one;
            compare_sum<dim>(t, at, u, scheme, how, [&](const Face& e, std::size_t i, int side) { return out_of(fd(e, i), side); }, value);
            break;
        }
        case 4:
        {
            auto one    = samurai::make_identity<F>();
            auto scheme = 3. * (conv - one);
            compare_sum<dim>(t, at, u, scheme, how, [&](const Face& e, std::size_t i, int side) { return out_of(3. * fc(e, i), side); },
                             [&](const Node& n, std::size_t i) { return -3. * value(n, i); });
            break;
        }
        case 5: // not linear
        {
            if constexpr (comps == 1 || comps == dim)
            {
            auto scheme = local_square<F>() + (-2.) * (samurai::make_convection_upwind<F>());
            compare_sum<dim>(t, at, u, scheme, how, [&](const Face& e, std::size_t i, int side) { return out_of(-2. * self(e, i), side); },
                             [&](const Node& n, std::size_t i) { return value(n, i) * value(n, i); });
            }
            break;
        }
        case 6:
        {
            auto scheme = 3. * local_square<F>();
            compare_sum<dim>(t, at, u, scheme, how, [](const Face&, std::size_t, int) { return 0.; },
                             [&](const Node& n, std::size_t i) { return 3. * value(n, i) * value(n, i); });
            break;
        }
        case 7: // local operators
        {
            auto scheme = star_operator<F>();
            compare_sum<dim>(t, at, u, scheme, how, [](const Face&, std::size_t, int) { return 0.; }, star);
            break;
        }
        case 8:
        {
            auto scheme = 2. * star_operator<F>() + star_operator<F>();
            compare_sum<dim>(t, at, u, scheme, how, [](const Face&, std::size_t, int) { return 0.; },
                             [&](const Node& n, std::size_t i) { return 3. * star(n, i); });
            break;
        }
        case 9:
        {
            auto scheme = samurai::make_identity<F>() + samurai::make_zero_operator<F>();
            compare_sum<dim>(t, at, u, scheme, how, [](const Face&, std::size_t, int) { return 0.; }, value);
            break;
        }
    }
}
