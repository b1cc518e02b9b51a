#pragma once
// C15: operators defined by fluxes through the faces of the cells
#include "c14_iter.hpp"
#include <samurai/schemes/fv.hpp>

// what is expected: out = before + (1/|cell|) * sum over its faces of (outward sign) * |face| * flux
template <std::size_t dim, class F>
struct Balance
{
    const Tree<dim>& t;
    const Store<dim>& at;
    F& u;
    std::vector<double> out; // per leaf and component
    std::size_t comps;
    std::vector<Face> inner, outer;

    Balance(const Tree<dim>& t_, const Store<dim>& at_, F& u_, std::size_t comps_)
        : t(t_)
        , at(at_)
        , u(u_)
        , out(t_.leaves.v.size() * comps_, 0.)
        , comps(comps_)
    {
        for (std::size_t d = 0; d < dim; ++d)
        {
            faces(t, d, inner);
            sides(t, d, 1, outer);
            sides(t, d, -1, outer);
        }
    }

    static double len(int level)
    {
        return std::ldexp(1., -level);
    }

    static double measure(int level, std::size_t n)
    {
        double r = 1;
        for (std::size_t k = 0; k < n; ++k)
        {
            r *= len(level);
        }
        return r;
    }

    double val(const Node& n, std::size_t c) const
    {
        return comp(u, at(n), c);
    }

    void put(const Node& leaf, std::size_t c, double v)
    {
        int k = t.leaves.find(leaf);
        if (k >= 0)
        {
            out[static_cast<std::size_t>(k) * comps + c] += v;
        }
    }

    // flux(face, i, j): the flux leaving the low cell (j = 0) or the high cell (j = 1), component i
    template <class Flux>
    void add(const Face& e, Flux&& flux)
    {
        double a = measure(e.from.level, dim - 1);
        for (std::size_t i = 0; i < comps; ++i)
        {
            put(e.low, i, flux(e, i, 0) * a / measure(e.low.level, dim));
            put(e.high, i, flux(e, i, 1) * a / measure(e.high.level, dim));
        }
    }

    template <class Flux>
    void all(Flux&& flux, bool boundary = true, int only = -1)
    {
        for (const auto& e : inner)
        {
            if (only < 0 || e.d == static_cast<std::size_t>(only))
            {
                add(e, flux);
            }
        }
        if (boundary)
        {
            for (const auto& e : outer)
            {
                if (only < 0 || e.d == static_cast<std::size_t>(only))
                {
                    add(e, flux);
                }
            }
        }
    }

    template <class O>
    void check(O& o, const std::vector<double>& before)
    {
        bool ok = true, rest = true;
        for (std::size_t n = 0; n < at.cells.v.size(); ++n)
        {
            int k = t.leaves.find(at.cells.v[n]);
            for (std::size_t c = 0; c < comps; ++c)
            {
                double was = before.empty() ? 0. : before[O::is_soa ? c * (before.size() / O::size) + at.at[n] : at.at[n] * O::size + c];
                if (k >= 0)
                {
                    ok = ok & vp_eq(comp(o, at.at[n], c), was + out[static_cast<std::size_t>(k) * comps + c]);
                }
                else
                {
                    rest = rest & vp_eq(comp(o, at.at[n], c), was);
                }
            }
        }
        vp_assert(ok, "the-operator-is-the-balance-of-the-fluxes-of-each-cell");
        vp_assert(rest, "the-other-values-are-unchanged");
    }

    // the sum over the domain
    template <class O>
    void conserved(O& o)
    {
        bool ok = true;
        for (std::size_t c = 0; c < comps; ++c)
        {
            double s = 0;
            for (const auto& n : t.leaves.v)
            {
                s += comp(o, at(n), c) * measure(n.level, dim);
            }
            ok = ok & vp_eq(s, 0.);
        }
        vp_assert(ok, "without-boundary-fluxes-the-sum-over-the-domain-is-zero");
    }
};

template <class F>
static std::vector<double> any_output(F& f)
{
    std::vector<double> old(f.array().size());
    for (std::size_t n = 0; n < old.size(); ++n)
    {
        old[n]              = vp_any_f64("before");
        f.array().data()[n] = old[n];
    }
    return old;
}

template <class S, class = void>
struct has_boundary_switch : std::false_type
{
};
template <class S>
struct has_boundary_switch<S, std::void_t<decltype(std::declval<S&>().include_boundary_fluxes(true))>> : std::true_type
{
};

// apply the scheme in one of the ways there are and compare
template <std::size_t dim, class F, class S, class Flux>
static void compare(const Tree<dim>& t, const Store<dim>& at, F& u, S& scheme, int how, Flux&& flux)
{
    using O = typename S::output_field_t;
    Balance<dim, F> b(t, at, u, O::size);
    if (how == 0)
    {
        b.all(flux);
        auto o = scheme(u);
        b.check(o, {});
    }
    else if (how == 1)
    {
        O o("o", u.mesh());
        auto before = any_output(o);
        b.all(flux);
        scheme.apply(o, u);
        b.check(o, before);
    }
    else if (how == 2)
    {
        int d = vp_case("d", 0, static_cast<int>(dim) - 1);
        b.all(flux, true, d);
        auto o = scheme(static_cast<std::size_t>(d), u);
        b.check(o, {});
    }
    else
    {
        if constexpr (has_boundary_switch<S>::value)
        {
            scheme.include_boundary_fluxes(false);
            b.all(flux, false);
            auto o = scheme(u);
            b.check(o, {});
            if (how == 3)
            {
                b.conserved(o);
            }
        }
    }
}

static Node shifted(Node n, std::size_t d, int by)
{
    n.x[d] += by;
    return n;
}

// arbitrary numbers that the fluxes are made of
static double coefficient(std::size_t d, std::size_t c, std::size_t i, std::size_t j, double h)
{
    return (2. + static_cast<double>(d) - 3. * static_cast<double>(c) + 5. * static_cast<double>(i) - 7. * static_cast<double>(j)) + (1. + static_cast<double>(c + i)) / h;
}

template <class C>
static double& coeff_at(C& coeffs, std::size_t c, [[maybe_unused]] std::size_t i, [[maybe_unused]] std::size_t j)
{
    if constexpr (std::is_same_v<std::decay_t<decltype(coeffs[c])>, double>)
    {
        return coeffs[c];
    }
    else
    {
        return coeffs[c](i, j);
    }
}

template <class V>
static double& flux_at(V& v, [[maybe_unused]] std::size_t i)
{
    if constexpr (std::is_same_v<V, double>)
    {
        return v;
    }
    else
    {
        return v(i);
    }
}

// coefficients that depend on the size of the cells only
template <std::size_t dim, class M, class F, std::size_t out, std::size_t size>
static void linear(const Tree<dim>& t, const std::array<bool, dim>& per, int how)
{
    using id  = typename M::mesh_id_t;
    using cfg = samurai::FluxConfig<samurai::SchemeType::LinearHomogeneous, out, size, F>;
    auto m    = made_any<M>(t, per);
    F u("u", m);
    Store<dim> at(t, m[id::reference]);
    any_values(u);
    samurai::FluxDefinition<cfg> def;
    for (std::size_t d = 0; d < dim; ++d)
    {
        def[d].cons_flux_function = [d](double h)
        {
            samurai::FluxStencilCoeffs<cfg> k;
            for (std::size_t c = 0; c < size; ++c)
            {
                for (std::size_t i = 0; i < out; ++i)
                {
                    for (std::size_t j = 0; j < F::size; ++j)
                    {
                        coeff_at(k, c, i, j) = coefficient(d, c, i, j, h);
                    }
                }
            }
            return k;
        };
    }
    auto scheme = samurai::make_flux_based_scheme(def);
    compare<dim>(t, at, u, scheme, how,
                 [&](const Face& e, std::size_t i, int side)
                 {
                     double f = 0;
                     for (std::size_t c = 0; c < size; ++c)
                     {
                         for (std::size_t j = 0; j < F::size; ++j)
                         {
                             f += coefficient(e.d, c, i, j, std::ldexp(1., -e.from.level))
                                * comp(u, at(shifted(e.from, e.d, static_cast<int>(c) + 1 - static_cast<int>(size) / 2)), j);
                         }
                     }
                     return side ? -f : f;
                 });
}

// any fluxes: an arbitrary number per face (and side, when not conservative)
template <std::size_t dim, class F>
struct AnyFlux
{
    std::vector<Face> all;
    std::vector<double> v;
    std::size_t comps;

    AnyFlux(const Tree<dim>& t, std::size_t comps_)
        : comps(comps_)
    {
        for (std::size_t d = 0; d < dim; ++d)
        {
            faces(t, d, all);
            sides(t, d, 1, all);
            sides(t, d, -1, all);
        }
        v.resize(all.size() * comps * 2);
        for (auto& x : v)
        {
            x = vp_any_f64("flux");
        }
    }

    // the number of the face above the cell 'from' in direction d
    std::size_t at(std::size_t d, const Node& from) const
    {
        for (std::size_t k = 0; k < all.size(); ++k)
        {
            if (all[k].d == d && all[k].from == from)
            {
                return k;
            }
        }
        vp_assert(false, "the-flux-is-asked-for-on-faces-only");
        return 0;
    }

    double operator()(std::size_t d, const Node& from, std::size_t i, int side) const
    {
        return v[(at(d, from) * comps + i) * 2 + static_cast<std::size_t>(side)];
    }
};

template <std::size_t dim, class M, class F, std::size_t out, std::size_t size>
static void nonlinear(const Tree<dim>& t, const std::array<bool, dim>& per, int how, bool conservative)
{
    using id  = typename M::mesh_id_t;
    using cfg = samurai::FluxConfig<samurai::SchemeType::NonLinear, out, size, F>;
    auto m    = made_any<M>(t, per);
    F u("u", m);
    Store<dim> at(t, m[id::reference]);
    AnyFlux<dim, F> any(t, out);
    bool same_field = true;
    samurai::FluxDefinition<cfg> def;
    constexpr std::size_t low = size / 2 - 1;
    for (std::size_t d = 0; d < dim; ++d)
    {
        if (conservative)
        {
            def[d].cons_flux_function = [&, d](auto& cells, const F& field)
            {
                same_field = same_field & (&field == &u);
                samurai::FluxValue<cfg> r;
                for (std::size_t i = 0; i < out; ++i)
                {
                    flux_at(r, i) = any(d, node_of(t, cells[low]), i, 0);
                }
                return r;
            };
        }
        else
        {
            def[d].flux_function = [&, d](auto& cells, const F& field)
            {
                same_field = same_field & (&field == &u);
                samurai::FluxValuePair<cfg> r;
                for (std::size_t i = 0; i < out; ++i)
                {
                    flux_at(r[0], i) = any(d, node_of(t, cells[low]), i, 0);
                    flux_at(r[1], i) = any(d, node_of(t, cells[low]), i, 1);
                }
                return r;
            };
        }
    }
    auto scheme = samurai::make_flux_based_scheme(def);
    compare<dim>(t, at, u, scheme, conservative ? how : how == 3 ? 4 : how,
                 [&](const Face& e, std::size_t i, int side)
                 {
                     return conservative ? (side ? -1. : 1.) * any(e.d, e.from, i, 0) : any(e.d, e.from, i, side);
                 });
    vp_assert(same_field, "the-flux-is-given-the-field");
}

// coefficients that depend on the face
template <std::size_t dim, class M, class F, std::size_t out>
static void heterogeneous(const Tree<dim>& t, const std::array<bool, dim>& per, int how)
{
    using id                   = typename M::mesh_id_t;
    constexpr std::size_t size = 2;
    using cfg                  = samurai::FluxConfig<samurai::SchemeType::LinearHeterogeneous, out, size, F>;
    auto m                     = made_any<M>(t, per);
    F u("u", m);
    Store<dim> at(t, m[id::reference]);
    any_values(u);
    // a number per face that tells them apart
    auto number = [&](const Node& n, std::size_t d)
    {
        return static_cast<double>(3 * n.level + 5 * n.x[0] + 7 * n.x[1] + 11 * n.x[2] + 2 * static_cast<int>(d)) / 8.;
    };
    samurai::FluxDefinition<cfg> def;
    for (std::size_t d = 0; d < dim; ++d)
    {
        def[d].cons_flux_function = [&, d](auto& cells)
        {
            samurai::FluxStencilCoeffs<cfg> k;
            for (std::size_t c = 0; c < size; ++c)
            {
                for (std::size_t i = 0; i < out; ++i)
                {
                    for (std::size_t j = 0; j < F::size; ++j)
                    {
                        coeff_at(k, c, i, j) = coefficient(d, c, i, j, 1.) + number(node_of(t, cells[0]), d);
                    }
                }
            }
            return k;
        };
    }
    auto scheme = samurai::make_flux_based_scheme(def);
    compare<dim>(t, at, u, scheme, how,
                 [&](const Face& e, std::size_t i, int side)
                 {
                     double f = 0;
                     for (std::size_t c = 0; c < size; ++c)
                     {
                         for (std::size_t j = 0; j < F::size; ++j)
                         {
                             f += (coefficient(e.d, c, i, j, 1.) + number(e.from, e.d)) * comp(u, at(shifted(e.from, e.d, static_cast<int>(c))), j);
                         }
                     }
                     return side ? -f : f;
                 });
}
