#pragma once
// C10: mesh adaptation from end to end, on the real Adapt
#include "tree.hpp"
#include <samurai/mr/adapt.hpp>

template <std::size_t dim>
static double volume(const Node& n, int lmax)
{
    double v = 1;
    for (std::size_t d = 0; d < dim; ++d)
    {
        v *= 1 << (lmax - n.level);
    }
    return v;
}

// the leaves cover the domain exactly once
template <std::size_t dim>
static bool tiles(const Tree<dim>& t, const NodeSet& s)
{
    double v = 0, w = 0;
    for (std::size_t k = 0; k < s.v.size(); ++k)
    {
        if (!t.in_domain(s.v[k]) || s.v[k].level < t.lmin || s.v[k].level > t.lmax || s.below(s.v[k]))
        {
            return false;
        }
        for (std::size_t j = 0; j < k; ++j)
        {
            if (s.v[j] == s.v[k])
            {
                return false;
            }
        }
        v += volume<dim>(s.v[k], t.lmax);
    }
    for (const auto& n : t.domain.v)
    {
        w += volume<dim>(n, t.lmax);
    }
    return v == w;
}

// leaves that touch (by a corner too) differ by at most one level
template <std::size_t dim>
static bool graded(const Tree<dim>& t, const NodeSet& s, const std::array<bool, dim>& per, bool corners)
{
    bool ok = true;
    for (const auto& n : s.v)
    {
        around(n, dim, 1,
               [&](const Node& q)
               {
                   int far = 0;
                   for (std::size_t d = 0; d < dim; ++d)
                   {
                       far += q.x[d] != n.x[d];
                   }
                   Node r = t.wrap(q, per);
                   if (corners || far == 1)
                   {
                       for (const auto& m : s.v)
                       {
                           ok = ok && !(m.level < n.level - 1 && inside(r, m));
                       }
                   }
               });
    }
    return ok;
}


// values: 0 symbolic, otherwise chosen among 0..values
template <std::size_t dim, std::size_t w, bool enlarge>
static void adapt(int lmin, int lmax, int budget, bool anyper, int values, bool uniform)
{
    using M  = samurai::MRMesh<samurai::MRConfig<dim, w>>;
    using id = typename M::mesh_id_t;
    xt::xtensor_fixed<double, xt::xshape<dim>> lo, hi;
    lo.fill(0);
    hi.fill(1);
    std::array<bool, dim> per;
    static const char* const nm[] = {"px", "py", "pz"};
    for (std::size_t d = 0; d < dim; ++d)
    {
        per[d] = anyper && vp_case(nm[d], 0, 1) != 0;
    }
    Tree<dim> t;
    t.start(lmin, lmax, 1 << lmin, 1 << lmin, 1 << lmin);
    if (uniform)
    {
        for (std::size_t k = 0; k < t.leaves.v.size();)
        {
            if (t.leaves.v[k].level < lmax)
            {
                t.split(k);
            }
            else
            {
                ++k;
            }
        }
    }
    else
    {
        t.refine(budget);
        t.grade(1, per);
    }
    M ref(samurai::Box<double, dim>(lo, hi), static_cast<std::size_t>(lmin), static_cast<std::size_t>(lmax), per);
    M mesh(t.template cell_list<M>(), ref);
    samurai::Field<M, double, 1> u("u", mesh);
    samurai::Field<M, double, 2> v("v", mesh);
    u.fill(0);
    v.fill(0);
    samurai::make_bc<samurai::Neumann<1>>(u, 0.);
    samurai::make_bc<samurai::Neumann<1>>(v, 0., 0.);
    Store<dim> was(t, mesh[id::reference]);
    std::vector<double> old;
    double in[3] = {0, 0, 0}, out[3] = {0, 0, 0};
    for (const auto& n : t.leaves.v)
    {
        auto k    = was(n);
        double a  = values ? vp_case("u", 0, values) : vp_any_f64("u");
        double b  = values ? vp_case("v", 0, values) : vp_any_f64("v");
        u.array().data()[k] = a;
        comp(v, k, 0)       = b;
        comp(v, k, 1)       = a - 2 * b;
        in[0] += a * volume<dim>(n, lmax);
        in[1] += b * volume<dim>(n, lmax);
        old.push_back(a);
    }
    in[2]                     = in[0] - 2 * in[1];
    static const double eps[] = {1e-4, 0.1, 0.5, 10};
    samurai::Adapt<enlarge, decltype(u)> go(u);
    go(eps[vp_case("eps", 0, 3)], vp_case("regularity", 0, 1), v);
    auto s = cells_of(t, mesh[id::cells]);
    Store<dim> now(t, mesh[id::reference]);
    vp_assert(tiles(t, s), "the-cells-cover-the-domain-once-between-the-two-levels");
    vp_assert(graded<dim>(t, s, per, true), "neighbouring-cells-differ-by-one-level-at-most");
    bool same_per = true, kept = true;
    for (std::size_t d = 0; d < dim; ++d)
    {
        same_per = same_per && mesh.is_periodic(d) == per[d];
    }
    vp_assert(same_per, "the-periodicity-is-kept");
    vp_assert(u.array().size() == mesh.nb_cells() && v.array().size() == 2 * mesh.nb_cells(), "a-value-per-cell");
    for (const auto& n : s.v)
    {
        auto k = now(n);
        out[0] += u.array().data()[k] * volume<dim>(n, lmax);
        out[1] += comp(v, k, 0) * volume<dim>(n, lmax);
        out[2] += comp(v, k, 1) * volume<dim>(n, lmax);
    }
    vp_assert(vp_eq(in[0], out[0]), "the-integral-is-conserved");
    vp_assert(vp_eq(in[1], out[1]) && vp_eq(in[2], out[2]), "the-integral-of-the-other-fields-is-conserved");
    (void)kept;
}

// a constant is represented on the coarsest level; with a zero threshold nothing is coarsened
template <std::size_t dim>
static void adapt_limits(int lmin, int lmax, bool constant)
{
    using M  = samurai::MRMesh<samurai::MRConfig<dim>>;
    using id = typename M::mesh_id_t;
    xt::xtensor_fixed<double, xt::xshape<dim>> lo, hi;
    lo.fill(0);
    hi.fill(1);
    std::array<bool, dim> per;
    static const char* const nm[] = {"px", "py", "pz"};
    for (std::size_t d = 0; d < dim; ++d)
    {
        per[d] = vp_case(nm[d], 0, 1) != 0;
    }
    M mesh(samurai::Box<double, dim>(lo, hi), static_cast<std::size_t>(lmin), static_cast<std::size_t>(lmax), per);
    Tree<dim> t;
    int l = constant ? lmin : lmax;
    t.start(l, lmax, 1 << l, 1 << l, 1 << l);
    samurai::Field<M, double, 1> u("u", mesh);
    u.fill(0);
    samurai::make_bc<samurai::Neumann<1>>(u, 0.);
    double c = vp_any_f64("c");
    samurai::for_each_cell(mesh[id::cells],
                           [&](const auto& cell)
                           {
                               u[cell] = constant ? c : vp_any_f64("u");
                           });
    samurai::Adapt<false, decltype(u)> go(u);
    go(constant ? 1e-4 : 0., 1);
    vp_assert(same(cells_of(t, mesh[id::cells]), t.leaves), constant ? "a-constant-is-coarsened-down-to-the-coarsest-level" : "nothing-is-coarsened-with-a-zero-threshold");
    if (constant)
    {
        bool all = true;
        samurai::for_each_cell(mesh[id::cells],
                               [&](const auto& cell)
                               {
                                   all = all & vp_eq(u[cell], c);
                               });
        vp_assert(all, "the-constant-is-kept");
    }
}
