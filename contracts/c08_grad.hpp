#pragma once
// C08: graduation of a set of leaves, and of tags
#include "tree.hpp"
#include <samurai/algorithm/graduation.hpp>
#include <samurai/algorithm/update.hpp>
#include <samurai/graduation.hpp>

// the directions of a star of the given width
template <std::size_t dim, class F>
static void star(const Node& n, int width, F&& f)
{
    for (std::size_t d = 0; d < dim; ++d)
    {
        for (int k = -width; k <= width; ++k)
        {
            if (k != 0)
            {
                Node q = n;
                q.x[d] += k;
                f(q);
            }
        }
    }
}

// a leaf too coarse for one of its neighbours; -1 if there is none
template <std::size_t dim>
static int too_coarse(const NodeSet& s, int width)
{
    int r = -1;
    for (const auto& n : s.v)
    {
        star<dim>(n, width,
                  [&](const Node& q)
                  {
                      for (std::size_t j = 0; j < s.v.size(); ++j)
                      {
                          if (s.v[j].level < n.level - 1 && inside(q, s.v[j]))
                          {
                              r = static_cast<int>(j);
                          }
                      }
                  });
    }
    return r;
}

template <std::size_t dim, std::size_t width>
static void make_graded(Tree<dim>& t, int budget)
{
    using CL = samurai::CellList<dim>;
    using CA = samurai::CellArray<dim>;

    struct Types
    {
        using cl_type = CL;
    };

    t.refine(budget);
    CA ca(t.template cell_list<Types>(), true);
    auto stencil = samurai::star_stencil<dim, width>();
    vp_assert((samurai::is_graduated<CA, width>(ca, stencil)) == (too_coarse<dim>(t.leaves, static_cast<int>(width)) < 0),
              "tells-whether-neighbours-differ-by-one-level-at-most");
    // the coarsest graded refinement
    Tree<dim> g = t;
    for (int j = too_coarse<dim>(g.leaves, static_cast<int>(width)); j >= 0; j = too_coarse<dim>(g.leaves, static_cast<int>(width)))
    {
        g.split(static_cast<std::size_t>(j));
    }
    samurai::make_graduation<CA, width>(ca, stencil);
    vp_assert(same(cells_of(t, ca), g.leaves), "the-coarsest-graded-refinement-of-the-cells");
    vp_assert((samurai::is_graduated<CA, width>(ca, stencil)), "the-result-is-graded");
    long long n = 0;
    bool ok     = true;
    samurai::for_each_interval(ca,
                               [&](std::size_t, const auto& i, const auto&)
                               {
                                   ok = ok && i.index + i.start == n;
                                   n += i.end - i.start;
                               });
    vp_assert(ok, "the-cells-are-numbered-consecutively");
}

template <std::size_t dim>
static bool one_level(const NodeSet& s, bool corners)
{
    bool ok = true;
    for (const auto& n : s.v)
    {
        around(n, dim, 1,
               [&](const Node& q)
               {
                   int far = 0;
                   for (std::size_t d = 0; d < dim; ++d)
                   {
                       far += q.x[d] != n.x[d];
                   }
                   if (corners || far == 1)
                   {
                       for (const auto& m : s.v)
                       {
                           ok = ok && !(m.level < n.level - 1 && inside(q, m));
                       }
                   }
               });
    }
    return ok;
}

// from a graded mesh and any tags: after graduation of the tags, the mesh they ask for is graded and covers the same domain
template <std::size_t dim, class M>
static void grade_tags(Tree<dim>& t, int budget, bool corners)
{
    using id = typename M::mesh_id_t;
    std::array<bool, dim> per;
    per.fill(false);
    t.refine(budget);
    t.grade(1, per);
    M mesh(t.template cell_list<M>(), static_cast<std::size_t>(t.lmin), static_cast<std::size_t>(t.lmax));
    samurai::Field<M, int, 1> tag("tag", mesh);
    samurai::Field<M, double, 1> u("u", mesh);
    u.fill(1);
    tag.fill(0);
    Store<dim> was(t, mesh[id::reference]);
    std::vector<int> asked;
    for (const auto& n : t.leaves.v)
    {
        asked.push_back(1 << vp_case("tag", 0, 2));
        tag.array().data()[was(n)] = asked.back();
    }
    xt::xtensor<int, 2> stencil;
    if (corners && dim > 1)
    {
        stencil.resize({std::size_t(1) << dim, dim});
        for (std::size_t k = 0; k < stencil.shape()[0]; ++k)
        {
            for (std::size_t d = 0; d < dim; ++d)
            {
                stencil(k, d) = (k >> d) & 1 ? 1 : -1;
            }
        }
    }
    else
    {
        stencil.resize({2 * dim, dim});
        stencil.fill(0);
        for (std::size_t d = 0; d < dim; ++d)
        {
            stencil(2 * d, d)     = 1;
            stencil(2 * d + 1, d) = -1;
        }
    }
    samurai::graduation(tag, stencil);
    samurai::update_field(tag, u);
    auto s = cells_of(t, mesh[id::cells]);
    double v = 0, w = 0;
    bool apart = true, refined = true;
    for (const auto& n : s.v)
    {
        v += 1 << (static_cast<int>(dim) * (t.lmax - n.level));
        apart = apart && !s.below(n) && t.in_domain(n) && n.level >= t.lmin && n.level <= t.lmax;
    }
    for (const auto& n : t.domain.v)
    {
        w += 1 << (static_cast<int>(dim) * (t.lmax - n.level));
    }
    for (std::size_t k = 0; k < asked.size(); ++k)
    {
        Node n = t.leaves.v[k];
        if (asked[k] == 4 && n.level < t.lmax)
        {
            refined = refined && s.has(child_of(n, 0));
        }
        if (asked[k] == 1)
        {
            refined = refined && (s.has(n) || s.has(child_of(n, 0)));
        }
    }
    vp_assert(apart && v == w, "the-cells-cover-the-domain-once-between-the-two-levels");
    vp_assert(one_level<dim>(s, corners), "neighbouring-cells-differ-by-one-level-at-most");
    vp_assert(refined, "a-cell-to-keep-or-refine-is-not-coarsened");
}
