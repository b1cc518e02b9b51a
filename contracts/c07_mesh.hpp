#pragma once
// C07: what a mesh holds
#include "tree.hpp"

// the parts every mesh derives from its leaves
template <std::size_t dim, class Mesh>
static void derived_sets(const Tree<dim>& t, const Mesh& mesh)
{
    using id = typename Mesh::mesh_id_t;
    vp_assert(same(cells_of(t, mesh[id::cells]), t.leaves), "the-cells-are-the-leaves-given");
    // the domain: the leaves on the finest level
    NodeSet fine, sub, dom;
    for (const auto& n : t.leaves.v)
    {
        int s = 1 << (t.lmax - n.level);
        for (int z = 0; z < (dim > 2 ? s : 1); ++z)
        {
            for (int y = 0; y < (dim > 1 ? s : 1); ++y)
            {
                for (int x = 0; x < s; ++x)
                {
                    fine.v.push_back(Node{t.lmax, {n.x[0] * s + x, n.x[1] * s + y, n.x[2] * s + z}});
                }
            }
        }
    }
    level_cells(t, mesh.subdomain(), sub);
    level_cells(t, mesh.domain(), dom);
    vp_assert(same(fine, sub), "the-subdomain-is-covered-by-the-cells");
    vp_assert(same(fine, dom), "the-domain-is-covered-by-the-cells");
    // the union cells: those with a leaf strictly below, down to one level below the coarsest
    NodeSet uni, expect;
    for (int l = std::max(0, t.lmin - 1); l <= t.lmax; ++l)
    {
        level_cells(t, mesh.get_union()[static_cast<std::size_t>(l)], uni);
        for (const auto& n : t.leaves.v)
        {
            if (n.level > l)
            {
                expect.add(on_level(n, l));
            }
        }
    }
    vp_assert(same(uni, expect), "the-union-holds-the-cells-that-contain-finer-ones");
}

// the numbering: 0..n-1 without hole over the reference cells, and the same number for a cell in every sub-mesh
template <std::size_t dim, class Mesh>
static void numbering(const Mesh& mesh)
{
    using id      = typename Mesh::mesh_id_t;
    const auto& r = mesh[id::reference];
    long long n   = 0;
    bool ok = true, agree = true;
    samurai::for_each_interval(r,
                               [&](std::size_t, const auto& i, const auto&)
                               {
                                   ok = ok && i.index + i.start == n;
                                   n += i.end - i.start;
                               });
    vp_assert(ok, "the-cells-are-numbered-consecutively");
    vp_assert(static_cast<std::size_t>(n) == mesh.nb_cells(), "the-number-of-cells");
    for (std::size_t k = 0; k < static_cast<std::size_t>(id::count); ++k)
    {
        const auto& ca = mesh[static_cast<id>(k)];
        samurai::for_each_interval(ca,
                                   [&](std::size_t level, const auto& i, const auto& yz)
                                   {
                                       agree = agree && r[level].get_interval(i, yz).index == i.index;
                                   });
    }
    vp_assert(agree, "the-sub-meshes-use-the-numbers-of-the-reference");
}

// what the ghost update relies on: the ghosts it reads exist
template <std::size_t dim, class Mesh>
static void ghosts(const Tree<dim>& t, const Mesh& mesh, const std::array<bool, dim>& periodic)
{
    using id         = typename Mesh::mesh_id_t;
    constexpr int w  = Mesh::config::max_stencil_width;
    constexpr int po = Mesh::config::prediction_order;
    auto near        = cells_of(t, mesh[id::cells_and_ghosts]);
    auto all         = cells_of(t, mesh[id::all_cells]);
    auto proj        = cells_of(t, mesh[id::proj_cells]);
    NodeSet expect;
    bool stencil = true, neighbours = true;
    for (const auto& n : t.leaves.v)
    {
        around(n, dim, w,
               [&](const Node& q)
               {
                   expect.add(q);
                   stencil = stencil && all.has(q);
               });
    }
    vp_assert(same(near, expect), "cells-and-ghosts-are-the-cells-and-their-neighbours");
    vp_assert(stencil, "the-stencil-of-a-cell-is-stored");
    bool children = true, parents = true, per = true, pr = true;
    for (const auto& n : proj.v)
    {
        for (int q = 0; q < (1 << dim); ++q)
        {
            children = children && all.has(child_of(n, q));
        }
        pr = pr && all.has(n) && t.leaves.below(n);
    }
    vp_assert(children, "the-children-of-a-projected-cell-are-stored");
    vp_assert(pr, "projected-cells-are-stored-and-contain-leaves");
    int low = 100;
    for (const auto& n : all.v)
    {
        low = std::min(low, n.level);
    }
    for (const auto& n : all.v)
    {
        if (t.in_domain(n) && !t.leaves.has(n) && n.level > low)
        {
            // a ghost of the domain is filled either from its children or from its parents
            if (!proj.has(n) && n.level >= t.lmin)
            {
                around(on_level(n, n.level - 1), dim, po,
                       [&](const Node& q)
                       {
                           parents = parents && all.has(q);
                       });
            }
            neighbours = neighbours && (proj.has(n) || t.leaves.covers(n));
        }
    }
    vp_assert(parents, "the-parents-a-ghost-is-predicted-from-are-stored");
    vp_assert(neighbours, "a-ghost-of-the-domain-is-projected-or-predicted");
    for (const auto& n : t.leaves.v)
    {
        around(n, dim, w,
               [&](const Node& q)
               {
                   Node r = t.wrap(q, periodic);
                   per    = per && (r == q || all.has(r));
               });
    }
    vp_assert(per, "the-cell-across-the-periodic-side-is-stored");
    // and the images of the cells next to a periodic side, beyond the opposite one
    const int width = t.lmin == t.lmax ? w : Mesh::config::ghost_width;
    bool image      = true;
    for (const auto& n : t.leaves.v)
    {
        int total = 1;
        for (std::size_t d = 0; d < dim; ++d)
        {
            total *= 3;
        }
        for (int code = 0; code < total; ++code)
        {
            Node q    = n;
            bool band = true;
            int c     = code;
            for (std::size_t d = 0; d < dim; ++d, c /= 3)
            {
                int len = shl(t.roots[d], n.level - t.lmin), lo = shl(t.off[d], n.level - t.lmin);
                int s   = c % 3 - 1;
                q.x[d] += s * len;
                band = band && (s == 0 || (periodic[d] && q.x[d] >= lo - width && q.x[d] < lo + len + width));
            }
            image = image && (!band || all.has(q));
        }
    }
    vp_assert(image, "the-images-of-the-cells-next-to-a-periodic-side-are-stored");
}

// a mesh made from a list of cells, and one made from a list with a reference mesh
template <class Mesh, std::size_t dim>
static Mesh made(const Tree<dim>& t)
{
    return Mesh(t.template cell_list<Mesh>(), static_cast<std::size_t>(t.lmin), static_cast<std::size_t>(t.lmax));
}

template <std::size_t dim, std::size_t w, std::size_t po>
static void mr_mesh(Tree<dim>& t, int budget)
{
    t.refine(budget);
    std::array<bool, dim> per;
    per.fill(false);
    t.grade(1, per);
    using M   = samurai::MRMesh<samurai::MRConfig<dim, w, 1, po>>;
    auto mesh = made<M>(t);
    vp_assert(static_cast<int>(mesh.min_level()) == t.lmin && static_cast<int>(mesh.max_level()) == t.lmax, "the-levels-are-those-given");
    derived_sets(t, mesh);
    numbering<dim>(mesh);
    ghosts<dim>(t, mesh, per);
}

// periodic: the mesh takes the domain and the periodicity of the one it refers to
template <std::size_t dim, std::size_t w, std::size_t po>
static void mr_periodic(int lmin, int lmax, int budget)
{
    using M = samurai::MRMesh<samurai::MRConfig<dim, w, 1, po>>;
    xt::xtensor_fixed<double, xt::xshape<dim>> lo, hi;
    std::array<bool, dim> per;
    static const char* const nm[] = {"px", "py", "pz"};
    Tree<dim> t;
    t.start(lmin, lmax, 1 << lmin, 1 << lmin, 1 << lmin);
    for (std::size_t d = 0; d < dim; ++d)
    {
        lo[d]  = 0;
        hi[d]  = 1;
        per[d] = vp_case(nm[d], 0, 1) != 0;
    }
    t.refine(budget);
    t.grade(1, per);
    M ref(samurai::Box<double, dim>(lo, hi), static_cast<std::size_t>(lmin), static_cast<std::size_t>(lmax), per);
    M mesh(t.template cell_list<M>(), ref);
    for (std::size_t d = 0; d < dim; ++d)
    {
        vp_assert(mesh.is_periodic(d) == per[d], "periodic-as-the-reference-mesh");
    }
    derived_sets(t, mesh);
    numbering<dim>(mesh);
    ghosts<dim>(t, mesh, per);
}

// a mesh made from a box: the cells of the finest level
template <std::size_t dim>
static void mr_box(int lmin, int lmax)
{
    using M = samurai::MRMesh<samurai::MRConfig<dim>>;
    xt::xtensor_fixed<double, xt::xshape<dim>> lo, hi;
    static const char* const nm[] = {"nx", "ny", "nz"};
    int n[3]                      = {1, 1, 1};
    for (std::size_t d = 0; d < dim; ++d)
    {
        n[d]  = vp_case(nm[d], 1, dim == 1 ? 4 : 2);
        lo[d] = 0;
        hi[d] = n[d];
    }
    Tree<dim> t;
    t.start(lmax, lmax, n[0] << lmax, n[1] << lmax, n[2] << lmax);
    M mesh(samurai::Box<double, dim>(lo, hi), static_cast<std::size_t>(lmin), static_cast<std::size_t>(lmax), 0.05, 1.);
    vp_assert(same(cells_of(t, mesh[M::mesh_id_t::cells]), t.leaves), "the-cells-are-those-of-the-box");
    vp_assert(static_cast<int>(mesh.min_level()) == lmin && static_cast<int>(mesh.max_level()) == lmax, "the-levels-are-those-given");
    vp_assert(mesh.cell_length(static_cast<std::size_t>(lmax)) * (1 << lmax) == 1., "the-side-of-a-cell");
    t.lmin = lmin;
    numbering<dim>(mesh);
}

// AMR meshes
template <std::size_t dim, std::size_t w>
static void amr_mesh(Tree<dim>& t, int budget)
{
    t.refine(budget);
    std::array<bool, dim> per;
    per.fill(false);
    t.grade(1, per);
    using M   = samurai::amr::Mesh<samurai::amr::Config<dim, w>>;
    using id  = typename M::mesh_id_t;
    auto mesh = made<M>(t);
    derived_sets(t, mesh);
    numbering<dim>(mesh);
    constexpr int gw = M::config::ghost_width, po = M::config::prediction_order;
    auto near = cells_of(t, mesh[id::cells_and_ghosts]);
    auto all  = cells_of(t, mesh[id::all_cells]);
    auto proj = cells_of(t, mesh[id::proj_cells]);
    auto pred = cells_of(t, mesh[id::pred_cells]);
    bool stencil = true, sub = true, parents = true, children = true, filled = true;
    for (const auto& n : t.leaves.v)
    {
        around(n, dim, gw,
               [&](const Node& q)
               {
                   stencil = stencil && near.has(q);
                   if (t.in_domain(q) && !t.leaves.has(q))
                   {
                       // covered by a coarser leaf: predicted; by finer ones: their children are stored
                       filled = filled && (t.leaves.below(q) || pred.has(q) || q.level == static_cast<int>(mesh[id::cells].min_level()));
                       if (t.leaves.below(q))
                       {
                           for (int c = 0; c < (1 << dim); ++c)
                           {
                               children = children && all.has(child_of(q, c));
                           }
                       }
                   }
               });
    }
    for (const auto& n : near.v)
    {
        sub = sub && all.has(n);
    }
    for (const auto& n : proj.v)
    {
        sub = sub && all.has(n);
    }
    for (const auto& n : pred.v)
    {
        sub = sub && near.has(n) && t.in_domain(n) && !t.leaves.has(n) && !t.leaves.below(n);
        around(on_level(n, n.level - 1), dim, po,
               [&](const Node& q)
               {
                   parents = parents && near.has(q);
               });
    }
    vp_assert(stencil, "the-stencil-of-a-cell-is-stored");
    vp_assert(filled, "a-ghost-of-the-domain-is-projected-or-predicted");
    vp_assert(children, "the-children-of-a-projected-ghost-are-stored");
    vp_assert(parents, "the-parents-a-ghost-is-predicted-from-are-stored");
    vp_assert(sub, "the-sub-meshes-are-parts-of-the-reference");
}

// uniform meshes
template <std::size_t dim, int w>
static void uniform_mesh(Tree<dim>& t)
{
    using M  = samurai::UniformMesh<samurai::UniformConfig<dim, w>>;
    using id = typename M::mesh_id_t;
    typename M::cl_type cl(static_cast<std::size_t>(t.lmin));
    for (const auto& n : t.leaves.v)
    {
        xt::xtensor_fixed<int, xt::xshape<dim - 1>> yz;
        for (std::size_t d = 1; d < dim; ++d)
        {
            yz[d - 1] = t.base[d] + n.x[d];
        }
        cl[yz].add_point(t.base[0] + n.x[0]);
    }
    M mesh(cl);
    NodeSet c, g, expect;
    level_cells(t, mesh[id::cells], c);
    level_cells(t, mesh[id::cells_and_ghosts], g);
    for (const auto& n : t.leaves.v)
    {
        around(n, dim, w,
               [&](const Node& q)
               {
                   expect.add(q);
               });
    }
    vp_assert(same(c, t.leaves), "the-cells-are-those-given");
    vp_assert(same(g, expect), "cells-and-ghosts-are-the-cells-and-their-neighbours");
    vp_assert(mesh.nb_cells() == expect.v.size() && mesh.nb_cells(id::cells) == t.leaves.v.size(), "the-number-of-cells");
    long long n = 0;
    bool ok = true, agree = true;
    samurai::for_each_interval(mesh[id::reference],
                               [&](std::size_t, const auto& i, const auto&)
                               {
                                   ok = ok && i.index + i.start == n;
                                   n += i.end - i.start;
                               });
    samurai::for_each_interval(mesh[id::cells],
                               [&](std::size_t, const auto& i, const auto& yz)
                               {
                                   agree = agree && mesh[id::reference].get_interval(i, yz).index == i.index;
                               });
    vp_assert(ok, "the-cells-are-numbered-consecutively");
    vp_assert(agree, "the-sub-meshes-use-the-numbers-of-the-reference");
}

// swapping two meshes swaps everything they hold
template <std::size_t dim>
static void mesh_swap()
{
    using M = samurai::MRMesh<samurai::MRConfig<dim>>;
    xt::xtensor_fixed<double, xt::xshape<dim>> lo, hi, hi2;
    lo.fill(0);
    hi.fill(1);
    hi2.fill(2);
    std::array<bool, dim> p1, p2;
    static const char* const n1[] = {"px", "py", "pz"};
    static const char* const n2[] = {"qx", "qy", "qz"};
    for (std::size_t d = 0; d < dim; ++d)
    {
        p1[d] = vp_case(n1[d], 0, 1) != 0;
        p2[d] = vp_case(n2[d], 0, 1) != 0;
    }
    M a(samurai::Box<double, dim>(lo, hi), 0, 1, p1), b(samurai::Box<double, dim>(lo, hi2), 1, 2, p2);
    M a0 = a, b0 = b;
    a.swap(b);
    auto is = [](const M& x, const M& y, const std::array<bool, dim>& p)
    {
        bool r = x.min_level() == y.min_level() && x.max_level() == y.max_level() && x.periodicity() == p && x == y;
        r      = r && x.domain() == y.domain() && x.subdomain() == y.subdomain() && x.nb_cells() == y.nb_cells();
        r      = r && x.get_union() == y.get_union() && x.scaling_factor() == y.scaling_factor();
        for (std::size_t k = 0; k < static_cast<std::size_t>(M::mesh_id_t::count); ++k)
        {
            r = r && x[static_cast<typename M::mesh_id_t>(k)] == y[static_cast<typename M::mesh_id_t>(k)];
        }
        return r;
    };
    vp_assert(is(a, b0, p2), "the-first-mesh-is-the-second-one");
    vp_assert(is(b, a0, p1), "the-second-mesh-is-the-first-one");
}
