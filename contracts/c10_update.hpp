#pragma once
// C10: the mesh made from the tags, and the values carried to it
#include "tree.hpp"
#include <samurai/algorithm/update.hpp>

static constexpr int KEEP = 1, COARSEN = 2, REFINE = 4;

template <class F>
static std::vector<double> any_values(F& f)
{
    std::vector<double> old(f.array().size());
    for (std::size_t n = 0; n < old.size(); ++n)
    {
        old[n]              = vp_any_f64("u");
        f.array().data()[n] = old[n];
    }
    return old;
}

// the value stored before the update
template <class F>
static double before(const std::vector<double>& old, std::size_t k, std::size_t c)
{
    return old[F::is_soa ? c * (old.size() / F::size) + k : k * F::size + c];
}

template <std::size_t dim, class F>
static void check_values(const Tree<dim>& t, const Store<dim>& was, const NodeSet& next, const std::vector<double>& old, F& f)
{
    using id = typename F::mesh_t::mesh_id_t;
    Store<dim> now(t, f.mesh()[id::reference]);
    constexpr int nc = 1 << dim;
    bool copied = true, mean = true, slope = true, conserved = true;
    for (std::size_t c = 0; c < F::size; ++c)
    {
        double in = 0, out = 0;
        for (const auto& n : t.leaves.v)
        {
            in += before<F>(old, was(n), c) * (1 << (static_cast<int>(dim) * (t.lmax - n.level)));
        }
        for (const auto& n : next.v)
        {
            double v = comp(f, now(n), c);
            out += v * (1 << (static_cast<int>(dim) * (t.lmax - n.level)));
            if (t.leaves.has(n))
            {
                copied = copied & vp_eq(v, before<F>(old, was(n), c));
            }
            else if (t.leaves.below(n))
            {
                double s = 0;
                for (int q = 0; q < nc; ++q)
                {
                    s += before<F>(old, was(child_of(n, q)), c);
                }
                mean = mean & vp_eq(v * nc, s);
            }
        }
        for (const auto& p : t.leaves.v)
        {
            if (next.has(child_of(p, 0)))
            {
                // refined: averaging the children over all directions but one gives the quadratic reconstruction along it
                for (std::size_t d = 0; d < dim; ++d)
                {
                    Node l = p, r = p;
                    l.x[d] -= 1;
                    r.x[d] += 1;
                    double u = before<F>(old, was(p), c), du = (before<F>(old, was(r), c) - before<F>(old, was(l), c)) / 8;
                    double s[2] = {0, 0};
                    for (int q = 0; q < nc; ++q)
                    {
                        s[(q >> d) & 1] += comp(f, now(child_of(p, q)), c);
                    }
                    slope = slope & vp_eq(s[0], (u - du) * (nc / 2)) & vp_eq(s[1], (u + du) * (nc / 2));
                }
            }
        }
        conserved = conserved & vp_eq(in, out);
    }
    vp_assert(copied, "a-kept-cell-keeps-its-value");
    vp_assert(mean, "a-coarsened-cell-gets-the-mean-of-its-children");
    vp_assert(slope, "the-children-of-a-refined-cell-get-its-reconstruction");
    vp_assert(conserved, "the-integral-is-conserved");
}

// decide, for every leaf, what its tag asks for. A coarsening is asked of all the children of a cell or of none of them.
template <std::size_t dim>
static std::vector<int> decisions(const Tree<dim>& t)
{
    std::vector<int> what(t.leaves.v.size(), -1);
    for (std::size_t k = 0; k < what.size(); ++k)
    {
        if (what[k] >= 0)
        {
            continue;
        }
        Node n    = t.leaves.v[k];
        bool full = n.level > t.lmin;
        for (int q = 0; full && q < (1 << dim); ++q)
        {
            full = t.leaves.has(child_of(on_level(n, n.level - 1), q));
        }
        int d = vp_case("tag", 0, full || n.level == t.lmin ? 2 : 1); // 0: keep, 1: refine, 2: coarsen
        vp_assume(dim < 3 || d != 1 || n.level < t.lmax || k == 0);
        if (d == 2 && full)
        {
            for (int q = 0; q < (1 << dim); ++q)
            {
                what[static_cast<std::size_t>(t.leaves.find(child_of(on_level(n, n.level - 1), q)))] = 2;
            }
        }
        else
        {
            what[k] = d;
        }
    }
    return what;
}

template <std::size_t dim, class M, bool mr>
static void update(Tree<dim>& t, int budget, bool two)
{
    using id = typename M::mesh_id_t;
    t.refine(budget);
    std::array<bool, dim> per;
    per.fill(false);
    t.grade(1, per);
    M mesh(t.template cell_list<M>(), static_cast<std::size_t>(t.lmin), static_cast<std::size_t>(t.lmax));
    Store<dim> was(t, mesh[id::reference]);
    samurai::Field<M, int, 1> tag("tag", mesh);
    samurai::Field<M, double, 1> u("u", mesh);
    samurai::Field<M, double, 2, true> w("w", mesh);
    tag.fill(0);
    auto what = decisions(t);
    NodeSet next;
    for (std::size_t k = 0; k < what.size(); ++k)
    {
        Node n = t.leaves.v[k];
        // a refine flag wins over a keep flag, which wins over a coarsen flag; other flags have no effect
        int low = what[k] == 2 ? COARSEN : what[k] == 0 ? KEEP + 2 * vp_any_int("low", 0, 1) : REFINE + vp_any_int("low", 0, 3);
        tag.array().data()[was(n)] = low + 8 * vp_any_int("high", 0, 1);
        if (what[k] == 1 && n.level < t.lmax)
        {
            for (int q = 0; q < (1 << dim); ++q)
            {
                next.add(child_of(n, q));
            }
        }
        else
        {
            next.add(what[k] == 2 && n.level > t.lmin ? on_level(n, n.level - 1) : n);
        }
    }
    auto ou = any_values(u);
    std::vector<double> ow;
    bool same_mesh;
    if (two)
    {
        ow = any_values(w);
        if constexpr (mr)
        {
            same_mesh = samurai::update_field_mr(tag, u, w);
        }
        else
        {
            same_mesh = samurai::update_field(tag, u, w);
        }
    }
    else
    {
        if constexpr (mr)
        {
            same_mesh = samurai::update_field_mr(tag, u);
        }
        else
        {
            same_mesh = samurai::update_field(tag, u);
        }
    }
    vp_assert(same(cells_of(t, mesh[id::cells]), next), "the-new-cells-are-those-the-tags-ask-for");
    vp_assert(same_mesh == same(next, t.leaves), "tells-whether-the-mesh-changed");
    NodeSet dom, fine;
    level_cells(t, mesh.domain(), dom);
    for (const auto& n : t.leaves.v)
    {
        int s = 1 << (t.lmax - n.level);
        for (int z = 0; z < (dim > 2 ? s : 1); ++z)
        {
            for (int y = 0; y < (dim > 1 ? s : 1); ++y)
            {
                for (int x = 0; x < s; ++x)
                {
                    fine.v.push_back(Node{t.lmax, {n.x[0] * s + x, n.x[1] * s + y, n.x[2] * s + z}});
                }
            }
        }
    }
    vp_assert(same(dom, fine), "the-domain-is-the-same");
    vp_assert(u.array().size() == mesh.nb_cells(), "the-field-has-a-value-per-cell");
    check_values(t, was, next, ou, u);
    if (two)
    {
        check_values(t, was, next, ow, w);
    }
}
