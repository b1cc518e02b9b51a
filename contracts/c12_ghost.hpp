#pragma once
// C12: the update of the ghosts
#include "c11_bc.hpp"

template <std::size_t dim>
struct Ghosts
{
    NodeSet mean, predicted, wrapped;

    // within the ghost width of the domain
    static bool near_domain(const Tree<dim>& t, const Node& n, int width)
    {
        for (std::size_t d = 0; d < dim; ++d)
        {
            int lo = shl(t.off[d], n.level - t.lmin), len = shl(t.roots[d], n.level - t.lmin);
            if (n.x[d] < lo - width || n.x[d] >= lo + len + width)
            {
                return false;
            }
        }
        return true;
    }

    // what the stored cells are, by coordinates only
    Ghosts(const Tree<dim>& t, const Store<dim>& at, const std::array<bool, dim>& per, int width)
    {
        for (const auto& n : at.cells.v)
        {
            if (t.in_domain(n))
            {
                if (t.leaves.below(n))
                {
                    bool all = n.level >= t.lmin - 1; // below the lowest level a cell may lie partly outside
                    for (int q = 0; q < (1 << dim); ++q)
                    {
                        all = all && t.in_domain(child_of(n, q));
                    }
                    if (all)
                    {
                        mean.v.push_back(n);
                    }
                }
                else if (!t.leaves.has(n) && n.level > t.lmin)
                {
                    predicted.v.push_back(n);
                }
            }
            else if (n.level >= t.lmin && near_domain(t, n, width))
            {
                // beyond a periodic side: the image of a cell, or of a ghost beyond another side that is not periodic
                Node w = t.wrap(n, per);
                if (t.in_domain(w) || (at.has(w) && !(w == n)))
                {
                    wrapped.v.push_back(n);
                }
            }
        }
    }
};

template <std::size_t dim, class F>
static void check_ghosts(const Tree<dim>& t, const Store<dim>& at, F& f, const std::vector<double>& old, const std::array<bool, dim>& per)
{
    constexpr std::size_t po = F::mesh_t::config::prediction_order;
    Ghosts<dim> g(t, at, per, F::mesh_t::config::ghost_width);
    bool leaf = true, mean = true, pred = true, wrap = true;
    for (std::size_t c = 0; c < F::size; ++c)
    {
        for (const auto& n : t.leaves.v)
        {
            std::size_t k = at(n);
            leaf          = leaf & vp_eq(comp(f, k, c), old[F::is_soa ? c * (old.size() / F::size) + k : k * F::size + c]);
        }
        for (const auto& n : g.mean.v)
        {
            double s = 0;
            for (int q = 0; q < (1 << dim); ++q)
            {
                s += comp(f, at(child_of(n, q)), c);
            }
            mean = mean & vp_eq(s, comp(f, at(n), c) * (1 << dim));
        }
        for (const auto& n : g.wrapped.v)
        {
            Node w = t.wrap(n, per);
            wrap   = wrap & vp_eq(comp(f, at(n), c), comp(f, at(w), c));
        }
    }
    vp_assert(leaf, "the-values-of-the-cells-are-unchanged");
    vp_assert(mean, "a-ghost-over-finer-cells-is-their-mean");
    vp_assert(wrap, "a-periodic-ghost-has-the-value-of-its-image");
    // predicted once more, from the finest to the coarsest: nothing changes (the prediction itself is the subject of C09)
    F again = f;
    for (int level = t.lmax; level > t.lmin; --level)
    {
        samurai::LevelCellList<dim> cl(static_cast<std::size_t>(level));
        bool any = false;
        for (const auto& n : g.predicted.v)
        {
            if (n.level == level)
            {
                xt::xtensor_fixed<int, xt::xshape<dim - 1>> yz;
                for (std::size_t d = 1; d < dim; ++d)
                {
                    yz[d - 1] = shl(t.base[d], n.level - t.lmin) + n.x[d];
                }
                cl[yz].add_point(shl(t.base[0], n.level - t.lmin) + n.x[0]);
                any = true;
            }
        }
        if (any)
        {
            samurai::LevelCellArray<dim> lca(cl);
            samurai::intersection(lca, lca).apply_op(samurai::prediction<po, false>(again));
        }
    }
    for (std::size_t c = 0; c < F::size; ++c)
    {
        for (const auto& n : g.predicted.v)
        {
            pred = pred & vp_eq(comp(f, at(n), c), comp(again, at(n), c));
        }
    }
    vp_assert(pred, "a-ghost-over-a-coarser-cell-is-predicted-from-it");
}

template <class F>
static Asked any_condition(F& f, int kind)
{
    Asked a{kind ? NEUMANN : DIRICHLET, {0, 0}};
    for (std::size_t c = 0; c < F::size; ++c)
    {
        a.v[c] = vp_any_f64("v");
    }
    if constexpr (F::size == 1)
    {
        if (kind)
        {
            samurai::make_bc<samurai::Neumann<1>>(f, a.v[0]);
        }
        else
        {
            samurai::make_bc<samurai::Dirichlet<1>>(f, a.v[0]);
        }
    }
    else
    {
        if (kind)
        {
            samurai::make_bc<samurai::Neumann<1>>(f, a.v[0], a.v[1]);
        }
        else
        {
            samurai::make_bc<samurai::Dirichlet<1>>(f, a.v[0], a.v[1]);
        }
    }
    return a;
}

// not periodic: anywhere; periodic: the unit box
template <std::size_t dim>
static Tree<dim> any_graded(int nx, int ny, int nz, int levels, int budget)
{
    Tree<dim> t;
    t.place();
    t.start(1, 1 + vp_case("levels", 0, levels), vp_case("rx", 1, nx), vp_case("ry", 1, dim > 1 ? ny : 1), vp_case("rz", 1, dim > 2 ? nz : 1));
    std::array<bool, dim> per;
    per.fill(false);
    t.refine(budget);
    t.grade(1, per);
    return t;
}

template <std::size_t dim>
static std::array<bool, dim> any_periodicity()
{
    std::array<bool, dim> per;
    int k = vp_case("periodic", 1, (1 << dim) - 1);
    for (std::size_t d = 0; d < dim; ++d)
    {
        per[d] = (k >> d) & 1;
    }
    return per;
}

template <std::size_t dim>
static Tree<dim> unit_graded(int lmin, int levels, int budget, const std::array<bool, dim>& per)
{
    Tree<dim> t;
    t.start(lmin, lmin + vp_case("levels", 0, levels), 1 << lmin, 1 << lmin, 1 << lmin);
    t.refine(budget);
    t.grade(1, per);
    return t;
}

template <class M, std::size_t dim>
static M made(const Tree<dim>& t, const std::array<bool, dim>& per)
{
    bool any = false;
    for (std::size_t d = 0; d < dim; ++d)
    {
        any = any || per[d];
    }
    if (!any)
    {
        return made<M>(t);
    }
    xt::xtensor_fixed<double, xt::xshape<dim>> lo, hi;
    lo.fill(0);
    hi.fill(1);
    M ref(samurai::Box<double, dim>(lo, hi), static_cast<std::size_t>(t.lmin), static_cast<std::size_t>(t.lmax), per);
    return M(t.template cell_list<M>(), ref);
}

template <std::size_t dim, class F>
static void check_all(const Tree<dim>& t, const Store<dim>& at, F& f, const std::vector<double>& old, const std::array<bool, dim>& per, const Asked& a)
{
    check_ghosts(t, at, f, old, per);
    for (int level = t.lmin; level <= t.lmax; ++level)
    {
        check_bc(t, at, f, level, 1, per, [&](const Node&, std::size_t, int) { return a; });
    }
}

// one field
template <std::size_t dim, class M, class F>
static void ghosts(const Tree<dim>& t, const std::array<bool, dim>& per, int kind)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t, per);
    F f("f", m);
    Store<dim> at(t, m[id::reference]);
    auto old = any_values(f);
    Asked a  = any_condition(f, kind);
    samurai::update_ghost_mr(f);
    check_all(t, at, f, old, per, a);
}

// two fields at once
template <std::size_t dim, class M, class F, class G>
static void ghosts_two(const Tree<dim>& t, const std::array<bool, dim>& per, int how)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t, per);
    F f("f", m);
    G g("g", m);
    Store<dim> at(t, m[id::reference]);
    auto fold = any_values(f);
    auto gold = any_values(g);
    Asked a   = any_condition(f, 0);
    Asked b   = any_condition(g, 1);
    if (how == 0)
    {
        samurai::update_ghost_mr(f, g);
    }
    else
    {
        samurai::Field_tuple<F, G> both(f, g);
        samurai::update_ghost_mr(both);
    }
    check_all(t, at, f, fold, per, a);
    check_all(t, at, g, gold, per, b);
}

// tags on both sides of a periodic boundary
template <std::size_t dim, class M>
static void tags_periodic(const Tree<dim>& t, const std::array<bool, dim>& per)
{
    using id         = typename M::mesh_id_t;
    constexpr int gw = M::config::ghost_width;
    auto m           = made<M>(t, per);
    samurai::Field<M, int, 1> tag("tag", m);
    Store<dim> at(t, m[id::reference]);
    std::vector<int> old(tag.array().size());
    for (std::size_t n = 0; n < old.size(); ++n)
    {
        old[n]                = vp_any_int("tag", 0, dim == 1 ? 3 : 1);
        tag.array().data()[n] = old[n];
    }
    int level = vp_case("level", t.lmin, t.lmax);
    samurai::update_tag_periodic(static_cast<std::size_t>(level), tag);
    // a cell of the domain gets all the flags of its images (stored within the ghost width), an image those of its cell
    for (const auto& n : at.cells.v)
    {
        int now = tag.array().data()[at(n)], was = old[at(n)];
        bool ok = true;
        if (n.level != level || !Ghosts<dim>::near_domain(t, n, gw))
        {
            ok = now == was;
        }
        else if (t.in_domain(t.wrap(n, per)))
        {
            int all = 0;
            Node w  = t.wrap(n, per);
            for (const auto& o : at.cells.v)
            {
                if (o.level == level && t.wrap(o, per) == w && Ghosts<dim>::near_domain(t, o, gw))
                {
                    all |= old[at(o)];
                }
            }
            int least = was | old[at(w)];
            ok        = t.in_domain(n) ? now == all : ((now | all) == all) & ((now | least) == now);
        }
        vp_assert(ok, "a-cell-and-its-periodic-images-share-their-tags");
    }
}

// the AMR mesh
template <std::size_t dim, class M, class F>
static void ghosts_amr(const Tree<dim>& t, int kind)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    std::array<bool, dim> none;
    none.fill(false);
    F f("f", m);
    Store<dim> at(t, m[id::reference]);
    auto old = any_values(f);
    Asked a  = any_condition(f, kind);
    samurai::update_ghost(f);
    check_all(t, at, f, old, none, a);
}

// two fields at once
template <std::size_t dim, class M, class F, class G>
static void ghosts_amr_two(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    std::array<bool, dim> none;
    none.fill(false);
    F f("f", m);
    G g("g", m);
    Store<dim> at(t, m[id::reference]);
    auto fold = any_values(f);
    auto gold = any_values(g);
    Asked a   = any_condition(f, 0);
    Asked b   = any_condition(g, 1);
    samurai::update_ghost(f, g);
    check_all(t, at, f, fold, none, a);
    check_all(t, at, g, gold, none, b);
}
