#pragma once
// C13: fields: one value per stored cell and component, whatever the way to it
#include "c11_bc.hpp"
#include <samurai/field.hpp>

template <std::size_t dim>
static Tree<dim> small_tree(int nx, int ny, int nz, int budget)
{
    Tree<dim> t;
    t.place();
    t.start(1, 2, vp_case("rx", 1, nx), vp_case("ry", 1, dim > 1 ? ny : 1), vp_case("rz", 1, dim > 2 ? nz : 1));
    t.refine(budget);
    return t;
}

template <class F>
static double was(const std::vector<double>& old, std::size_t k, std::size_t c)
{
    return old[F::is_soa ? c * (old.size() / F::size) + k : k * F::size + c];
}

// the value of component c of what an access to one cell returns
template <class F, class V>
static double item(V&& v, std::size_t c)
{
    if constexpr (F::size == 1)
    {
        return v;
    }
    else
    {
        return v(c);
    }
}

// element x, component c, of what an access to an interval returns
template <class F, class V>
static double element(V&& v, std::size_t x, std::size_t c)
{
    if constexpr (F::size == 1)
    {
        return v(x);
    }
    else if constexpr (F::is_soa)
    {
        return v(c, x);
    }
    else
    {
        return v(x, c);
    }
}

template <class F, class I, class YZ>
static auto row(F& f, std::size_t level, const I& i, const YZ& yz, bool by_numbers)
{
    if constexpr (F::dim == 2)
    {
        if (by_numbers)
        {
            return f(level, i, yz[0]);
        }
    }
    if constexpr (F::dim == 3)
    {
        if (by_numbers)
        {
            return f(level, i, yz[0], yz[1]);
        }
    }
    return f(level, i, yz);
}

// a call with the component(s) in front, the row as an array or as numbers
template <class F, class I, class YZ, class... C>
static auto part(F& f, std::size_t level, const I& i, const YZ& yz, bool by_numbers, C... c)
{
    if constexpr (F::dim == 2)
    {
        if (by_numbers)
        {
            return f(c..., level, i, yz[0]);
        }
    }
    if constexpr (F::dim == 3)
    {
        if (by_numbers)
        {
            return f(c..., level, i, yz[0], yz[1]);
        }
    }
    return f(c..., level, i, yz);
}

// a part of an interval: without its first cell, without its last, every other cell
template <class I>
static I shortened(I i, int cut, std::size_t& first, std::size_t& count)
{
    first = static_cast<std::size_t>(i.index + i.start);
    if ((cut & 1) && i.size() > 1)
    {
        i.start += 1;
        first += 1;
    }
    if ((cut & 2) && i.size() > 1)
    {
        i.end -= 1;
    }
    count = i.size();
    if (cut & 4)
    {
        i.step = 2;
        count  = (count + 1) / 2;
    }
    i.index = 77; // not used
    return i;
}

// reading
template <std::size_t dim, class M, class F>
static void reading(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m);
    const F& cf = f;
    vp_assert(f.array().size() == m.nb_cells() * F::size, "one-value-per-stored-cell-and-component");
    auto old    = any_values(f);
    bool cell_ok = true, number_ok = true, row_ok = true, comp_ok = true, range_ok = true;
    using number = typename M::interval_t::index_t;
    samurai::for_each_cell(m[id::reference],
                           [&](const auto& cell)
                           {
                               auto k = static_cast<std::size_t>(cell.index);
                               for (std::size_t c = 0; c < F::size; ++c)
                               {
                                   double v  = was<F>(old, k, c);
                                   cell_ok   = cell_ok & vp_eq(item<F>(f[cell], c), v) & vp_eq(item<F>(cf[cell], c), v);
                                   number_ok = number_ok & vp_eq(item<F>(f(k), c), v) & vp_eq(item<F>(cf(k), c), v);
                                   if constexpr (F::size > 1 && F::is_soa)
                                   {
                                       number_ok = number_ok & vp_eq(item<F>(f[k], c), v) & vp_eq(item<F>(cf[k], c), v);
                                   }
                                   else
                                   {
                                       number_ok = number_ok & vp_eq(item<F>(f[static_cast<number>(k)], c), v) & vp_eq(item<F>(cf[static_cast<number>(k)], c), v);
                                   }
                               }
                           });
    bool numbers = vp_case("numbers", 0, dim > 1);
    int cut      = vp_case("cut", 0, 7);
    samurai::for_each_interval(m[id::reference],
                               [&](std::size_t level, auto i, const auto& yz)
                               {
                                   std::size_t first, count, step = cut & 4 ? 2 : 1;
                                   auto j  = shortened(i, cut, first, count);
                                   auto r  = part(f, level, j, yz, numbers);
                                   auto cr = part(cf, level, j, yz, numbers);
                                   row_ok  = row_ok && r.size() == count * F::size && cr.size() == count * F::size;
                                   for (std::size_t x = 0; row_ok && x < count; ++x)
                                   {
                                       for (std::size_t c = 0; c < F::size; ++c)
                                       {
                                           double v = was<F>(old, first + step * x, c);
                                           row_ok   = row_ok & vp_eq(element<F>(r, x, c), v) & vp_eq(element<F>(cr, x, c), v);
                                       }
                                   }
                                   if constexpr (F::size > 1)
                                   {
                                       for (std::size_t c = 0; c < F::size; ++c)
                                       {
                                           auto one  = part(f, level, j, yz, numbers, c);
                                           auto cone = part(cf, level, j, yz, numbers, c);
                                           comp_ok   = comp_ok && one.size() == count && cone.size() == count;
                                           for (std::size_t x = 0; comp_ok && x < count; ++x)
                                           {
                                               double v = was<F>(old, first + step * x, c);
                                               comp_ok  = comp_ok & vp_eq(one(x), v) & vp_eq(cone(x), v);
                                           }
                                           for (std::size_t d = c + 1; d <= F::size; ++d)
                                           {
                                               auto rng  = part(f, level, j, yz, numbers, c, d);
                                               auto crng = part(cf, level, j, yz, numbers, c, d);
                                               range_ok  = range_ok && rng.size() == count * (d - c) && crng.size() == count * (d - c);
                                               for (std::size_t x = 0; range_ok && x < count; ++x)
                                               {
                                                   for (std::size_t e = c; e < d; ++e)
                                                   {
                                                       double v = was<F>(old, first + step * x, e);
                                                       range_ok = range_ok & vp_eq(element<F>(rng, x, e - c), v) & vp_eq(element<F>(crng, x, e - c), v);
                                                   }
                                               }
                                           }
                                       }
                                   }
                               });
    vp_assert(cell_ok, "access-by-cell");
    vp_assert(number_ok, "access-by-number");
    vp_assert(row_ok, "access-by-interval");
    vp_assert(comp_ok, "access-by-component");
    vp_assert(range_ok, "access-by-range-of-components");
}

// writing a row, a cell, a component or a range of components writes exactly that
template <std::size_t dim, class M, class F>
static void writing(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m);
    auto old     = any_values(f);
    double v     = vp_any_f64("v");
    int how      = vp_case("how", 0, F::size > 1 ? 3 : 1);
    int which    = vp_case("which", 0, 3);
    bool numbers = vp_case("numbers", 0, dim > 1);
    int cut      = how == 1 ? 0 : vp_case("cut", 0, 7);
    int n        = 0;
    std::vector<bool> mine(old.size(), false);
    samurai::for_each_interval(m[id::reference],
                               [&](std::size_t level, auto i, const auto& yz)
                               {
                                   if (n++ != which)
                                   {
                                       return;
                                   }
                                   std::size_t k, count;
                                   auto j = shortened(i, cut, k, count);
                                   for (std::size_t x = 0; x < (how == 1 ? 1 : count); ++x)
                                   {
                                       for (std::size_t c = how >= 2 ? 1 : 0; c < F::size; ++c)
                                       {
                                           std::size_t l = k + (cut & 4 ? 2 * x : x);
                                           mine[F::is_soa ? c * (old.size() / F::size) + l : l * F::size + c] = true;
                                       }
                                   }
                                   if (how == 0)
                                   {
                                       auto r = part(f, level, j, yz, numbers);
                                       r      = v;
                                   }
                                   else if (how == 1)
                                   {
                                       samurai::Cell<dim, typename M::interval_t> cell;
                                       cell.index = static_cast<typename M::interval_t::index_t>(k);
                                       f[cell]    = v;
                                   }
                                   else
                                   {
                                       if constexpr (F::size > 1)
                                       {
                                           if (how == 2)
                                           {
                                               auto r = part(f, level, j, yz, numbers, std::size_t{1});
                                               r      = v;
                                           }
                                           else
                                           {
                                               auto r = part(f, level, j, yz, numbers, std::size_t{1}, std::size_t{F::size});
                                               r      = v;
                                           }
                                       }
                                   }
                               });
    bool ok = true;
    for (std::size_t k = 0; k < old.size(); ++k)
    {
        ok = ok & vp_eq(f.array().data()[k], mine[k] ? v : old[k]);
    }
    vp_assert(ok, "writing-changes-exactly-the-cells-named");
}

// an interval that is stored only in part is refused (bounded: natively, the verifier does not follow exceptions to their handlers)
template <std::size_t dim, class M, class F>
static void refused(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m);
    f.fill(0);
    const F& cf = f;
    int which   = vp_case("which", 0, 3), n = 0;
    int more    = vp_any_int("more", 1, 1 << 20);
    bool cst    = vp_case("const", 0, 1);
    std::vector<std::pair<std::size_t, typename M::interval_t>> rows;
    std::vector<xt::xtensor_fixed<int, xt::xshape<dim - 1>>> yzs;
    samurai::for_each_interval(m[id::reference],
                               [&](std::size_t level, const auto& i, const auto& yz)
                               {
                                   if (n++ == which)
                                   {
                                       rows.push_back({level, i});
                                       yzs.push_back(yz);
                                   }
                               });
    if (!rows.empty())
    {
        rows[0].second.end += more;
        bool thrown = false;
        auto state  = std::cout.rdstate();
        std::cout.setstate(std::ios::failbit); // it also prints the row
        try
        {
            cst ? part(cf, rows[0].first, rows[0].second, yzs[0], false).size() : part(f, rows[0].first, rows[0].second, yzs[0], false).size();
        }
        catch (const std::out_of_range&)
        {
            thrown = true;
        }
        std::cout.clear(state);
        vp_assert(thrown, "an-interval-stored-in-part-is-refused");
    }
}

// an expression is evaluated cell by cell, on the cells of the mesh
template <std::size_t dim, class M, class F>
static void expression(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m), g("g", m), h("h", m);
    Store<dim> at(t, m[id::reference]);
    auto fo = any_values(f), go = any_values(g), ho = any_values(h);
    double a = vp_any_f64("a");
    int how  = vp_case("how", 0, 3);
    if (how == 0)
    {
        f = 2. * g + h;
    }
    else if (how == 1)
    {
        f = f - g / 4.;
    }
    else if (how == 2)
    {
        f = g - 3. * (h - f) + a;
    }
    else
    {
        F e = h - g;
        bool made_ok = &e.mesh() == &m && e.array().size() == f.array().size();
        for (const auto& n : t.leaves.v)
        {
            for (std::size_t c = 0; c < F::size; ++c)
            {
                auto k  = at(n);
                made_ok = made_ok & vp_eq(comp(e, k, c), was<F>(ho, k, c) - was<F>(go, k, c));
            }
        }
        vp_assert(made_ok, "a-field-made-from-an-expression");
    }
    bool cells = true, rest = true, others = true;
    for (const auto& n : at.cells.v)
    {
        for (std::size_t c = 0; c < F::size; ++c)
        {
            auto k    = at(n);
            double x = was<F>(fo, k, c), y = was<F>(go, k, c), z = was<F>(ho, k, c);
            double e  = how == 0 ? 2 * y + z : how == 1 ? x - y / 4 : how == 2 ? y - 3 * (z - x) + a : x;
            if (t.leaves.has(n))
            {
                cells = cells & vp_eq(comp(f, k, c), e);
            }
            else
            {
                rest = rest & vp_eq(comp(f, k, c), x);
            }
            others = others & vp_eq(comp(g, k, c), y) & vp_eq(comp(h, k, c), z);
        }
    }
    vp_assert(cells, "an-expression-is-evaluated-cell-by-cell");
    vp_assert(rest, "the-ghosts-are-left-alone");
    vp_assert(others, "the-operands-are-left-alone");
}

// copies
template <std::size_t dim, class M, class F>
static void copies(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m);
    Store<dim> at(t, m[id::reference]);
    auto old = any_values(f);
    bool with = vp_case("conditions", 0, 1);
    Asked a{with ? NEUMANN : FREE, {vp_any_f64("v"), vp_any_f64("v")}};
    if (with)
    {
        if constexpr (F::size == 1)
        {
            samurai::make_bc<samurai::Neumann<1>>(f, a.v[0]);
        }
        else
        {
            samurai::make_bc<samurai::Neumann<1>>(f, a.v[0], a.v[1]);
        }
    }
    int how = vp_case("how", 0, 4);
    F h("h", m);
    if (how == 1)
    {
        any_values(h);
        if constexpr (F::size == 1)
        {
            samurai::make_bc<samurai::Dirichlet<1>>(h, 0.);
        }
        h = f;
    }
    if (how == 3)
    {
        h = std::move(f);
    }
    if (how == 4)
    {
        std::swap(h, f); // through the moves
    }
    F g = how == 0 ? F(f) : how == 1 || how >= 3 ? h : std::move(f);
    bool same = &g.mesh() == &m && g.name() == "f" && g.array().size() == old.size() && g.get_bc().size() == (with ? 1 : 0);
    for (std::size_t k = 0; k < old.size(); ++k)
    {
        same = same & vp_eq(g.array().data()[k], old[k]);
    }
    vp_assert(same, "a-copy-has-the-mesh-the-name-and-the-values");
    // the conditions come along
    std::array<bool, dim> per;
    per.fill(false);
    if (with)
    {
        samurai::update_bc(static_cast<std::size_t>(t.lmax), g);
        check_bc(t, at, g, t.lmax, 1, per, [&](const Node&, std::size_t, int) { return a; });
    }
    if (how == 0)
    {
        double v = vp_any_f64("v");
        g.fill(v);
        bool filled = true, alone = f.get_bc().size() == (with ? 1 : 0);
        for (std::size_t k = 0; k < old.size(); ++k)
        {
            filled = filled & vp_eq(g.array().data()[k], v);
            alone  = alone & vp_eq(f.array().data()[k], old[k]);
        }
        vp_assert(filled, "filling-fills-every-value");
        vp_assert(alone, "a-copy-is-independent");
    }
}

// comparison, iteration and fields made from functions
template <std::size_t dim, class M>
static void compared(const Tree<dim>& t)
{
    using F  = samurai::Field<M, double, 1>;
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m), g("g", m);
    Store<dim> at(t, m[id::reference]);
    any_values(f);
    any_values(g);
    int where = vp_case("where", -1, static_cast<int>(t.leaves.v.size()) - 1); // the only cell that may differ
    for (std::size_t k = 0; k < t.leaves.v.size(); ++k)
    {
        if (static_cast<int>(k) != where)
        {
            comp(g, at(t.leaves.v[k])) = comp(f, at(t.leaves.v[k]));
        }
    }
    if (where >= 0)
    {
        auto k   = at(t.leaves.v[static_cast<std::size_t>(where)]);
        double d = comp(f, k) - comp(g, k);
        vp_assume(vp_eq(d, 0) | (d > 1e-9) | (d < -1e-9));
        bool eq = vp_eq(d, 0);
        vp_assert((f == g) == eq, "equal-exactly-when-the-cells-have-the-same-values");
        vp_assert((f != g) == !eq, "different-exactly-when-not-equal");
    }
    else
    {
        vp_assert(f == g, "equal-exactly-when-the-cells-have-the-same-values");
        vp_assert(!(f != g), "different-exactly-when-not-equal");
    }
}

template <std::size_t dim, class M, class F>
static void iterated(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m);
    auto old = any_values(f);
    std::vector<double> seen, expected;
    for (auto it = f.begin(); it != f.end(); ++it)
    {
        auto r        = *it;
        std::size_t n = r.shape()[F::size > 1 && F::is_soa ? 1 : 0];
        for (std::size_t x = 0; x < n; ++x)
        {
            for (std::size_t c = 0; c < F::size; ++c)
            {
                seen.push_back(element<F>(r, x, c));
            }
        }
    }
    samurai::for_each_cell(m,
                           [&](const auto& cell)
                           {
                               for (std::size_t c = 0; c < F::size; ++c)
                               {
                                   expected.push_back(was<F>(old, static_cast<std::size_t>(cell.index), c));
                               }
                           });
    bool ok = seen.size() == expected.size() && seen.size() == t.leaves.v.size() * F::size;
    for (std::size_t k = 0; ok && k < seen.size(); ++k)
    {
        ok = ok & vp_eq(seen[k], expected[k]);
    }
    vp_assert(ok, "iterating-visits-the-cells-in-order");
}

template <std::size_t dim, class M>
static void from_function(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    Store<dim> at(t, m[id::reference]);
    double c0 = vp_any_f64("c");
    auto fn   = [&](const auto& x)
    {
        double r = c0;
        for (std::size_t d = 0; d < dim; ++d)
        {
            r += (1 << (2 * d)) * x[d];
        }
        return r;
    };
    auto f  = samurai::make_field<1>("f", m, fn);
    auto g  = samurai::make_field<double, 2>("g", m, c0);
    bool ok = f.name() == "f", filled = g.name() == "g";
    for (const auto& n : t.leaves.v)
    {
        double e = c0;
        for (std::size_t d = 0; d < dim; ++d)
        {
            e += (1 << (2 * d)) * (shl(t.base[d], n.level - t.lmin) + n.x[d] + 0.5) * std::ldexp(1., -n.level);
        }
        ok = ok & vp_eq(comp(f, at(n)), e);
    }
    for (std::size_t k = 0; k < g.array().size(); ++k)
    {
        filled = filled & vp_eq(g.array().data()[k], c0);
    }
    vp_assert(ok, "a-field-made-from-a-function-has-its-values-at-the-centres");
    vp_assert(filled, "a-field-made-with-a-value-is-filled-with-it");
}
