#pragma once
// C11: the values of the ghosts outside the domain
#include "tree.hpp"
#include <samurai/algorithm/update.hpp>
#include <samurai/bc.hpp>

enum BcKind
{
    FREE      = 0, // no condition asked for on this side
    DIRICHLET = 1,
    NEUMANN   = 2
};

struct Asked
{
    BcKind kind;
    double v[2];   // per component
    int order = 0; // of this condition, where the conditions differ (0: the common one)
};

// equality up to the rounding of the literals of the code (8./3. and the like); the values are of modulus at most 1
static bool near(double a, double b)
{
    return (a - b <= 1e-9) & (b - a <= 1e-9);
}

template <class F>
static std::vector<double> any_values(F& f, bool bounded = false)
{
    std::vector<double> old(f.array().size());
    for (std::size_t n = 0; n < old.size(); ++n)
    {
        old[n] = vp_any_f64("u");
        if (bounded)
        {
            if (!vp_symbolic())
            {
                old[n] /= 1 + std::fabs(old[n]);
            }
            vp_assume((old[n] <= 1) & (old[n] >= -1));
        }
        f.array().data()[n] = old[n];
    }
    return old;
}

static double any_bounded(const char* n)
{
    double v = vp_any_f64(n);
    if (!vp_symbolic())
    {
        v /= 1 + std::fabs(v);
    }
    vp_assume((v <= 1) & (v >= -1));
    return v;
}

static Node moved(Node n, std::size_t d, int by)
{
    n.x[d] += by;
    return n;
}

// weight of node i in the interpolation at x of the points p[0..n-1] (all integers: exact)
static double lagrange(const int* p, int n, int i, int x)
{
    double num = 1, den = 1;
    for (int m = 0; m < n; ++m)
    {
        if (m != i)
        {
            num *= x - p[m];
            den *= p[i] - p[m];
        }
    }
    return num / den;
}

static double binomial(int n, int k)
{
    double r = 1;
    for (int i = 0; i < k; ++i)
    {
        r = r * (n - i) / (i + 1);
    }
    return r;
}

// 'field' after the conditions were applied on 'level'; asked(inner, d, s): the condition on the face of cell 'inner' in direction
// s * e_d; order: of the conditions (the number of ghost layers they fill)
template <std::size_t dim, class F, class Ask>
static void check_bc(const Tree<dim>& t, const Store<dim>& at, F& f, int level, int order, const std::array<bool, dim>& periodic, Ask&& asked)
{
    // the extrapolation exists for three layers at most (max_stencil_size_implemented_PE)
    constexpr int gw = F::mesh_t::config::ghost_width < 3 ? F::mesh_t::config::ghost_width : 3;
    const double dx  = std::ldexp(1., -level);
    bool condition = true, extrapolated = true, corner = true;
    auto value = [&](const Node& n, std::size_t c) { return comp(f, at(n), c); };
    for (const auto& n : at.cells.v)
    {
        if (n.level != level || !t.in_domain(n))
        {
            continue;
        }
        // the directions to the outside
        int total = 1;
        for (std::size_t d = 0; d < dim; ++d)
        {
            total *= 3;
        }
        for (int code = 0; code < total; ++code)
        {
            int dir[3] = {0, 0, 0}, c3 = code, nz = 0;
            bool out = true;
            for (std::size_t d = 0; d < dim; ++d, c3 /= 3)
            {
                dir[d] = c3 % 3 - 1;
                if (dir[d] != 0)
                {
                    ++nz;
                    out = out && !periodic[d] && !t.in_domain(moved(n, d, dir[d]));
                }
            }
            if (nz == 0 || !out)
            {
                continue;
            }
            auto along = [&](int k)
            {
                Node q = n;
                for (std::size_t d = 0; d < dim; ++d)
                {
                    q.x[d] += k * dir[d];
                }
                return q;
            };
            if (nz == 1)
            {
                std::size_t d = dir[0] ? 0 : dir[1] ? 1 : 2;
                Asked a       = asked(n, d, dir[d]);
                const int own = a.order ? a.order : order;
                bool applied  = a.kind != FREE && (t.leaves.has(n) || (t.lmin != t.lmax && at.has(along(own))));
                for (std::size_t c = 0; applied && c < F::size; ++c)
                {
                    if (a.kind == NEUMANN)
                    {
                        condition = condition & vp_eq(value(along(1), c), value(n, c) + dx * a.v[c]);
                        continue;
                    }
                    // the ghosts lie on the polynomial through the last cells and the value on the face
                    int p[8] = {0};
                    for (int i = 0; i < own; ++i)
                    {
                        p[i + 1] = -(2 * i + 1);
                    }
                    for (int j = 1; j <= own; ++j)
                    {
                        double e = lagrange(p, own + 1, 0, 2 * j - 1) * a.v[c];
                        for (int i = 0; i < own; ++i)
                        {
                            e += lagrange(p, own + 1, i + 1, 2 * j - 1) * value(along(-i), c);
                        }
                        condition = condition & (own == 1 ? vp_eq(value(along(j), c), e) : near(value(along(j), c), e));
                    }
                }
                if (a.kind == FREE)
                {
                    continue;
                }
            }
            // the other layers, and the corners: the alternating sum over 2 j cells vanishes
            for (int j = nz == 1 ? order + 1 : 1; j <= gw; ++j)
            {
                if (at.has(along(j)))
                {
                    for (std::size_t c = 0; c < F::size; ++c)
                    {
                        double s = 0;
                        for (int i = 0; i < 2 * j; ++i)
                        {
                            s += (i % 2 ? -1 : 1) * binomial(2 * j - 1, i) * value(along(j - i), c);
                        }
                        (nz == 1 ? extrapolated : corner) = (nz == 1 ? extrapolated : corner) & (order == 1 ? vp_eq(s, 0) : near(s, 0));
                    }
                }
            }
        }
    }
    vp_assert(condition, "the-ghosts-satisfy-the-boundary-condition");
    vp_assert(extrapolated, "the-other-ghost-layers-are-extrapolated");
    vp_assert(corner, "the-ghosts-at-the-corners-are-extrapolated");
}

template <std::size_t dim, class F>
static void check_inside(const Tree<dim>& t, const Store<dim>& at, F& f, const std::vector<double>& old, int level)
{
    bool same = true;
    for (std::size_t c = 0; c < F::size; ++c)
    {
        for (const auto& n : at.cells.v)
        {
            if (n.level != level || t.in_domain(n))
            {
                std::size_t k = at(n);
                same          = same & vp_eq(comp(f, k, c), old[F::is_soa ? c * (old.size() / F::size) + k : k * F::size + c]);
            }
        }
    }
    vp_assert(same, "the-values-of-the-domain-and-of-the-other-levels-are-unchanged");
}

template <std::size_t dim, std::size_t w, std::size_t po>
using MR = samurai::MRMesh<samurai::MRConfig<dim, w, 1, po>>;

// shape: a box of roots, refined
template <std::size_t dim>
static Tree<dim> any_box(int nx, int ny, int nz, int levels, int budget)
{
    Tree<dim> t;
    t.place();
    int lmin = vp_case("lmin", 1, dim == 1 ? 2 : 1);
    t.start(lmin, lmin + vp_case("levels", 0, levels), vp_case("rx", 1, nx), vp_case("ry", 1, dim > 1 ? ny : 1), vp_case("rz", 1, dim > 2 ? nz : 1));
    t.refine(budget);
    std::array<bool, dim> per;
    per.fill(false);
    t.grade(1, per);
    return t;
}

template <class M, std::size_t dim>
static M made(const Tree<dim>& t)
{
    return M(t.template cell_list<M>(), static_cast<std::size_t>(t.lmin), static_cast<std::size_t>(t.lmax));
}

// the same condition everywhere
template <std::size_t dim, class M, class F, std::size_t order, bool neumann>
static void everywhere(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m);
    Store<dim> at(t, m[id::reference]);
    auto old = any_values(f, order > 1);
    Asked a{neumann ? NEUMANN : DIRICHLET, {0, 0}};
    for (std::size_t c = 0; c < F::size; ++c)
    {
        a.v[c] = order > 1 ? any_bounded("v") : vp_any_f64("v");
    }
    if constexpr (F::size == 1)
    {
        if constexpr (neumann)
        {
            samurai::make_bc<samurai::Neumann<order>>(f, a.v[0]);
        }
        else
        {
            samurai::make_bc<samurai::Dirichlet<order>>(f, a.v[0]);
        }
    }
    else
    {
        if constexpr (neumann)
        {
            samurai::make_bc<samurai::Neumann<order>>(f, a.v[0], a.v[1]);
        }
        else
        {
            samurai::make_bc<samurai::Dirichlet<order>>(f, a.v[0], a.v[1]);
        }
    }
    std::array<bool, dim> per;
    per.fill(false);
    int level = vp_case("level", t.lmin, t.lmax);
    samurai::update_bc(static_cast<std::size_t>(level), f);
    check_inside(t, at, f, old, level);
    check_bc(t, at, f, level, static_cast<int>(order), per, [&](const Node&, std::size_t, int) { return a; });
}

// one condition per side, some given by a function of the position of the face
template <std::size_t dim, class M, class F>
static void by_side(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m);
    Store<dim> at(t, m[id::reference]);
    auto old = any_values(f);
    double v[3][2];
    std::array<bool, dim> per;
    per.fill(false);
    using D = samurai::DirectionVector<dim>;
    // sides 0 .. 2 dim - 1; one of them is left without a condition
    int none = vp_case("none", -1, 2 * static_cast<int>(dim) - 1);
    int fn   = vp_case("function", 0, 1);
    for (std::size_t d = 0; d < dim; ++d)
    {
        for (int s = 0; s < 2; ++s)
        {
            v[d][s] = vp_any_f64("v");
            D dir;
            dir.fill(0);
            dir[d] = 2 * s - 1;
            if (static_cast<int>(2 * d) + s == none)
            {
                continue;
            }
            if (fn && d == 0)
            {
                auto g = [](const auto& direction, const auto& cell, const auto& coords)
                {
                    double r = 64. * direction[0] + static_cast<double>(cell.level);
                    for (std::size_t k = 0; k < dim; ++k)
                    {
                        r += (1 << (2 * k)) * coords[k];
                    }
                    return r;
                };
                samurai::make_bc<samurai::Dirichlet<1>>(f, g)->on(dir);
            }
            else if (s == 0)
            {
                samurai::make_bc<samurai::Dirichlet<1>>(f, v[d][s])->on(dir);
            }
            else
            {
                samurai::make_bc<samurai::Neumann<1>>(f, v[d][s])->on(dir);
            }
        }
    }
    int level = vp_case("level", t.lmin, t.lmax);
    samurai::update_bc(static_cast<std::size_t>(level), f);
    check_inside(t, at, f, old, level);
    check_bc(t, at, f, level, 1, per,
             [&](const Node& n, std::size_t d, int s)
             {
                 int side = static_cast<int>(2 * d) + (s > 0);
                 Asked a{side == none ? FREE : (fn && d == 0) || s < 0 ? DIRICHLET : NEUMANN, {v[d][s > 0], 0}};
                 if (fn && d == 0)
                 {
                     // the centre of the face
                     a.v[0] = 64. * s + level;
                     for (std::size_t k = 0; k < dim; ++k)
                     {
                         double x = shl(t.base[k], level - t.lmin) + n.x[k] + (k == d ? (s > 0 ? 1. : 0.) : 0.5);
                         a.v[0] += (1 << (2 * k)) * x * std::ldexp(1., -level);
                     }
                 }
                 return a;
             });
}

// a condition on a part of the boundary chosen by the coordinates of the faces (the lower half of the sides across x), another elsewhere
template <std::size_t dim, class M, class F>
static void by_coordinates(const Tree<dim>& t)
{
    using id = typename M::mesh_id_t;
    auto m   = made<M>(t);
    F f("f", m);
    Store<dim> at(t, m[id::reference]);
    auto old = any_values(f);
    double v1 = vp_any_f64("v"), v2 = vp_any_f64("v");
    std::array<bool, dim> per;
    per.fill(false);
    // a plane of coordinate 'cut' across direction 'axis', between two roots or at a side
    std::size_t axis = static_cast<std::size_t>(vp_case("axis", 0, static_cast<int>(dim) - 1));
    int root         = vp_case("cut", 0, t.roots[axis]);
    double cut       = (t.base[axis] + t.off[axis] + root) * std::ldexp(1., -t.lmin);
    samurai::make_bc<samurai::Dirichlet<1>>(f, v1)->on(samurai::make_bc_region(m, [=](const auto& x) { return x[axis] < cut; }));
    samurai::make_bc<samurai::Neumann<1>>(f, v2)->on(samurai::make_bc_region(m, [=](const auto& x) { return !(x[axis] < cut); }));
    int level = vp_case("level", t.lmin, t.lmax);
    samurai::update_bc(static_cast<std::size_t>(level), f);
    check_inside(t, at, f, old, level);
    check_bc(t, at, f, level, 1, per,
             [&](const Node& n, std::size_t d, int s)
             {
                 double x = n.x[axis] + (axis == d ? (s > 0 ? 1. : 0.) : 0.5);
                 bool low = x * std::ldexp(1., t.lmin - level) < t.off[axis] + root;
                 return Asked{low ? DIRICHLET : NEUMANN, {low ? v1 : v2, 0}};
             });
}

// conditions of different orders on the two sides across x, attached in either order
template <std::size_t dim, class M, std::size_t high>
static void mixed(const Tree<dim>& t)
{
    using F  = samurai::Field<M, double, 1>;
    using id = typename M::mesh_id_t;
    using D  = samurai::DirectionVector<dim>;
    auto m   = made<M>(t);
    F f("f", m);
    Store<dim> at(t, m[id::reference]);
    auto old = any_values(f, true);
    double v[2] = {any_bounded("v"), any_bounded("v")};
    int side    = vp_case("side", 0, 1); // of the condition of high order
    bool last   = vp_case("last", 0, 1); // attached last
    D dir;
    dir.fill(0);
    for (int k = 0; k < 2; ++k)
    {
        bool wide = (k == 1) == last;
        int s     = wide ? side : 1 - side;
        dir[0]    = 2 * s - 1;
        if (wide)
        {
            samurai::make_bc<samurai::Dirichlet<high>>(f, v[s])->on(dir);
        }
        else
        {
            samurai::make_bc<samurai::Neumann<1>>(f, v[s])->on(dir);
        }
    }
    std::array<bool, dim> per;
    per.fill(false);
    samurai::update_bc(static_cast<std::size_t>(t.lmin), f);
    check_inside(t, at, f, old, t.lmin);
    check_bc(t, at, f, t.lmin, static_cast<int>(high), per,
             [&](const Node&, std::size_t d, int s)
             {
                 bool wide = (s > 0) == (side == 1);
                 return d != 0 ? Asked{FREE, {0, 0}} : wide ? Asked{DIRICHLET, {v[s > 0], 0}, static_cast<int>(high)} : Asked{NEUMANN, {v[s > 0], 0}, 1};
             });
}
