// C06: cells and boxes have the geometry their level and integer coordinates say
#include "common.hpp"
#include <samurai/box.hpp>
#include <samurai/cell.hpp>
#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>

static constexpr int B = 1 << 20;

template <std::size_t dim>
using Cell = samurai::Cell<dim, samurai::Interval<int, long long>>;
template <std::size_t dim>
using Coord = xt::xtensor_fixed<double, xt::xshape<dim>>;
template <std::size_t dim>
using Idx = xt::xtensor_fixed<int, xt::xshape<dim>>;

static double real(const char* n)
{
    return vp_any_f64(n);
}

template <std::size_t dim>
static void cell()
{
    Coord<dim> o;
    Idx<dim> q;
    for (std::size_t d = 0; d < dim; ++d)
    {
        o[d] = real("o");
        q[d] = vp_any_int("q", -B, B);
    }
    double scale      = real("scale");
    std::size_t level = static_cast<std::size_t>(vp_case("level", 0, 20));
    vp_assume(scale > 0);
    Cell<dim> c(o, scale, level, q, 7);
    double h = scale / static_cast<double>(1 << level);
    vp_assert(vp_eq(c.length, h), "length");
    vp_assert((c.level == level) & (c.index == 7), "level-and-index");
    auto ce = c.center();
    auto co = c.corner();
    bool ok = true;
    for (std::size_t d = 0; d < dim; ++d)
    {
        double x = o[d] + h * q[d];
        ok       = ok & vp_eq(co[d], x) & vp_eq(c.corner(d), x) & vp_eq(ce[d], x + 0.5 * h) & vp_eq(c.center(d), x + 0.5 * h);
        ok       = ok & (c.indices[d] == q[d]);
    }
    vp_assert(ok, "corner-and-center");
    // the other constructor, and equality
    xt::xtensor_fixed<int, xt::xshape<dim - 1>> rest;
    for (std::size_t d = 1; d < dim; ++d)
    {
        rest[d - 1] = q[d];
    }
    Cell<dim> e(o, scale, level, q[0], rest, 7);
    vp_assert(e == c, "same-cell-from-row-coordinates");
    vp_assert(!(e != c), "equality");
    // faces: the face towards direction d of a cell is the opposite face of its neighbour
    for (std::size_t d = 0; d < dim; ++d)
    {
        Idx<dim> dir, n;
        dir.fill(0);
        dir[d] = vp_any_bool("plus") ? 1 : -1;
        n      = q;
        n[d] += dir[d];
        Cell<dim> v(o, scale, level, n, 8);
        auto f = c.face_center(dir);
        auto g = v.face_center(xt::eval(-dir));
        bool k = true;
        for (std::size_t a = 0; a < dim; ++a)
        {
            k = k & vp_eq(f[a], g[a]) & vp_eq(f[a], ce[a] + 0.5 * h * dir[a]);
        }
        vp_assert(k, "face-shared-by-neighbours");
        vp_assert(!(v == c), "different-cells-differ");
    }
    // the children tile the parent
    for (int k = 0; k < 1 << dim; ++k)
    {
        Idx<dim> ch;
        for (std::size_t d = 0; d < dim; ++d)
        {
            ch[d] = 2 * q[d] + ((k >> d) & 1);
        }
        Cell<dim> f(o, scale, level + 1, ch, 9);
        bool t = vp_eq(2 * f.length, h);
        for (std::size_t d = 0; d < dim; ++d)
        {
            t = t & vp_eq(f.corner(d), co[d] + ((k >> d) & 1) * f.length);
        }
        vp_assert(t, "children-tile-the-parent");
    }
}

VC(cell_1d)
{
    cell<1>();
}

VC(cell_2d)
{
    cell<2>();
}

VC(cell_3d)
{
    cell<3>();
}

// cells handed out by a mesh have the mesh's origin and scale
template <std::size_t dim>
static void mesh_cells()
{
    Coord<dim> o;
    for (std::size_t d = 0; d < dim; ++d)
    {
        o[d] = real("o");
    }
    double scale = real("scale");
    vp_assume(scale > 0);
    samurai::CellList<dim> cl(o, scale);
    auto s = any_set<dim, 1>(-B, B, 2), t = any_set<dim, 1>(-B, B, 2);
    s.fill(cl[2]);
    t.fill(cl[4]);
    samurai::CellArray<dim> ca(cl);
    vp_assert(vp_eq(ca.scaling_factor(), scale), "scaling-factor");
    bool ok = true, oo = true;
    for (std::size_t d = 0; d < dim; ++d)
    {
        oo = oo & vp_eq(ca.origin_point()[d], o[d]);
    }
    vp_assert(oo, "origin");
    vp_assert(vp_eq(ca.cell_length(2), scale / 4) & vp_eq(ca.cell_length(4), scale / 16), "cell-length-of-a-level");
    vp_assert(vp_eq(ca[2].cell_length(), scale / 4), "cell-length-of-a-level-array");
    samurai::for_each_cell(ca,
                           [&](const auto& c)
                           {
                               double h = scale / static_cast<double>(1 << c.level);
                               ok       = ok & vp_eq(c.length, h);
                               for (std::size_t d = 0; d < dim; ++d)
                               {
                                   ok = ok & vp_eq(c.center(d), o[d] + h * c.indices[d] + 0.5 * h);
                               }
                           });
    vp_assert(ok, "geometry-of-the-visited-cells");
}

//@opt vc_mesh_cells_* bound=2 levels with 1 row piece of at most 2 cells each
VC(mesh_cells_1d)
{
    mesh_cells<1>();
}

VC(mesh_cells_2d)
{
    mesh_cells<2>();
}

VC(mesh_cells_3d)
{
    mesh_cells<3>();
}

template <std::size_t dim>
static void box()
{
    using Bx = samurai::Box<double, dim>;
    Coord<dim> a, b;
    for (std::size_t d = 0; d < dim; ++d)
    {
        a[d] = real("a");
        b[d] = real("b");
        vp_assume((a[d] > -1e9) & (a[d] < 1e9) & (b[d] > -1e9) & (b[d] < 1e9));
    }
    Bx x(a, b);
    bool valid = true, ok = true;
    double m = b[0] - a[0];
    for (std::size_t d = 0; d < dim; ++d)
    {
        valid = valid & (a[d] < b[d]);
        ok    = ok & vp_eq(x.length()[d], b[d] - a[d]) & (x.min_corner()[d] == a[d]) & (x.max_corner()[d] == b[d]);
        m     = b[d] - a[d] < m ? b[d] - a[d] : m;
    }
    vp_assert(ok, "corners-and-length");
    vp_assert(x.is_valid() == valid, "valid-iff-positive-in-every-direction");
    vp_assert(vp_eq(x.min_length(), m), "min-length");
    double k = real("k");
    Bx y     = x * k;
    Bx z     = k * x;
    ok       = true;
    for (std::size_t d = 0; d < dim; ++d)
    {
        ok = ok & vp_eq(y.min_corner()[d], a[d] * k) & vp_eq(y.max_corner()[d], b[d] * k);
        ok = ok & vp_eq(z.min_corner()[d], a[d] * k) & vp_eq(z.max_corner()[d], b[d] * k);
    }
    vp_assert(ok, "scaling");
}

VC(box_1d)
{
    box<1>();
}

VC(box_2d)
{
    box<2>();
}

VC(box_3d)
{
    box<3>();
}

// discretising a box with a given cell scale: the cells cover the box and stick out by less than one coarse cell
template <std::size_t dim>
static void discretise()
{
    Coord<dim> a, b;
    double s = real("scale");
    vp_assume((s > 0.01) & (s < 100));
    for (std::size_t d = 0; d < dim; ++d)
    {
        a[d]     = real("a");
        double l = real("len");
        vp_assume((l > 0) & (l <= 2 * s) & (a[d] > -100) & (a[d] < 100));
        b[d] = a[d] + l;
        vp_assume((b[d] - a[d] > 0) & (b[d] - a[d] <= 2 * s));
    }
    std::size_t level = static_cast<std::size_t>(vp_case("level", 0, 1));
    samurai::LevelCellArray<dim> l(level, samurai::Box<double, dim>(a, b), 0.05, s);
    double h = s / static_cast<double>(1 << level);
    double e = vp_symbolic() ? 0. : 1e-9;
    vp_assert(vp_eq(l.scaling_factor(), s), "scale-kept");
    bool ok = true;
    for (std::size_t d = 0; d < dim; ++d)
    {
        auto i   = l[d][0];
        double w = h * i.end;
        ok       = ok & (i.start == 0) & vp_eq(l.origin_point()[d], a[d]) & (w >= (b[d] - a[d]) * (1 - e)) & (w < b[d] - a[d] + s * (1 + e));
    }
    vp_assert(ok, "cells-cover-the-box-tightly");
}

//@opt vc_discretise_* bound=at most 2 coarse cells per direction, levels 0 and 1
VC(discretise_1d)
{
    discretise<1>();
}

VC(discretise_2d)
{
    discretise<2>();
}

// the automatic choice of the scale, in floating point: covered up to rounding, sticking out by at most the tolerance
template <std::size_t dim>
static void approximate()
{
    double tol = vp_case("tol", 1, 20) * 0.01;
    Coord<dim> a, b;
    bool nice = vp_any_bool("nice");
    double u  = nice ? 0.01 * vp_any_int("u", 1, 400) : 0.;
    for (std::size_t d = 0; d < dim; ++d)
    {
        a[d] = 0.25 * vp_any_int("a", -8, 8);
        b[d] = a[d] + (nice ? u * vp_any_int("k", 1, 7) : 0.001 * vp_any_int("l", 50, 5000));
    }
    samurai::Box<double, dim> bx(a, b);
    std::size_t level = static_cast<std::size_t>(vp_case("level", 0, 3));
    samurai::LevelCellArray<dim> l(level, bx, tol);
    double h = l.scaling_factor() / static_cast<double>(1 << level);
    bool ok = true, tight = true, whole = true;
    for (std::size_t d = 0; d < dim; ++d)
    {
        double len = b[d] - a[d], w = h * l[d][0].end;
        ok    = ok & (l[d][0].start == 0) & (w >= len * (1 - 1e-9)) & (l.origin_point()[d] == a[d]);
        tight = tight & (w <= len * (1 + tol) * (1 + 1e-9));
        whole = whole & (l[d][0].end % (1 << level) == 0);
    }
    vp_assert(ok, "cells-cover-the-box");
    vp_assert(tight, "box-overshoot-within-tolerance");
    vp_assert(whole, "whole-number-of-coarse-cells");
}

//@opt bc_approximate_* time=5 max=20000
BC(approximate_1d)
{
    approximate<1>();
}

BC(approximate_2d)
{
    approximate<2>();
}
