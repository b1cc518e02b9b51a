#pragma once
// C14: iteration over stencils and interfaces
#include "c12_ghost.hpp"
#include <samurai/interface.hpp>

template <class M, std::size_t dim>
static M made_any(const Tree<dim>& t, const std::array<bool, dim>& per)
{
    if constexpr (std::is_same_v<M, samurai::amr::Mesh<typename M::config>>)
    {
        return made<M>(t); // not periodic
    }
    else
    {
        return made<M>(t, per);
    }
}

// a stencil by plain integers
struct Shape
{
    int n;
    int at[8][3];
};

template <std::size_t size, std::size_t dim>
static Shape shape_of(const samurai::Stencil<size, dim>& s)
{
    Shape r{static_cast<int>(size), {}};
    for (std::size_t k = 0; k < size; ++k)
    {
        for (std::size_t d = 0; d < dim; ++d)
        {
            r.at[k][d] = s(k, d);
        }
    }
    return r;
}

// the cell given to the callback is the cell n: level, coordinates, size, origin, and its number if it is stored
template <std::size_t dim, class Cell, class M>
static bool is_cell(const Tree<dim>& t, const Store<dim>& at, const M& m, const Cell& c, const Node& n, bool stored)
{
    if (static_cast<int>(c.level) != n.level)
    {
        return false;
    }
    bool ok = c.length == m.cell_length(static_cast<std::size_t>(n.level));
    for (std::size_t d = 0; d < dim; ++d)
    {
        ok = ok & (c.indices[d] == shl(t.base[d], n.level - t.lmin) + n.x[d]) & (c.origin_point[d] == m.origin_point()[d]);
    }
    if (at.has(n))
    {
        ok = ok & (c.index == static_cast<i64>(at(n)));
    }
    else if (stored)
    {
        ok = false;
    }
    return ok;
}

template <std::size_t dim, class Cell>
static Node node_of(const Tree<dim>& t, const Cell& c)
{
    Node n{static_cast<int>(c.level), {0, 0, 0}};
    for (std::size_t d = 0; d < dim; ++d)
    {
        n.x[d] = c.indices[d] - shl(t.base[d], n.level - t.lmin);
    }
    return n;
}

// a face: the cells on its two sides (in the positive direction), and the cell on the low side at the level of the finer one
struct Face
{
    std::size_t d;
    Node low, high, from;
};

static bool operator==(const Face& a, const Face& b)
{
    return a.d == b.d && a.low == b.low && a.high == b.high;
}

// every pair of leaves that share a face across direction d
template <std::size_t dim>
static void faces(const Tree<dim>& t, std::size_t d, std::vector<Face>& out)
{
    for (const auto& n : t.leaves.v)
    {
        Node q = moved(n, d, 1);
        if (t.leaves.has(q))
        {
            out.push_back({d, n, q, n});
            continue;
        }
        Node p = on_level(q, q.level - 1);
        if (t.leaves.has(p))
        {
            out.push_back({d, n, p, n});
            continue;
        }
        for (int k = 0; k < (1 << dim); ++k)
        {
            Node c = child_of(q, k);
            if (c.x[d] == 2 * q.x[d] && t.leaves.has(c))
            {
                out.push_back({d, n, c, moved(c, d, -1)});
            }
        }
    }
}

template <std::size_t dim>
static void sides(const Tree<dim>& t, std::size_t d, int s, std::vector<Face>& out)
{
    for (const auto& n : t.leaves.v)
    {
        Node q = moved(n, d, s);
        if (!t.in_domain(q))
        {
            out.push_back(s > 0 ? Face{d, n, q, n} : Face{d, q, n, q});
        }
    }
}

template <std::size_t dim>
static samurai::DirectionVector<dim> along(std::size_t d)
{
    samurai::DirectionVector<dim> v;
    v.fill(0);
    v[d] = 1;
    return v;
}

struct Visits
{
    std::vector<Face> expected, seen;
    bool cells = true, stencil = true;

    void visit(const Face& f)
    {
        seen.push_back(f);
    }

    void check(const char* what)
    {
        bool ok = seen.size() == expected.size();
        for (const auto& e : expected)
        {
            int k = 0;
            for (const auto& s : seen)
            {
                k += s == e;
            }
            ok = ok && k == 1;
        }
        vp_assert(ok, what);
        vp_assert(cells, "the-cells-of-an-interface-are-the-leaves-on-its-sides");
        vp_assert(stencil, "the-stencil-cells-lie-around-the-interface-on-the-finer-level");
    }
};

template <std::size_t dim, class M, std::size_t size>
static void interior(const Tree<dim>& t, const M& m, const samurai::Stencil<size, dim>* stencil, std::size_t d0, std::size_t d1, bool stored, int how)
{
    using id = typename M::mesh_id_t;
    Store<dim> at(t, m[id::reference]);
    Visits v;
    for (std::size_t d = d0; d <= d1; ++d)
    {
        faces(t, d, v.expected);
    }
    auto f = [&](auto& pair, auto& comp)
    {
        Node a = node_of(t, pair[0]), b = node_of(t, pair[1]);
        v.cells = v.cells & is_cell(t, at, m, pair[0], a, true) & is_cell(t, at, m, pair[1], b, true);
        for (const auto& e : v.expected)
        {
            if (e.low == a && e.high == b)
            {
                v.visit(e);
                Shape s = stencil != nullptr ? shape_of(*stencil) : shape_of(samurai::in_out_stencil<dim>(along<dim>(e.d)));
                v.stencil = v.stencil & (comp.size() == static_cast<std::size_t>(s.n));
                for (int k = 0; k < s.n; ++k)
                {
                    Node n = e.from;
                    for (std::size_t x = 0; x < dim; ++x)
                    {
                        n.x[x] += s.at[k][x];
                    }
                    v.stencil = v.stencil & is_cell(t, at, m, comp[static_cast<std::size_t>(k)], n, stored);
                }
                return;
            }
        }
        v.visit({dim, a, b, a}); // not a face
    };
    if (stencil == nullptr)
    {
        if (d0 == d1)
        {
            samurai::for_each_interior_interface(m, along<dim>(d0), f);
        }
        else
        {
            samurai::for_each_interior_interface(m, f);
        }
    }
    else if (how == 0)
    {
        samurai::for_each_interior_interface(m, along<dim>(d0), *stencil, f);
    }
    else
    {
        for (int level = t.lmin; level <= t.lmax; ++level)
        {
            samurai::for_each_interior_interface<samurai::Run::Parallel>(m, static_cast<std::size_t>(level), along<dim>(d0), *stencil, f);
        }
    }
    v.check("every-interior-interface-is-visited-exactly-once");
}

template <std::size_t dim, class M, std::size_t size>
static void border(const Tree<dim>& t, const M& m, const samurai::Stencil<size, dim>* stencil, std::size_t d0, std::size_t d1, bool stored, int how)
{
    using id = typename M::mesh_id_t;
    Store<dim> at(t, m[id::reference]);
    Visits v;
    for (std::size_t d = d0; d <= d1; ++d)
    {
        sides(t, d, 1, v.expected);
        if (how != 1)
        {
            sides(t, d, -1, v.expected);
        }
    }
    auto f = [&](auto& cell, auto& comp)
    {
        Node a  = node_of(t, cell);
        v.cells = v.cells & is_cell(t, at, m, cell, a, true);
        // which of the sides of the cell: the one whose stencil fits
        for (const auto& e : v.expected)
        {
            Node leaf = t.in_domain(e.low) ? e.low : e.high;
            if (!(leaf == a))
            {
                continue;
            }
            Shape s  = stencil != nullptr ? shape_of(*stencil) : shape_of(samurai::in_out_stencil<dim>(along<dim>(e.d)));
            bool fit = comp.size() == static_cast<std::size_t>(s.n);
            for (int k = 0; k < s.n && fit; ++k)
            {
                Node n = e.from;
                for (std::size_t x = 0; x < dim; ++x)
                {
                    n.x[x] += s.at[k][x];
                }
                fit = node_of(t, comp[static_cast<std::size_t>(k)]) == n;
            }
            if (fit)
            {
                v.visit(e);
                for (int k = 0; k < s.n; ++k)
                {
                    const auto& c = comp[static_cast<std::size_t>(k)];
                    v.stencil     = v.stencil & is_cell(t, at, m, c, node_of(t, c), stored);
                }
                return;
            }
        }
        v.visit({dim, a, a, a});
    };
    if (stencil == nullptr)
    {
        if (d0 != d1)
        {
            samurai::for_each_boundary_interface(m, f);
        }
        else if (how == 1)
        {
            samurai::for_each_boundary_interface__direction(m, along<dim>(d0), f);
        }
        else
        {
            samurai::for_each_boundary_interface__both_directions(m, along<dim>(d0), f);
        }
    }
    else if (how == 0)
    {
        samurai::for_each_boundary_interface__both_directions(m, along<dim>(d0), *stencil, f);
    }
    else if (how == 1)
    {
        samurai::for_each_boundary_interface__direction(m, along<dim>(d0), *stencil, f);
    }
    else
    {
        for (int level = t.lmin; level <= t.lmax; ++level)
        {
            samurai::for_each_boundary_interface__direction(m, static_cast<std::size_t>(level), along<dim>(d0), *stencil, f);
            samurai::for_each_boundary_interface__opposite_direction(m, static_cast<std::size_t>(level), along<dim>(d0), *stencil, f);
        }
    }
    v.check("every-boundary-interface-is-visited-exactly-once");
}

// all directions, default stencils
template <std::size_t dim, class M>
static void interfaces(const Tree<dim>& t, const std::array<bool, dim>& per)
{
    auto m                                 = made_any<M>(t, per);
    const samurai::Stencil<2, dim>* nothing = nullptr;
    if (vp_case("which", 0, 1) == 0)
    {
        interior<dim, M>(t, m, nothing, 0, dim - 1, true, 0);
    }
    else
    {
        border<dim, M>(t, m, nothing, 0, dim - 1, true, 0);
    }
}

// one direction, a stencil of size cells along it from 'first'
template <std::size_t dim, class M, std::size_t size>
static void interfaces_line(const Tree<dim>& t, const std::array<bool, dim>& per, int first)
{
    auto m        = made_any<M>(t, per);
    std::size_t d = static_cast<std::size_t>(vp_case("d", 0, static_cast<int>(dim) - 1));
    samurai::Stencil<size, dim> s;
    s.fill(0);
    for (std::size_t k = 0; k < size; ++k)
    {
        s(k, d) = first + static_cast<int>(k);
    }
    if (vp_case("which", 0, 1) == 0)
    {
        interior<dim, M>(t, m, &s, d, d, true, vp_case("how", 0, 1));
    }
    else
    {
        border<dim, M>(t, m, &s, d, d, true, vp_case("how", 0, 2));
    }
}

// the stencil around every cell, or around those of a part of the mesh
template <std::size_t dim, class M, std::size_t size>
static void stencils(const Tree<dim>& t, const std::array<bool, dim>& per, const samurai::Stencil<size, dim>& s, int how)
{
    using id = typename M::mesh_id_t;
    auto m   = made_any<M>(t, per);
    Store<dim> at(t, m[id::reference]);
    Shape sh = shape_of(s);
    std::vector<Node> seen;
    bool ok = true, all = true;
    std::size_t o = 0;
    for (int k = 0; k < sh.n; ++k)
    {
        if (sh.at[k][0] == 0 && sh.at[k][1] == 0 && sh.at[k][2] == 0)
        {
            o = static_cast<std::size_t>(k);
        }
    }
    auto f = [&](auto& cells)
    {
        Node n = node_of(t, cells[o]);
        seen.push_back(n);
        for (int k = 0; k < sh.n; ++k)
        {
            Node q = n;
            for (std::size_t x = 0; x < dim; ++x)
            {
                q.x[x] += sh.at[k][x];
            }
            ok = ok & is_cell(t, at, m, cells[static_cast<std::size_t>(k)], q, true);
        }
    };
    NodeSet expected = t.leaves;
    if (how == 0)
    {
        samurai::for_each_stencil(m, s, f);
    }
    else if (how == 1)
    {
        for (int level = t.lmin; level <= t.lmax; ++level)
        {
            auto it = samurai::make_stencil_iterator(m, s);
            samurai::for_each_stencil(m, static_cast<std::size_t>(level), it, f);
        }
    }
    else
    {
        // the cells of the boundary in the direction d
        std::size_t d = static_cast<std::size_t>(vp_case("d", 0, static_cast<int>(dim) - 1));
        int sg        = 2 * vp_case("s", 0, 1) - 1;
        samurai::DirectionVector<dim> dir = sg * along<dim>(d);
        expected = NodeSet{};
        for (const auto& n : t.leaves.v)
        {
            if (!t.in_domain(moved(n, d, sg)))
            {
                expected.v.push_back(n);
            }
        }
        if (how == 2)
        {
            for (int level = t.lmin; level <= t.lmax; ++level)
            {
                auto set = samurai::boundary(m, static_cast<std::size_t>(level), dir);
                samurai::for_each_stencil(m, set, s, f);
            }
        }
        else
        {
            // a region given by a set, with coefficients that depend on the size of the cells
            expected = t.leaves;
            bool h   = true;
            samurai::for_each_stencil_on_boundary(m,
                                                  m.domain(),
                                                  s,
                                                  [&](double l) { return 2 * l; },
                                                  [&](auto& cells, auto& coeffs)
                                                  {
                                                      h = h & (coeffs == 2 * cells[o].length);
                                                      f(cells);
                                                  });
            vp_assert(h, "the-coefficients-are-those-of-the-level");
        }
    }
    all = seen.size() == expected.v.size();
    for (const auto& e : expected.v)
    {
        int k = 0;
        for (const auto& n : seen)
        {
            k += n == e;
        }
        all = all && k == 1;
    }
    vp_assert(all, "every-cell-has-its-stencil-exactly-once");
    vp_assert(ok, "the-cells-of-a-stencil-are-those-at-its-offsets");
}

// ---- the stencils by name ----

template <std::size_t dim>
static bool zero_but(const int* v, std::size_t d, int value)
{
    bool ok = true;
    for (std::size_t k = 0; k < dim; ++k)
    {
        ok = ok & (v[k] == (k == d ? value : 0));
    }
    return ok;
}

// how often the vector value * e_d is in the shape
template <std::size_t dim>
static int count(const Shape& s, std::size_t d, int value)
{
    int k = 0;
    for (int i = 0; i < s.n; ++i)
    {
        k += zero_but<dim>(s.at[i], d, value);
    }
    return k;
}

template <std::size_t dim, std::size_t size>
struct Wide // a stencil of more than 8 cells
{
    template <class S>
    static int count(const S& s, std::size_t d, int value)
    {
        int r = 0;
        for (std::size_t i = 0; i < size; ++i)
        {
            bool ok = true;
            for (std::size_t k = 0; k < dim; ++k)
            {
                ok = ok & (s(i, k) == (k == d ? value : 0));
            }
            r += ok;
        }
        return r;
    }
};

template <std::size_t dim, std::size_t w>
static void named_star()
{
    constexpr std::size_t size = 1 + 2 * dim * w;
    auto s                     = samurai::star_stencil<dim, w>();
    bool ok                    = Wide<dim, size>::count(s, 0, 0) == 1;
    for (std::size_t d = 0; d < dim; ++d)
    {
        for (int k = 1; k <= static_cast<int>(w); ++k)
        {
            ok = ok & (Wide<dim, size>::count(s, d, k) == 1) & (Wide<dim, size>::count(s, d, -k) == 1);
        }
    }
    vp_assert(ok, "the-star-has-the-centre-and-its-neighbours-along-the-axes");
    if constexpr (w > 0)
    {
        auto ds  = samurai::directional_stencils<dim, w>();
        bool dok = ds.size() == 2 * dim;
        for (std::size_t d = 0; d < dim; ++d)
        {
            for (int sg = -1; sg <= 1; sg += 2)
            {
                int k = 0;
                for (std::size_t i = 0; i < ds.size(); ++i)
                {
                    bool is = true;
                    for (std::size_t x = 0; x < dim; ++x)
                    {
                        is = is & (ds[i].direction[x] == (x == d ? sg : 0));
                    }
                    if (is)
                    {
                        ++k;
                        // centre, inwards, outwards
                        Shape sh = shape_of(ds[i].stencil);
                        dok      = dok & zero_but<dim>(sh.at[0], d, 0);
                        for (int j = 1; j <= static_cast<int>(w); ++j)
                        {
                            dok = dok & zero_but<dim>(sh.at[j], d, -sg * j) & zero_but<dim>(sh.at[static_cast<int>(w) + j], d, sg * j);
                        }
                    }
                }
                dok = dok & (k == 1);
            }
        }
        vp_assert(dok, "a-directional-stencil-is-the-centre-then-inside-then-outside");
    }
}

template <std::size_t dim, std::size_t d>
static void named_line()
{
    auto a = samurai::line_stencil<dim, d>(vp_any_int("a", -9, 9), vp_any_int("b", -9, 9), 0);
    Shape s = shape_of(a);
    int x = s.at[0][d], y = s.at[1][d];
    vp_assert(zero_but<dim>(s.at[0], d, x) & zero_but<dim>(s.at[1], d, y) & zero_but<dim>(s.at[2], d, 0), "a-line-stencil-lies-on-its-axis");
    int from = vp_any_int("from", -9, 9);
    Shape b  = shape_of(samurai::line_stencil_from<dim, d, 4>(from));
    Shape c  = shape_of(samurai::line_stencil<dim, d, 4>());
    Shape e  = shape_of(samurai::line_stencil<dim, d, 2>());
    Shape g  = shape_of(samurai::line_stencil<dim, d, 6>());
    bool ok  = true;
    for (int k = 0; k < 4; ++k)
    {
        ok = ok & zero_but<dim>(b.at[k], d, from + k) & zero_but<dim>(c.at[k], d, k - 1);
    }
    for (int k = 0; k < 6; ++k)
    {
        ok = ok & zero_but<dim>(g.at[k], d, k - 2);
    }
    ok = ok & zero_but<dim>(e.at[0], d, 0) & zero_but<dim>(e.at[1], d, 1);
    vp_assert(ok, "a-line-stencil-is-consecutive-and-centred-on-the-interface");
}

template <std::size_t dim>
static void named_directions()
{
    auto c  = samurai::cartesian_directions<dim>();
    auto p  = samurai::positive_cartesian_directions<dim>();
    bool ok = true;
    for (std::size_t d = 0; d < dim; ++d)
    {
        ok = ok & (Wide<dim, 2 * dim>::count(c, d, 1) == 1) & (Wide<dim, 2 * dim>::count(c, d, -1) == 1);
        for (std::size_t x = 0; x < dim; ++x)
        {
            ok = ok & (p(d, x) == (x == d ? 1 : 0));
        }
    }
    vp_assert(ok, "the-cartesian-directions-are-all-there");
    auto z = samurai::center_only_stencil<dim>();
    for (std::size_t x = 0; x < dim; ++x)
    {
        ok = ok & (z(0, x) == 0);
    }
    vp_assert(ok, "the-centre-is-zero");
}

// searching: any stencil, any vector
template <std::size_t dim, std::size_t size>
static void searching()
{
    samurai::Stencil<size, dim> s;
    samurai::DirectionVector<dim> v;
    for (std::size_t d = 0; d < dim; ++d)
    {
        v[d] = vp_any_int("v", -9, 9);
        for (std::size_t k = 0; k < size; ++k)
        {
            s(k, d) = vp_any_int("s", -9, 9);
        }
    }
    int f = samurai::find(s, v), o = samurai::find_stencil_origin(s);
    auto is = [&](std::size_t k, bool zero)
    {
        bool ok = true;
        for (std::size_t d = 0; d < dim; ++d)
        {
            ok = ok & (s(k, d) == (zero ? 0 : v[d]));
        }
        return ok;
    };
    bool fo = (f >= -1) & (f < static_cast<int>(size)), oo = (o >= -1) & (o < static_cast<int>(size));
    for (std::size_t k = 0; k < size; ++k)
    {
        // the first one
        if (static_cast<int>(k) == f || static_cast<int>(k) < f || f < 0)
        {
            fo = fo & (is(k, false) == (static_cast<int>(k) == f));
        }
        if (static_cast<int>(k) == o || static_cast<int>(k) < o || o < 0)
        {
            oo = oo & (is(k, true) == (static_cast<int>(k) == o));
        }
    }
    vp_assert(fo, "find-gives-the-first-occurrence-or-none");
    vp_assert(oo, "the-origin-is-the-zero-vector");
    bool line = samurai::is_line_stencil(s);
    int axes  = 0;
    for (std::size_t d = 0; d < dim; ++d)
    {
        bool used = false;
        for (std::size_t k = 0; k < size; ++k)
        {
            used = used | (s(k, d) != 0);
        }
        axes += used ? 1 : 0;
    }
    vp_assert(line == (dim == 1 || axes <= 1), "a-line-stencil-uses-one-axis");
    int sum = 0;
    for (std::size_t d = 0; d < dim; ++d)
    {
        sum += v[d] < 0 ? -v[d] : v[d];
    }
    vp_assert(samurai::is_cartesian(v) == (sum == 1), "a-cartesian-direction-is-a-unit-vector");
    if (sum == 1)
    {
        vp_assert(v[samurai::find_direction_index(v)] != 0, "the-index-of-a-direction-is-its-axis");
    }
    auto io = samurai::in_out_stencil<dim>(v);
    bool ok = true;
    for (std::size_t d = 0; d < dim; ++d)
    {
        ok = ok & (io(0, d) == 0) & (io(1, d) == v[d]);
    }
    vp_assert(ok, "in-and-out");
}

// turning a stencil given along x: x goes to the direction, distances are kept
template <std::size_t dim, std::size_t size>
static void turning()
{
    samurai::Stencil<size, dim> s;
    for (std::size_t d = 0; d < dim; ++d)
    {
        for (std::size_t k = 0; k < size; ++k)
        {
            s(k, d) = vp_any_int("s", -4, 4);
        }
    }
    samurai::DirectionVector<dim> v;
    v.fill(0);
    std::size_t axis = static_cast<std::size_t>(vp_case("d", 0, static_cast<int>(dim) - 1));
    v[axis]          = 2 * vp_case("s", 0, 1) - 1;
    auto r           = samurai::convert_for_direction(s, v);
    bool ok = true, iso = true;
    for (std::size_t k = 0; k < size; ++k)
    {
        ok = ok & (r(k, axis) * v[axis] == s(k, 0)); // the component along
        int a = 0, b = 0;
        for (std::size_t d = 0; d < dim; ++d)
        {
            a += s(k, d) * s(k, d);
            b += r(k, d) * r(k, d);
        }
        iso = iso & (a == b);
    }
    vp_assert(ok, "the-component-along-x-goes-to-the-direction");
    vp_assert(iso, "lengths-are-kept");
    // twice from x to x: nothing changes
    samurai::DirectionVector<dim> x = along<dim>(0);
    auto same = samurai::convert_for_direction(s, x);
    bool id   = true;
    for (std::size_t k = 0; k < size; ++k)
    {
        for (std::size_t d = 0; d < dim; ++d)
        {
            id = id & (same(k, d) == s(k, d));
        }
    }
    vp_assert(id, "turned-to-x-it-is-unchanged");
}
