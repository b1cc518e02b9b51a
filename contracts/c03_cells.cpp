// C03: cell containers hold exactly the cells put in, each once, in order, contiguously numbered
#include "common.hpp"
#include <set>
#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>
#include <samurai/subset/subset_op.hpp>

static constexpr int B = 1 << 26;

// cell list -> level cell array, by intervals
template <std::size_t dim, std::size_t N>
static void level_array()
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    auto set  = any_set<dim, N>(-B, B);
    auto q    = any_point<dim>("q", -B, B);
    LCL l(5);
    vp_assert(l.empty(), "list-starts-empty");
    set.fill(l);
    LCA a(l);
    a.update_index();
    vp_assert(a.level() == 5, "level");
    vp_assert(!a.empty() & !l.empty(), "not-empty");
    bool in = false;
    i64 n = 0, nint = 0, at = -1;
    bool ordered = true, numbered = true, canon = true, once = true;
    Pt<dim> last{};
    samurai::for_each_interval(a,
                               [&](std::size_t level, const auto& i, const auto& idx)
                               {
                                   Pt<dim> f{};
                                   f[0] = i.start;
                                   for (std::size_t d = 1; d < dim; ++d)
                                   {
                                       f[d] = idx[d - 1];
                                   }
                                   bool samerow = nint > 0;
                                   for (std::size_t d = 1; d < dim; ++d)
                                   {
                                       samerow = samerow & (f[d] == last[d]);
                                   }
                                   canon    = canon & (i.start < i.end) & (i.step == 1) & vp_implies(samerow, last[0] < f[0]);
                                   ordered  = ordered & ((nint == 0) | lex_less<dim>(last, f)) & (level == 5);
                                   numbered = numbered & (i.index + i.start == n);
                                   bool h   = iv_has<dim>(i, idx, q);
                                   once     = once & !(in & h);
                                   in       = in | h;
                                   at       = h ? i.index + q[0] : at;
                                   n += i.end - i.start;
                                   ++nint;
                                   last    = f;
                                   last[0] = i.end; // one past the last cell
                               });
    vp_assert(in == set.has(q), "same-cells");
    vp_assert(once, "each-cell-once");
    vp_assert(ordered, "lexicographic-order");
    vp_assert(canon, "maximal-intervals");
    vp_assert(numbered, "contiguous-numbering");
    vp_assert(static_cast<i64>(a.nb_cells()) == n, "nb_cells");
    vp_assert(static_cast<i64>(a[0].size()) == nint, "nb-x-intervals");
    vp_assert(in == ((at >= 0) & (at < n)), "index-in-range");
    // equality: the same set built again in another order compares equal; copies too
    LCL l2(5);
    auto rev = set;
    for (std::size_t k = 0; k < N; ++k)
    {
        rev.p[k] = set.p[N - 1 - k];
    }
    rev.fill(l2);
    LCA b(l2), c;
    b.update_index();
    c = a;
    vp_assert(a == b, "equal-iff-same-cells");
    vp_assert(a == c, "copy-equal");
    // reverse iteration visits the same intervals backwards
    i64 m      = n;
    bool back  = true;
    auto first = a.rbegin();
    for (auto it = a.rbegin(); it != a.rend(); ++it)
    {
        m -= static_cast<i64>(it->size());
        back = back & (it->index + it->start == m);
    }
    vp_assert(back & (m == 0), "reverse-iteration");
}

//@opt vc_level_array_1d bound=at-most-3-pieces prop=C03
VC(level_array_1d)
{
    level_array<1, 3>();
}

//@opt vc_level_array_2d bound=at-most-3-pieces prop=C03
VC(level_array_2d)
{
    level_array<2, 3>();
}

//@opt vc_level_array_3d bound=at-most-2-pieces prop=C03
VC(level_array_3d)
{
    level_array<3, 2>();
}

//@opt vc_level_array_3d_deep bound=at-most-3-pieces prop=C03 tier=thorough time=800
VC(level_array_3d_deep)
{
    level_array<3, 3>();
}

// [p.s, p.e[ on its row is covered by the (at most two) pieces of s
template <std::size_t dim>
static bool covered(const Piece<dim>& p, const SymSet<dim, 2>& s)
{
    auto row = [&](int k)
    {
        bool r = true;
        for (std::size_t d = 1; d < dim; ++d)
        {
            r = r & (s.p[k].row[d - 1] == p.row[d - 1]);
        }
        return r;
    };
    auto one = [&](int k, int a, int b)
    {
        return row(k) & (s.p[k].s <= a) & (s.p[k].e >= b);
    };
    bool r = one(0, p.s, p.e) | one(1, p.s, p.e);
    for (int k = 0; k < 2; ++k)
    {
        int o = 1 - k;
        // k covers the beginning, o the rest
        r = r | (row(k) & row(o) & (s.p[k].s <= p.s) & (s.p[o].s <= s.p[k].e) & (s.p[o].e >= p.e) & (s.p[k].e >= p.s));
    }
    return r;
}

// two sets compare equal exactly when they hold the same cells
template <std::size_t dim, std::size_t N>
static void equality()
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    auto s = any_set<dim, N>(-B, B), t = any_set<dim, N>(-B, B);
    auto q = any_point<dim>("q", -B, B);
    LCL l(3), m(3);
    s.fill(l);
    t.fill(m);
    LCA a(l), b(m);
    if (a == b)
    {
        vp_assert(s.has(q) == t.has(q), "equal-implies-same-cells");
        vp_cover("equal");
    }
    else
    {
        // a different x-interval or row must exist: some cell of one is not in the other
        bool same = true;
        for (std::size_t k = 0; k < N; ++k)
        {
            // with at most 2 pieces, all of [s,e[ is in the other set iff no gap point is missed
            same = same & covered(s.p[k], t) & covered(t.p[k], s);
        }
        vp_assert(!same, "different-implies-some-cell-differs");
    }
}

//@opt vc_equality_1d bound=at-most-2-pieces prop=C03
VC(equality_1d)
{
    equality<1, 2>();
}

//@opt vc_equality_2d bound=at-most-2-pieces prop=C03
VC(equality_2d)
{
    equality<2, 2>();
}

// the same for sets of separate cells distributed over few rows (the same x-intervals can be split differently into rows)
template <std::size_t dim, std::size_t N>
static void equality_cells()
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    auto s = any_set<dim, N>(-B, B, 1, 2), t = any_set<dim, N>(-B, B, 1, 2);
    int la = dim == 3 ? vp_case("level", 3, 4) : 3;
    LCL l(3), m(static_cast<std::size_t>(la));
    s.fill(l);
    t.fill(m);
    LCA a(l), b(m);
    if (vp_any_bool("numbered"))
    {
        a.update_index();
        b.update_index();
    }
    bool same = la == 3;
    for (std::size_t k = 0; k < N; ++k)
    {
        Pt<dim> x{}, y{};
        x[0] = s.p[k].s;
        y[0] = t.p[k].s;
        for (std::size_t d = 1; d < dim; ++d)
        {
            x[d] = s.p[k].row[d - 1];
            y[d] = t.p[k].row[d - 1];
        }
        same = same & t.has(x) & s.has(y);
    }
    vp_assert((a == b) == same, "equal-exactly-when-same-cells");
}

//@opt vc_equality_cells_2d bound=3-single-cells-on-2-rows prop=C03 cost=5
VC(equality_cells_2d)
{
    equality_cells<2, 3>();
}

//@opt vc_equality_cells_3d bound=2-single-cells-on-2x2-rows prop=C03 cost=5
VC(equality_cells_3d)
{
    equality_cells<3, 2>();
}

// larger random sets, natively: equality of arrays against equality of the sets of cells
template <std::size_t dim>
static void equality_random()
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    LCL l(3), m(3);
    std::set<Pt<dim>> s, t;
    for (int w = 0; w < 2; ++w)
    {
        int n = vp_case("n", 1, 4);
        for (int k = 0; k < n; ++k)
        {
            typename LCL::index_yz_t idx;
            Pt<dim> p{};
            for (std::size_t d = 1; d < dim; ++d)
            {
                p[d]       = vp_case("row", 0, 1);
                idx[d - 1] = p[d];
            }
            int x = 2 * vp_case("x", -1, 2);
            (w ? m : l)[idx].add_interval({x, x + 1});
            p[0] = x;
            (w ? t : s).insert(p);
        }
    }
    LCA a(l), b(m);
    vp_assert((a == b) == (s == t), "equal-exactly-when-same-cells");
}

BC(equality_random_2d)
{
    equality_random<2>();
}

BC(equality_random_3d)
{
    equality_random<3>();
}

// a multi-level cell array: numbering runs through the levels, from the coarsest to the finest
template <std::size_t dim>
static void cell_array()
{
    using CL = samurai::CellList<dim>;
    using CA = samurai::CellArray<dim>;
    int lev0 = vp_case("level0", 0, 2), lev1 = vp_case("level1", 0, 20);
    auto s = any_set<dim, 1>(-B, B), t = any_set<dim, 1>(-B, B);
    auto q      = any_point<dim>("q", -B, B);
    int ql      = lev0 == 0 ? lev1 : lev0;
    CL cl;
    s.fill(cl[static_cast<std::size_t>(lev0)]);
    t.fill(cl[static_cast<std::size_t>(lev1)]);
    CA a(cl);
    std::size_t lo = static_cast<std::size_t>(std::min(lev0, lev1)), hi = static_cast<std::size_t>(std::max(lev0, lev1));
    vp_assert((a.min_level() == lo) & (a.max_level() == hi), "min-max-level");
    i64 n = 0;
    bool numbered = true, in = false, once = true, mono = true;
    std::size_t prev = 0;
    samurai::for_each_interval(a,
                               [&](std::size_t level, const auto& i, const auto& idx)
                               {
                                   numbered = numbered & (i.index + i.start == n);
                                   n += i.end - i.start;
                                   mono   = mono & (prev <= level);
                                   prev   = level;
                                   bool h = (level == static_cast<std::size_t>(ql)) & iv_has<dim>(i, idx, q);
                                   once   = once & !(in & h);
                                   in     = in | h;
                               });
    bool expect = ((ql == lev0) & s.has(q)) | ((ql == lev1) & t.has(q));
    vp_assert(in == expect, "same-cells");
    vp_assert(once, "each-cell-once");
    vp_assert(mono, "levels-in-order");
    vp_assert(numbered, "contiguous-numbering");
    vp_assert(static_cast<i64>(a.nb_cells()) == n, "nb_cells");
    std::size_t sum = 0;
    samurai::for_each_level(std::as_const(a),
                            [&](std::size_t level)
                            {
                                sum += a.nb_cells(level);
                                vp_assert(!a[level].empty(), "for_each_level-non-empty");
                            });
    vp_assert(static_cast<i64>(sum) == n, "nb_cells-per-level");
    // iterating over the whole array with iterators visits the same sequence
    i64 m = 0;
    bool ok = true;
    for (auto it = a.cbegin(); it != a.cend(); ++it)
    {
        ok = ok & (it->index + it->start == m);
        m += static_cast<i64>(it->size());
    }
    vp_assert(ok & (m == n), "iterator-visits-all");
    std::size_t lastlevel = 20;
    for (auto it = a.rbegin(); it != a.rend(); ++it)
    {
        m -= static_cast<i64>(it->size());
        ok        = ok & (it->index + it->start == m) & (it.level() <= lastlevel);
        lastlevel = it.level();
    }
    vp_assert(ok & (m == 0), "reverse-iterator-visits-all");
    CA b;
    b = a;
    vp_assert(a == b, "copy-equal");
    vp_assert(b.nb_cells() == a.nb_cells(), "copy-nb_cells");
}

//@opt vc_cell_array_1d bound=2-levels-with-1-piece-each prop=C03 cost=5
VC(cell_array_1d)
{
    cell_array<1>();
}

//@opt vc_cell_array_2d bound=2-levels-with-1-piece-each prop=C03 cost=5
VC(cell_array_2d)
{
    cell_array<2>();
}

// iteration over the cells of a subset: coordinates, storage number in the whole, level and size
template <std::size_t dim, std::size_t N>
static void each_subset_cell(int maxlen)
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    auto set  = any_set<dim, N>(-B, B, maxlen);
    auto part = any_set<dim, 1>(-B, B);
    auto q    = any_point<dim>("q", -B, B);
    LCL l(4), m(4);
    set.fill(l);
    part.fill(m);
    LCA a(l), b(m);
    a.update_index();
    i64 at = -1, rank = -1, k = 0;
    samurai::for_each_cell(a,
                           [&](const auto& cell)
                           {
                               bool h = true;
                               for (std::size_t d = 0; d < dim; ++d)
                               {
                                   h = h & (cell.indices[d] == q[d]);
                               }
                               rank = h ? k : rank;
                               ++k;
                           });
    bool in = false, once = true, meta = true;
    samurai::for_each_cell(a, samurai::intersection(a, b),
                           [&](const auto& cell)
                           {
                               bool h = true;
                               for (std::size_t d = 0; d < dim; ++d)
                               {
                                   h = h & (cell.indices[d] == q[d]);
                               }
                               once = once & !(in & h);
                               in   = in | h;
                               at   = h ? static_cast<i64>(cell.index) : at;
                               meta = meta & (cell.level == 4) & vp_eq(cell.length, 1. / 16);
                           });
    vp_assert(in == (set.has(q) & part.has(q)), "the-cells-of-the-subset");
    vp_assert(once, "each-cell-of-the-subset-once");
    vp_assert(vp_implies(in, at == rank), "the-storage-number-in-the-whole");
    vp_assert(meta, "cell-level-and-length");
}

//@opt vc_each_subset_cell_1d bound=2-pieces-of-at-most-2-cells prop=C03
VC(each_subset_cell_1d)
{
    each_subset_cell<1, 2>(2);
}

//@opt vc_each_subset_cell_2d bound=2-pieces-of-at-most-2-cells prop=C03
VC(each_subset_cell_2d)
{
    each_subset_cell<2, 2>(2);
}

//@opt vc_each_subset_cell_3d bound=2-pieces-of-one-cell prop=C03
VC(each_subset_cell_3d)
{
    each_subset_cell<3, 2>(1);
}

// iteration cell by cell
template <std::size_t dim, std::size_t N>
static void each_cell(int maxlen)
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    auto set  = any_set<dim, N>(-B, B, maxlen);
    auto q    = any_point<dim>("q", -B, B);
    LCL l(4);
    set.fill(l);
    LCA a(l);
    a.update_index();
    i64 n = 0;
    bool ordered = true, numbered = true, in = false, once = true, meta = true;
    Pt<dim> last{};
    samurai::for_each_cell(a,
                           [&](const auto& cell)
                           {
                               Pt<dim> f{};
                               bool h = true;
                               for (std::size_t d = 0; d < dim; ++d)
                               {
                                   f[d] = cell.indices[d];
                                   h    = h & (f[d] == q[d]);
                               }
                               ordered  = ordered & ((n == 0) | lex_less<dim>(last, f));
                               numbered = numbered & (cell.index == n);
                               meta     = meta & (cell.level == 4) & vp_eq(cell.length, 1. / 16);
                               once     = once & !(in & h);
                               in       = in | h;
                               last     = f;
                               ++n;
                           });
    vp_assert(in == set.has(q), "same-cells");
    vp_assert(once, "each-cell-once");
    vp_assert(ordered, "lexicographic-order");
    vp_assert(numbered, "cell-index-is-rank");
    vp_assert(meta, "cell-level-and-length");
    vp_assert(static_cast<i64>(a.nb_cells()) == n, "nb_cells");
}

//@opt vc_each_cell_1d bound=3-pieces-of-at-most-3-cells prop=C03
VC(each_cell_1d)
{
    each_cell<1, 3>(3);
}

//@opt vc_each_cell_2d bound=3-pieces-of-at-most-2-cells prop=C03
VC(each_cell_2d)
{
    each_cell<2, 3>(2);
}

//@opt vc_each_cell_3d bound=2-pieces-of-at-most-2-cells prop=C03
VC(each_cell_3d)
{
    each_cell<3, 2>(2);
}

// extents and random access
template <std::size_t dim, std::size_t N>
static void extents()
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    auto set  = any_set<dim, N>(-B, B);
    LCL l(4);
    set.fill(l);
    LCA a(l);
    a.update_index();
    auto mn = a.min_indices();
    auto mx = a.max_indices();
    auto mm = a.minmax_indices();
    for (std::size_t d = 0; d < dim; ++d)
    {
        bool low = true, up = true, hitl = false, hitu = false;
        for (std::size_t k = 0; k < N; ++k)
        {
            int s = d == 0 ? set.p[k].s : set.p[k].row[d == 0 ? 0 : d - 1];
            int e = d == 0 ? set.p[k].e : set.p[k].row[d == 0 ? 0 : d - 1] + 1;
            low   = low & (mn[d] <= s);
            up    = up & (mx[d] >= e);
            hitl  = hitl | (mn[d] == s);
            hitu  = hitu | (mx[d] == e);
        }
        vp_assert(low & hitl, "min-index");
        vp_assert(up & hitu, "max-index");
        vp_assert((mm[d].first == mn[d]) & (mm[d].second == mx[d]), "minmax");
    }
    // random access: begin()+k is the k-th interval with its row, end()-begin() the number of them
    i64 k       = 0;
    bool ok     = true;
    i64 n       = static_cast<i64>(a[0].size());
    auto b      = a.cbegin();
    auto e      = a.cend();
    ok          = ok & (e - b == n);
    for (auto it = a.cbegin(); it != a.cend(); ++it, ++k)
    {
        auto j = b + k;
        ok     = ok & (j->start == it->start) & (j->end == it->end) & (it - b == k);
        auto r = e - (n - k);
        ok     = ok & (r->start == it->start);
        for (std::size_t d = 1; d < dim; ++d)
        {
            ok = ok & (j.index()[d - 1] == it.index()[d - 1]) & (r.index()[d - 1] == it.index()[d - 1]);
        }
    }
    vp_assert(ok & (k == n), "random-access");
}

//@opt vc_extents_1d bound=at-most-3-pieces prop=C03
VC(extents_1d)
{
    extents<1, 3>();
}

//@opt vc_extents_2d bound=at-most-3-pieces prop=C03
VC(extents_2d)
{
    extents<2, 3>();
}

//@opt vc_extents_3d bound=at-most-2-pieces prop=C03
VC(extents_3d)
{
    extents<3, 2>();
}

// adding cells one by one
template <std::size_t dim>
static void cell_by_cell()
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    LCL l(4);
    Pt<dim> c[3];
    auto q  = any_point<dim>("q", -B, B);
    bool ex = false;
    for (auto& p : c)
    {
        p = any_point<dim>("c", -B, B);
        samurai::Cell<dim, typename LCL::interval_t> cell;
        bool h = true;
        for (std::size_t d = 0; d < dim; ++d)
        {
            cell.indices[d] = p[d];
            h               = h & (p[d] == q[d]);
        }
        ex = ex | h;
        l.add_cell(cell);
    }
    LCA a(l);
    a.update_index();
    bool in = false;
    samurai::for_each_interval(a,
                               [&](std::size_t, const auto& i, const auto& idx)
                               {
                                   in = in | iv_has<dim>(i, idx, q);
                               });
    vp_assert(in == ex, "same-cells");
}

//@opt vc_cell_by_cell_1d bound=3-cells prop=C03
VC(cell_by_cell_1d)
{
    cell_by_cell<1>();
}

//@opt vc_cell_by_cell_2d bound=3-cells prop=C03
VC(cell_by_cell_2d)
{
    cell_by_cell<2>();
}

//@opt vc_cell_by_cell_3d bound=3-cells prop=C03
VC(cell_by_cell_3d)
{
    cell_by_cell<3>();
}

// construction from an integer box
template <std::size_t dim>
static void from_box()
{
    using LCA  = samurai::LevelCellArray<dim>;
    using box_t = samurai::Box<int, dim>;
    typename box_t::point_t lo, hi;
    i64 vol = 1;
    for (std::size_t d = 0; d < dim; ++d)
    {
        lo[d] = vp_any_int("lo", -1000, 1000);
        hi[d] = lo[d] + (d == 0 ? vp_any_int("w", 1, 1000) : vp_case("w", 1, 3));
        vol *= hi[d] - lo[d];
    }
    auto q = any_point<dim>("q", -2000, 2000);
    LCA a(6, box_t(lo, hi));
    bool in = false, numbered = true, ex = true;
    i64 n = 0;
    samurai::for_each_interval(a,
                               [&](std::size_t level, const auto& i, const auto& idx)
                               {
                                   in       = in | iv_has<dim>(i, idx, q);
                                   numbered = numbered & (i.index + i.start == n) & (level == 6);
                                   n += i.end - i.start;
                               });
    for (std::size_t d = 0; d < dim; ++d)
    {
        ex = ex & (lo[d] <= q[d]) & (q[d] < hi[d]);
    }
    vp_assert(in == ex, "cells-of-the-box");
    vp_assert(n == vol, "number-of-cells");
    vp_assert(numbered, "contiguous-numbering");
    samurai::LevelCellList<dim> l(6);
    samurai::for_each_interval(a,
                               [&](std::size_t, const auto& i, const auto& idx)
                               {
                                   l[idx].add_interval(i);
                               });
    LCA b(l);
    b.update_index();
    vp_assert(a == b, "same-representation-as-from-a-list");
}

//@opt vc_from_box_1d prop=C03
VC(from_box_1d)
{
    from_box<1>();
}

//@opt vc_from_box_2d bound=at-most-3-rows prop=C03
VC(from_box_2d)
{
    from_box<2>();
}

//@opt vc_from_box_3d bound=at-most-3x3-rows prop=C03
VC(from_box_3d)
{
    from_box<3>();
}
