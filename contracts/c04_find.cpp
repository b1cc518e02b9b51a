// C04: looking a cell up finds it exactly when it is there, with its storage index
#include "common.hpp"
#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>

static constexpr int B = 1 << 26;

template <std::size_t dim, std::size_t N>
static void lookup()
{
    using LCL = samurai::LevelCellList<dim>;
    using LCA = samurai::LevelCellArray<dim>;
    auto set  = any_set<dim, N>(-B, B);
    auto q    = any_point<dim>("q", -B - 2, B + 2);
    LCL l(5);
    set.fill(l);
    LCA a(l);
    a.update_index();
    typename LCA::all_coord_type c;
    for (std::size_t d = 0; d < dim; ++d)
    {
        c[d] = q[d];
    }
    i64 rank = -1, row = -1, k = 0;
    samurai::for_each_interval(a,
                               [&](std::size_t, const auto& i, const auto& idx)
                               {
                                   bool h = iv_has<dim>(i, idx, q);
                                   rank   = h ? i.index + q[0] : rank;
                                   row    = h ? k : row;
                                   ++k;
                               });
    i64 found = samurai::find(a, c);
    bool in   = set.has(q);
    vp_assert((found >= 0) == in, "found-iff-present");
    vp_assert(found == row, "finds-the-interval-of-the-cell");
    if (in)
    {
        vp_assert(a.get_index(c) == rank, "index-is-rank");
        const auto& i = a.get_interval(c);
        vp_assert(i.contains(q[0]), "interval-contains");
        auto cell = [&]
        {
            if constexpr (dim == 1)
            {
                vp_assert(a.get_index(q[0]) == rank, "index-is-rank-coords");
                vp_assert(a.get_interval({q[0], q[0] + 1}) == i, "interval-coords");
                return a.get_cell(q[0]);
            }
            else if constexpr (dim == 2)
            {
                vp_assert(a.get_index(q[0], q[1]) == rank, "index-is-rank-coords");
                vp_assert(a.get_interval({q[0], q[0] + 1}, q[1]) == i, "interval-coords");
                return a.get_cell(q[0], q[1]);
            }
            else
            {
                vp_assert(a.get_index(q[0], q[1], q[2]) == rank, "index-is-rank-coords");
                vp_assert(a.get_interval({q[0], q[0] + 1}, q[1], q[2]) == i, "interval-coords");
                return a.get_cell(q[0], q[1], q[2]);
            }
        }();
        bool same = (cell.index == rank) & (cell.level == 5) & vp_eq(cell.length, 1. / 32);
        for (std::size_t d = 0; d < dim; ++d)
        {
            same = same & (cell.indices[d] == q[d]);
        }
        vp_assert(same, "get_cell");
        vp_cover("present");
    }
    else
    {
        vp_cover("absent");
    }
}

//@opt vc_lookup_1d bound=at-most-3-pieces
VC(lookup_1d)
{
    lookup<1, 3>();
}

//@opt vc_lookup_2d bound=at-most-3-pieces
VC(lookup_2d)
{
    lookup<2, 3>();
}

//@opt vc_lookup_3d bound=at-most-2-pieces
VC(lookup_3d)
{
    lookup<3, 2>();
}

//@opt vc_lookup_3d_deep bound=at-most-3-pieces tier=thorough time=600
VC(lookup_3d_deep)
{
    lookup<3, 3>();
}

// many intervals on one row: every search depth of the bisection up to 9 intervals
//@opt vc_lookup_row bound=at most 9 intervals on the row
VC(lookup_row)
{
    using LCL = samurai::LevelCellList<1>;
    using LCA = samurai::LevelCellArray<1>;
    int n = vp_case("n", 1, 9);
    LCL l(5);
    int x    = vp_any_int("x", -B, B);
    int prev = vp_any_int("s0", -B, 0) - 1;
    i64 in = -1, row = -1, cnt = 0;
    for (int k = 0; k < n; ++k)
    {
        int s = prev + vp_any_int("gap", 1, 1000), e = s + vp_any_int("len", 1, 1000);
        l[{}].add_interval({s, e});
        bool h = (s <= x) & (x < e);
        in     = h ? cnt + x - s : in;
        row    = h ? k : row;
        cnt += e - s;
        prev = e;
    }
    LCA a(l);
    a.update_index();
    vp_assert(samurai::find(a, {x}) == row, "found-iff-present");
    vp_assert(static_cast<i64>(samurai::find_on_dim(a, 0, 0, a[0].size(), x)) == row, "find_on_dim");
    if (row >= 0)
    {
        vp_assert(a.get_index(x) == in, "index-is-rank");
    }
}

// through a multi-level array
template <std::size_t dim>
static void multilevel()
{
    using CL = samurai::CellList<dim>;
    using CA = samurai::CellArray<dim>;
    auto s = any_set<dim, 1>(-B, B), t = any_set<dim, 1>(-B, B);
    auto q = any_point<dim>("q", -B, B);
    CL cl;
    s.fill(cl[2]);
    t.fill(cl[4]);
    CA a(cl);
    bool up = vp_any_bool("finer");
    std::size_t level = up ? 4 : 2;
    vp_assume(up ? t.has(q) : s.has(q));
    i64 rank = up ? i64(s.p[0].e) - s.p[0].s + q[0] - t.p[0].s : i64(q[0]) - s.p[0].s;
    xt::xtensor_fixed<int, xt::xshape<dim>> c;
    for (std::size_t d = 0; d < dim; ++d)
    {
        c[d] = q[d];
    }
    vp_assert(a.get_index(level, c) == rank, "index-is-rank-over-levels");
    auto cell = a.get_cell(level, c);
    vp_assert((cell.index == rank) & (cell.level == level) & vp_eq(cell.length, up ? 1. / 16 : 1. / 4), "cell");
    vp_assert(a.get_interval(level, c).contains(q[0]), "interval-contains");
    if constexpr (dim == 2)
    {
        vp_assert(a.get_index(level, q[0], q[1]) == rank, "index-coords");
        vp_assert(a.get_cell(level, q[0], q[1]).index == rank, "cell-coords");
        vp_assert(a.get_interval(level, {q[0], q[0] + 1}, q[1]).contains(q[0]), "interval-coords");
    }
}

//@opt vc_multilevel_1d bound=1-piece-per-level
VC(multilevel_1d)
{
    multilevel<1>();
}

//@opt vc_multilevel_2d bound=1-piece-per-level
VC(multilevel_2d)
{
    multilevel<2>();
}

//@opt vc_multilevel_3d bound=1-piece-per-level
VC(multilevel_3d)
{
    multilevel<3>();
}
