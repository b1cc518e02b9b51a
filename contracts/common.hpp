// helpers shared by the contracts: arbitrary cell sets with symbolic coordinates
#pragma once
#include <array>
#include <cmath>
#include <samurai/algorithm.hpp>
#include <samurai/level_cell_array.hpp>
#include <samurai/level_cell_list.hpp>
#include "vp.hpp"
#include "vp_std.hpp"

using i64 = int64_t;

template <std::size_t dim>
using Pt = std::array<int, dim>;

// a point (a cell position) with arbitrary coordinates
template <std::size_t dim>
Pt<dim> any_point(const char* n, int lo, int hi)
{
    Pt<dim> p{};
    for (std::size_t d = 0; d < dim; ++d)
    {
        p[d] = vp_any_int(n, lo, hi);
    }
    return p;
}

// a piece: an x-interval on one row
template <std::size_t dim>
struct Piece
{
    int s, e;
    std::array<int, dim> row; // row[d-1] is the coordinate in direction d

    bool has(const Pt<dim>& p) const
    {
        bool r = (s <= p[0]) & (p[0] < e);
        for (std::size_t d = 1; d < dim; ++d)
        {
            r = r & (row[d - 1] == p[d]);
        }
        return r;
    }
};

// an arbitrary set made of N pieces (they may overlap, touch, share rows)
template <std::size_t dim, std::size_t N>
struct SymSet
{
    std::array<Piece<dim>, N> p;
    std::size_t n = N;

    bool has(const Pt<dim>& q) const
    {
        bool r = false;
        for (std::size_t k = 0; k < n; ++k)
        {
            r = r | p[k].has(q);
        }
        return r;
    }

    template <class LCL>
    void fill(LCL& l) const
    {
        for (std::size_t k = 0; k < n; ++k)
        {
            typename LCL::index_yz_t idx;
            for (std::size_t d = 1; d < dim; ++d)
            {
                idx[d - 1] = p[k].row[d - 1];
            }
            l[idx].add_interval({p[k].s, p[k].e});
        }
    }
};

// maxlen > 0: the length of each piece is a case split in [1,maxlen]
template <std::size_t dim, std::size_t N>
SymSet<dim, N> any_set(int lo, int hi, int maxlen = 0, int nrows = 0)
{
    SymSet<dim, N> s;
    for (std::size_t k = 0; k < N; ++k)
    {
        s.p[k].s = vp_any_int("s", lo, hi);
        if (maxlen > 0)
        {
            s.p[k].e = s.p[k].s + vp_case("len", 1, maxlen);
        }
        else
        {
            s.p[k].e = vp_any_int("e", lo, hi);
            vp_assume(s.p[k].s < s.p[k].e);
        }
        for (std::size_t d = 1; d < dim; ++d)
        {
            s.p[k].row[d - 1] = nrows ? lo + vp_any_int("row", 0, nrows - 1) : vp_any_int("row", lo, hi);
        }
    }
    return s;
}

template <std::size_t dim>
bool lex_less(const Pt<dim>& a, const Pt<dim>& b)
{
    // z first, then y, then x
    bool r = false, eq = true;
    for (std::size_t d = dim; d-- > 0;)
    {
        r  = r | (eq & (a[d] < b[d]));
        eq = eq & (a[d] == b[d]);
    }
    return r;
}

template <std::size_t dim, class I, class Idx>
bool iv_has(const I& i, const Idx& idx, const Pt<dim>& p)
{
    bool r = (i.start <= p[0]) & (p[0] < i.end);
    for (std::size_t d = 1; d < dim; ++d)
    {
        r = r & (idx[d - 1] == p[d]);
    }
    return r;
}
