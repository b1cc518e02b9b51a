// A contract stand-in for the mesh a Field lives on.
// Field only asks its mesh for the storage interval of a row (mesh.get_interval, under contract in C04): "the x-interval of the
// row that contains the given interval; cell x of that row is stored at index + x, and different rows have disjoint storage".
// WinMesh satisfies exactly that contract on a window of cells around an arbitrary (symbolic) position of an arbitrary level; an
// access outside the window is a violated obligation (the operator reads or writes a cell it has no right to touch).
#pragma once
#include "common.hpp"
#include <samurai/field.hpp>

template <std::size_t dim_, std::size_t order = 1>
struct WinMesh
{
    static constexpr std::size_t dim = dim_;
    using interval_t                 = samurai::Interval<int, long long>;
    using ca_type                    = samurai::CellArray<dim>;
    using cl_type                    = samurai::CellList<dim>;
    using cell_t                     = samurai::Cell<dim, interval_t>;
    using mesh_t                     = WinMesh;
    enum class mesh_id_t
    {
        cells            = 0,
        cells_and_ghosts = 1,
        reference        = 2
    };

    struct config
    {
        static constexpr std::size_t prediction_order  = order;
        static constexpr std::size_t max_stencil_width = 1;
        static constexpr std::size_t graduation_width  = 1;
    };

    struct Window
    {
        std::array<int, 3> base{}; // symbolic position of the window on this level
        std::array<int, 3> lo{}, hi{}; // concrete extent around it: [base+lo, base+hi[
        std::size_t off = 0;
        bool used       = false;

        std::size_t size() const
        {
            std::size_t n = 1;
            for (std::size_t d = 0; d < dim; ++d)
            {
                n *= static_cast<std::size_t>(hi[d] - lo[d]);
            }
            return n;
        }
    };

    std::size_t level0 = 0; // symbolic; windows on level0-1, level0, level0+1
    std::array<Window, 3> w;
    std::size_t total = 0;
    double scale      = 1.;
    mutable std::array<interval_t, 64> ring;
    mutable std::size_t next = 0;

    void window(int dl, const std::array<int, 3>& base, const std::array<int, 3>& lo, const std::array<int, 3>& hi)
    {
        auto& x = w[static_cast<std::size_t>(dl + 1)];
        x.base  = base;
        x.lo    = lo;
        x.hi    = hi;
        x.used  = true;
        x.off   = total;
        total += x.size();
    }

    std::size_t nb_cells() const
    {
        return total;
    }

    double scaling_factor() const
    {
        return scale;
    }

    // storage number of the cell at a concrete offset from the base of the window
    std::size_t at(int dl, int x, int y = 0, int z = 0) const
    {
        auto& v = w[static_cast<std::size_t>(dl + 1)];
        std::array<int, 3> o{x, y, z};
        std::size_t n = 0;
        for (std::size_t d = dim; d-- > 0;)
        {
            n = n * static_cast<std::size_t>(v.hi[d] - v.lo[d]) + static_cast<std::size_t>(o[d] - v.lo[d]);
        }
        return v.off + n;
    }

    const interval_t& row(std::size_t level, const interval_t& i, int y, int z) const
    {
        i64 dl  = vp_concretise(static_cast<i64>(level) - static_cast<i64>(level0));
        bool ok = (dl >= -1) && (dl <= 1) && w[static_cast<std::size_t>(dl + 1)].used;
        vp_assert(ok, "only-the-levels-involved-are-accessed");
        auto& v = w[static_cast<std::size_t>(dl + 1)];
        std::array<i64, 3> o{0, 0, 0};
        std::array<int, 3> p{i.start, y, z};
        for (std::size_t d = 0; d < dim; ++d)
        {
            o[d] = vp_concretise(static_cast<i64>(p[d]) - static_cast<i64>(v.base[d]));
            ok   = ok && o[d] >= v.lo[d] && o[d] < v.hi[d];
        }
        i64 len = vp_concretise(static_cast<i64>(i.end) - static_cast<i64>(i.start));
        i64 st  = vp_concretise(i.step);
        ok      = ok && len > 0 && st > 0 && o[0] + ((len - 1) / st) * st < v.hi[0]; // the last cell visited
        vp_assert(ok, "only-the-neighbourhood-is-accessed");
        if (!ok)
        {
            vp_assume(false);
        }
        auto& r = ring[next];
        next    = (next + 1) % ring.size();
        std::size_t n = at(static_cast<int>(dl), static_cast<int>(o[0]), static_cast<int>(o[1]), static_cast<int>(o[2]));
        r.start = v.base[0] + v.lo[0];
        r.end   = v.base[0] + v.hi[0];
        r.step  = 1;
        r.index = static_cast<long long>(n) - i.start;
        return r;
    }

    const interval_t& get_interval(std::size_t level, const interval_t& i) const
    {
        return row(level, i, 0, 0);
    }

    const interval_t& get_interval(std::size_t level, const interval_t& i, int j) const
    {
        return row(level, i, j, 0);
    }

    const interval_t& get_interval(std::size_t level, const interval_t& i, int j, int k) const
    {
        return row(level, i, j, k);
    }

    template <class E>
    const interval_t& get_interval(std::size_t level, const interval_t& i, const xt::xexpression<E>& e) const
    {
        xt::xtensor_fixed<int, xt::xshape<dim - 1>> idx = e.derived_cast();
        if constexpr (dim == 1)
        {
            return row(level, i, 0, 0);
        }
        else if constexpr (dim == 2)
        {
            return row(level, i, idx[0], 0);
        }
        else
        {
            return row(level, i, idx[0], idx[1]);
        }
    }
};
