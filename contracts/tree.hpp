// Meshes of leaves: a generator (every choice is a vp_ choice, so the same code enumerates, samples or proves) and an oracle that
// knows the cells by coordinates only.
#pragma once
#include "common.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
#include <vector>

// a cell: level and coordinates; positions are relative to the base of the tree
struct Node
{
    int level;
    int x[3];

    bool operator==(const Node& o) const
    {
        return level == o.level && x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2];
    }

    bool operator<(const Node& o) const
    {
        if (level != o.level)
        {
            return level < o.level;
        }
        for (int d = 2; d >= 0; --d)
        {
            if (x[d] != o.x[d])
            {
                return x[d] < o.x[d];
            }
        }
        return false;
    }
};

static int shl(int x, int n)
{
    return n >= 0 ? x * (1 << n) : static_cast<int>(vp_fdiv(x, 1 << -n));
}

// position of a cell on another level (the cell that contains its lower corner)
static Node on_level(const Node& n, int level)
{
    Node r{level, {0, 0, 0}};
    for (int d = 0; d < 3; ++d)
    {
        r.x[d] = shl(n.x[d], level - n.level);
    }
    return r;
}

// a is b or lies in b
static bool inside(const Node& a, const Node& b)
{
    return a.level >= b.level && on_level(a, b.level) == b;
}

struct NodeSet
{
    std::vector<Node> v;
    // an index over v (open addressing), kept up to date by has()
    mutable std::vector<int> table;
    mutable std::size_t indexed = 0;

    static std::size_t hash(const Node& n)
    {
        return static_cast<std::size_t>(n.x[0] + 64) + 37u * static_cast<std::size_t>(n.x[1] + 64) + 1201u * static_cast<std::size_t>(n.x[2] + 64)
             + 331u * static_cast<std::size_t>(n.level);
    }

    void index(const Node& n, int k) const
    {
        std::size_t m = table.size() - 1, h = hash(n) & m;
        while (table[h] >= 0)
        {
            h = (h + 1) & m;
        }
        table[h] = k;
    }

    // where n is in v; -1 if it is not
    int find(const Node& n) const
    {
        if (v.size() <= 8)
        {
            for (std::size_t k = 0; k < v.size(); ++k)
            {
                if (v[k] == n)
                {
                    return static_cast<int>(k);
                }
            }
            return -1;
        }
        if (indexed != v.size())
        {
            if (indexed > v.size() || 2 * v.size() > table.size())
            {
                std::size_t m = 32;
                while (m < 4 * v.size())
                {
                    m *= 2;
                }
                table.assign(m, -1);
                indexed = 0;
            }
            for (; indexed < v.size(); ++indexed)
            {
                index(v[indexed], static_cast<int>(indexed));
            }
        }
        std::size_t m = table.size() - 1, h = hash(n) & m;
        while (table[h] >= 0)
        {
            if (v[static_cast<std::size_t>(table[h])] == n)
            {
                return table[h];
            }
            h = (h + 1) & m;
        }
        return -1;
    }

    bool has(const Node& n) const
    {
        return find(n) >= 0;
    }

    void changed()
    {
        table.clear();
        indexed = v.size() + 1;
    }

    void add(const Node& n)
    {
        if (!has(n))
        {
            v.push_back(n);
        }
    }

    bool covers(const Node& n) const // n lies in one of the cells
    {
        for (const auto& a : v)
        {
            if (inside(n, a))
            {
                return true;
            }
        }
        return false;
    }

    bool below(const Node& n) const // one of the cells lies strictly in n
    {
        for (const auto& a : v)
        {
            if (a.level > n.level && inside(a, n))
            {
                return true;
            }
        }
        return false;
    }
};

template <class F>
static void around(const Node& n, std::size_t dim, int w, F&& f)
{
    int wy = dim > 1 ? w : 0, wz = dim > 2 ? w : 0;
    for (int c = -wz; c <= wz; ++c)
    {
        for (int b = -wy; b <= wy; ++b)
        {
            for (int a = -w; a <= w; ++a)
            {
                f(Node{n.level, {n.x[0] + a, n.x[1] + b, n.x[2] + c}});
            }
        }
    }
}

static Node child_of(const Node& n, int q)
{
    return Node{n.level + 1, {2 * n.x[0] + (q & 1), 2 * n.x[1] + ((q >> 1) & 1), 2 * n.x[2] + ((q >> 2) & 1)}};
}

// the leaves over a box of roots; 'budget' cells are refined at most
template <std::size_t dim>
struct Tree
{
    int lmin, lmax;
    int roots[3] = {1, 1, 1};
    int base[3]  = {0, 0, 0}; // where the tree lies, on level lmin (an arbitrary multiple of 4)
    int off[3]   = {0, 0, 0}; // of the first root from there
    NodeSet leaves, domain; // the domain on level lmin

    void split(std::size_t k)
    {
        Node n      = leaves.v[k];
        leaves.v[k] = child_of(n, 0);
        for (int q = 1; q < (1 << dim); ++q)
        {
            leaves.v.push_back(child_of(n, q));
        }
        leaves.changed();
    }

    // anywhere: far from the borders of the machine integers
    void place()
    {
        static const char* const nb[] = {"bx", "by", "bz"};
        static const char* const no[] = {"ox", "oy", "oz"};
        for (std::size_t d = 0; d < dim; ++d)
        {
            base[d] = 4 * vp_any_int(nb[d], -(1 << 16), 1 << 16);
            off[d]  = vp_case(no[d], 0, 1);
        }
    }

    // a box of roots; 'hole': the number of the root left out (none if negative)
    void start(int lmin_, int lmax_, int nx, int ny = 1, int nz = 1, int hole = -1)
    {
        lmin = lmin_;
        lmax = lmax_;
        roots[0] = nx;
        roots[1] = dim > 1 ? ny : 1;
        roots[2] = dim > 2 ? nz : 1;
        for (int z = 0; z < roots[2]; ++z)
        {
            for (int y = 0; y < roots[1]; ++y)
            {
                for (int x = 0; x < roots[0]; ++x)
                {
                    if (x + roots[0] * (y + roots[1] * z) != hole)
                    {
                        leaves.v.push_back(Node{lmin, {off[0] + x, off[1] + y, off[2] + z}});
                    }
                }
            }
        }
        domain = leaves;
    }

    // refine: one decision per cell met, at most 'budget' cells refined
    void refine(int budget)
    {
        for (std::size_t k = 0; k < leaves.v.size() && budget > 0;)
        {
            if (leaves.v[k].level < lmax && vp_case("refine", 0, 1))
            {
                split(k);
                --budget;
            }
            else
            {
                ++k;
            }
        }
    }

    // the cell lies in the domain or (below lmin) holds a part of it
    bool in_domain(const Node& n) const
    {
        return n.level >= lmin ? domain.covers(n) : domain.below(n);
    }

    Node wrap(Node n, const std::array<bool, dim>& periodic) const
    {
        for (std::size_t d = 0; d < dim; ++d)
        {
            if (periodic[d])
            {
                int len = shl(roots[d], n.level - lmin), lo = shl(off[d], n.level - lmin);
                n.x[d] -= len * static_cast<int>(vp_fdiv(n.x[d] - lo, len));
            }
        }
        return n;
    }

    // neighbouring leaves (corners included, and across periodic sides) differ by at most one level
    void grade(int width, const std::array<bool, dim>& periodic)
    {
        bool again = true;
        while (again)
        {
            again = false;
            for (std::size_t k = 0; k < leaves.v.size(); ++k)
            {
                Node n = leaves.v[k];
                if (n.level <= lmin + 1)
                {
                    continue;
                }
                Node p = on_level(n, n.level - 1);
                around(p, dim, width,
                       [&](const Node& q0)
                       {
                           Node q = wrap(q0, periodic);
                           for (std::size_t j = 0; j < leaves.v.size(); ++j)
                           {
                               if (leaves.v[j].level < q.level && inside(q, leaves.v[j]))
                               {
                                   split(j);
                                   again = true;
                                   break;
                               }
                           }
                       });
            }
        }
    }

    template <class Mesh>
    typename Mesh::cl_type cell_list() const
    {
        typename Mesh::cl_type cl;
        for (const auto& n : leaves.v)
        {
            xt::xtensor_fixed<int, xt::xshape<dim - 1>> yz;
            for (std::size_t d = 1; d < dim; ++d)
            {
                yz[d - 1] = shl(base[d], n.level - lmin) + n.x[d];
            }
            cl[static_cast<std::size_t>(n.level)][yz].add_point(shl(base[0], n.level - lmin) + n.x[0]);
        }
        return cl;
    }
};

// the cells of a CellArray, relative to the base of the tree; checks on the way that they are all different
template <std::size_t dim, class CA>
static NodeSet cells_of(const Tree<dim>& t, const CA& ca)
{
    NodeSet s;
    for (std::size_t l = 0; l <= CA::max_size; ++l)
    {
        if (!ca[l].empty())
        {
            level_cells(t, ca[l], s);
        }
    }
    return s;
}

template <std::size_t dim, class LCA>
static void level_cells(const Tree<dim>& t, const LCA& lca, NodeSet& s)
{
    int l = static_cast<int>(lca.level());
    samurai::for_each_interval(lca,
                               [&](std::size_t, const auto& i, const auto& yz)
                               {
                                   Node n{l, {0, 0, 0}};
                                   for (std::size_t d = 1; d < dim; ++d)
                                   {
                                       n.x[d] = yz[d - 1] - shl(t.base[d], l - t.lmin);
                                   }
                                   for (int x = i.start; x < i.end; ++x)
                                   {
                                       n.x[0] = x - shl(t.base[0], l - t.lmin);
                                       s.v.push_back(n);
                                   }
                               });
}

static bool same(const NodeSet& a, const NodeSet& b)
{
    if (a.v.size() != b.v.size())
    {
        return false;
    }
    for (const auto& n : a.v)
    {
        if (!b.has(n))
        {
            return false;
        }
    }
    return true;
}

// the stored cells of a mesh and where their values are: read off the numbering (C07)
template <std::size_t dim>
struct Store
{
    NodeSet cells;
    std::vector<std::size_t> at;

    template <class CA>
    Store(const Tree<dim>& t, const CA& ca)
    {
        for (std::size_t l = 0; l <= CA::max_size; ++l)
        {
            if (!ca[l].empty())
            {
                std::size_t first = cells.v.size();
                level_cells(t, ca[l], cells);
                samurai::for_each_interval(ca[l],
                                           [&](std::size_t, const auto& i, const auto&)
                                           {
                                               for (int x = i.start; x < i.end; ++x)
                                               {
                                                   at.push_back(static_cast<std::size_t>(i.index + x));
                                               }
                                           });
                (void)first;
            }
        }
    }

    bool has(const Node& n) const
    {
        return cells.has(n);
    }

    std::size_t operator()(const Node& n) const
    {
        int k = cells.find(n);
        vp_assert(k >= 0, "the-cell-is-stored");
        return at[static_cast<std::size_t>(k)];
    }
};

// the value of component c of a field in storage cell k
template <class F>
static auto& comp(F& f, std::size_t k, std::size_t c = 0)
{
    std::size_t n = f.array().size() / F::size;
    return f.array().data()[F::is_soa ? c * n + k : k * F::size + c];
}
