#include "c11_bc.hpp"

//@opt vc_* bound=meshes of at most 5 root cells with at most 3 refinements over at most 2 levels; values and position arbitrary
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
template <class M>
using FS = samurai::Field<M, double, 2, true>;

using M11 = MR<1, 1, 1>;
using M21 = MR<1, 2, 1>;
using M31 = MR<1, 3, 1>;
using M22 = MR<1, 2, 2>;

VC(dirichlet_1d) { everywhere<1, M11, F1<M11>, 1, false>(any_box<1>(3, 1, 1, 2, 3)); }
VC(neumann_1d) { everywhere<1, M11, F1<M11>, 1, true>(any_box<1>(3, 1, 1, 2, 3)); }
VC(dirichlet_wide_1d) { everywhere<1, M21, F1<M21>, 1, false>(any_box<1>(3, 1, 1, 2, 2)); }
VC(neumann_wide_1d) { everywhere<1, M21, FA<M21>, 1, true>(any_box<1>(3, 1, 1, 1, 1)); }
VC(dirichlet_vec_1d) { everywhere<1, M11, FA<M11>, 1, false>(any_box<1>(3, 1, 1, 1, 1)); }
VC(neumann_vec_1d) { everywhere<1, M11, FS<M11>, 1, true>(any_box<1>(3, 1, 1, 1, 1)); }
VC(sides_1d) { by_side<1, M11, F1<M11>>(any_box<1>(3, 1, 1, 1, 2)); }
VC(coordinates_1d) { by_coordinates<1, M11, F1<M11>>(any_box<1>(3, 1, 1, 1, 2)); }

// higher orders, on one level of enough cells
template <std::size_t order>
static void high_1d()
{
    using M = MR<1, order, 1>;
    Tree<1> t;
    t.place();
    t.start(3, 3, vp_case("rx", static_cast<int>(order), 5));
    everywhere<1, M, F1<M>, order, false>(t);
}
VC(dirichlet_2_1d) { high_1d<2>(); }
VC(dirichlet_3_1d) { high_1d<3>(); }
VC(dirichlet_4_1d) { high_1d<4>(); }

template <std::size_t high, std::size_t w>
static void mixed_1d()
{
    Tree<1> t;
    t.place();
    t.start(3, 3, vp_case("rx", static_cast<int>(high), 4));
    mixed<1, MR<1, w, 1>, high>(t);
}
VC(mixed_2_1d) { mixed_1d<2, 3>(); }
VC(mixed_3_1d) { mixed_1d<3, 3>(); }

// known finding: with conditions of different orders, the outer layers on the side of the lower order are left as they were
KF(bc_mixed_orders_unfilled)
{
    using M  = MR<1, 3, 1>;
    using id = typename M::mesh_id_t;
    M m(samurai::Box<double, 1>({0.}, {1.}), 3, 3);
    F1<M> f("f", m);
    f.fill(-99);
    samurai::for_each_cell(m[id::cells], [&](const auto& c) { f[c] = 1; });
    samurai::DirectionVector<1> left{-1}, right{1};
    samurai::make_bc<samurai::Dirichlet<3>>(f, 1.)->on(left);
    samurai::make_bc<samurai::Neumann<1>>(f, 0.)->on(right);
    samurai::update_bc(3, f);
    bool filled = true;
    samurai::for_each_cell(m[id::reference], [&](const auto& c) { filled = filled && (c.level != 3 || f[c] != -99); });
    vp_assert(filled, "every-ghost-layer-is-filled");
}
