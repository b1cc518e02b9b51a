#include "c11_bc.hpp"

//@opt vc_* bound=meshes of at most 2 x 2 root cells with at most 2 refinements over at most 2 levels (higher orders: one level of at most 5 cells per direction); values and position arbitrary
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
template <class M>
using FS = samurai::Field<M, double, 2, true>;

using M11 = MR<2, 1, 1>;
using M21 = MR<2, 2, 1>;

VC(dirichlet_2d) { everywhere<2, M11, F1<M11>, 1, false>(any_box<2>(2, 2, 1, 1, 2)); }
VC(neumann_2d) { everywhere<2, M11, F1<M11>, 1, true>(any_box<2>(2, 2, 1, 1, 1)); }
VC(neumann_levels_2d) { everywhere<2, M11, F1<M11>, 1, true>(any_box<2>(2, 1, 1, 2, 2)); }
VC(dirichlet_wide_2d) { everywhere<2, M21, F1<M21>, 1, false>(any_box<2>(2, 2, 1, 1, 1)); }
VC(neumann_wide_2d) { everywhere<2, M21, FA<M21>, 1, true>(any_box<2>(2, 1, 1, 1, 1)); }
VC(dirichlet_vec_2d) { everywhere<2, M11, FA<M11>, 1, false>(any_box<2>(2, 1, 1, 1, 1)); }
VC(neumann_vec_2d) { everywhere<2, M11, FS<M11>, 1, true>(any_box<2>(1, 2, 1, 1, 1)); }
VC(sides_2d) { by_side<2, M11, F1<M11>>(any_box<2>(2, 1, 1, 1, 1)); }
VC(coordinates_2d) { by_coordinates<2, M11, F1<M11>>(any_box<2>(1, 2, 1, 1, 1)); }

template <std::size_t order>
static void high_2d()
{
    using M = MR<2, order, 1>;
    Tree<2> t;
    t.place();
    t.start(3, 3, static_cast<int>(order) + vp_case("rx", 0, 1), static_cast<int>(order) + vp_case("ry", 0, 1));
    everywhere<2, M, F1<M>, order, false>(t);
}
VC(dirichlet_2_2d) { high_2d<2>(); }
VC(dirichlet_3_2d) { high_2d<3>(); }
VC(dirichlet_4_2d) { high_2d<4>(); }
