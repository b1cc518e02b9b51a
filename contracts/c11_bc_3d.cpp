#include "c11_bc.hpp"

//@opt vc_* bound=meshes of at most 2 x 2 x 2 root cells with at most 1 refinement; values and position arbitrary
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
template <class M>
using FS = samurai::Field<M, double, 2, true>;

using M11 = MR<3, 1, 1>;
using M21 = MR<3, 2, 1>;

VC(dirichlet_3d) { everywhere<3, M11, F1<M11>, 1, false>(any_box<3>(2, 2, 2, 0, 0)); }
VC(neumann_3d) { everywhere<3, M11, F1<M11>, 1, true>(any_box<3>(2, 1, 1, 1, 1)); }
VC(dirichlet_wide_3d) { everywhere<3, M21, F1<M21>, 1, false>(any_box<3>(1, 1, 2, 0, 0)); }
VC(neumann_vec_3d) { everywhere<3, M11, FS<M11>, 1, true>(any_box<3>(1, 2, 1, 0, 0)); }
VC(dirichlet_vec_3d) { everywhere<3, M11, FA<M11>, 1, false>(any_box<3>(2, 1, 1, 0, 0)); }
VC(sides_3d) { by_side<3, M11, F1<M11>>(any_box<3>(1, 1, 1, 0, 0)); }
VC(coordinates_3d) { by_coordinates<3, M11, F1<M11>>(any_box<3>(1, 2, 1, 0, 0)); }
template <std::size_t order>
static void high_3d()
{
    using M = MR<3, order, 1>;
    Tree<3> t;
    t.place();
    t.start(3, 3, static_cast<int>(order), static_cast<int>(order), static_cast<int>(order));
    everywhere<3, M, F1<M>, order, false>(t);
}
VC(dirichlet_2_3d) { high_3d<2>(); }
