#include "c15_flux.hpp"
//@opt vc_* bound=meshes of at most 2 root cells with at most 1 refinement; values and position arbitrary
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
using M11 = MR<3, 1, 1>;
using P   = std::array<bool, 3>;
static const P none = {false, false, false};
VC(linear_3d) { linear<3, M11, F1<M11>, 1, 2>(any_graded<3>(2, 1, 1, 1, 1), none, vp_case("how", 0, 3)); }
VC(linear_vec_3d) { linear<3, M11, FA<M11>, 2, 2>(any_graded<3>(1, 1, 2, 1, 1), none, 0); }
VC(heterogeneous_3d) { heterogeneous<3, M11, F1<M11>, 1>(any_graded<3>(1, 2, 1, 1, 1), none, vp_case("how", 0, 3)); }
VC(nonlinear_3d) { nonlinear<3, M11, F1<M11>, 1, 2>(any_graded<3>(1, 1, 2, 1, 1), none, vp_case("how", 0, 3), vp_case("cons", 0, 1)); }
