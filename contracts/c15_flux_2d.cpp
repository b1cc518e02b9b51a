#include "c15_flux.hpp"
//@opt vc_* bound=meshes of at most 2 x 2 root cells with at most 2 refinements; values arbitrary, position arbitrary unless periodic
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
using M11 = MR<2, 1, 1>;
using M21 = MR<2, 2, 1>;
using A11 = samurai::amr::Mesh<samurai::amr::Config<2>>;
using P   = std::array<bool, 2>;
static const P none = {false, false};
VC(linear_2d) { linear<2, M11, F1<M11>, 1, 2>(any_graded<2>(2, 2, 1, 1, 1), none, vp_case("how", 0, 3)); }
VC(linear_levels_2d) { linear<2, M11, F1<M11>, 1, 2>(any_graded<2>(2, 1, 1, 2, 2), none, 0); }
VC(linear_wide_2d) { linear<2, M21, F1<M21>, 1, 4>(any_graded<2>(2, 1, 1, 1, 1), none, 0); }
VC(linear_vec_2d) { linear<2, M11, FA<M11>, 2, 2>(any_graded<2>(1, 2, 1, 1, 1), none, 0); }
VC(linear_periodic_2d) { auto p = any_periodicity<2>(); linear<2, M11, F1<M11>, 1, 2>(unit_graded<2>(1, 1, 1, p), p, 0); }
VC(linear_amr_2d) { linear<2, A11, F1<A11>, 1, 2>(any_graded<2>(2, 2, 1, 1, 1), none, 0); }
VC(heterogeneous_2d) { heterogeneous<2, M11, F1<M11>, 1>(any_graded<2>(2, 2, 1, 1, 1), none, vp_case("how", 0, 3)); }
VC(heterogeneous_vec_2d) { heterogeneous<2, M11, FA<M11>, 2>(any_graded<2>(2, 1, 1, 1, 1), none, 0); }
VC(nonlinear_2d) { nonlinear<2, M11, F1<M11>, 1, 2>(any_graded<2>(2, 2, 1, 1, 1), none, vp_case("how", 0, 3), vp_case("cons", 0, 1)); }
VC(nonlinear_levels_2d) { nonlinear<2, M11, FA<M11>, 2, 2>(any_graded<2>(2, 1, 1, 2, 2), none, 0, vp_case("cons", 0, 1)); }
VC(nonlinear_wide_2d) { nonlinear<2, M21, F1<M21>, 1, 4>(any_graded<2>(2, 1, 1, 1, 1), none, 0, vp_case("cons", 0, 1)); }
