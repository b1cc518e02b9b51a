#include "c15_flux.hpp"
//@opt vc_* bound=meshes of at most 3 root cells with at most 2 refinements over 2 levels; values arbitrary, position arbitrary unless periodic
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
using M11 = MR<1, 1, 1>;
using M21 = MR<1, 2, 1>;
using A11 = samurai::amr::Mesh<samurai::amr::Config<1>>;
using P   = std::array<bool, 1>;
static const P none = {false};
VC(linear_1d) { linear<1, M11, F1<M11>, 1, 2>(any_graded<1>(3, 1, 1, 2, 2), none, vp_case("how", 0, 3)); }
VC(linear_wide_1d) { linear<1, M21, F1<M21>, 1, 4>(any_graded<1>(2, 1, 1, 2, 2), none, 0); }
VC(linear_vec_1d) { linear<1, M11, FA<M11>, 2, 2>(any_graded<1>(3, 1, 1, 1, 1), none, 0); }
VC(linear_contract_1d) { linear<1, M11, FA<M11>, 1, 2>(any_graded<1>(3, 1, 1, 1, 1), none, 1); }
VC(linear_amr_1d) { linear<1, A11, F1<A11>, 1, 2>(any_graded<1>(2, 1, 1, 2, 2), none, 0); }
VC(heterogeneous_1d) { heterogeneous<1, M11, F1<M11>, 1>(any_graded<1>(3, 1, 1, 2, 2), none, vp_case("how", 0, 3)); }
VC(heterogeneous_vec_1d) { heterogeneous<1, M11, FA<M11>, 2>(any_graded<1>(2, 1, 1, 1, 1), none, 0); }
VC(nonlinear_1d) { nonlinear<1, M11, F1<M11>, 1, 2>(any_graded<1>(3, 1, 1, 2, 2), none, vp_case("how", 0, 3), vp_case("cons", 0, 1)); }
VC(nonlinear_wide_1d) { nonlinear<1, M21, FA<M21>, 2, 4>(any_graded<1>(2, 1, 1, 2, 2), none, 0, vp_case("cons", 0, 1)); }
