#include "c15_ops.hpp"
//@opt vc_* bound=meshes of at most 2 x 2 root cells with at most 1 refinement; values arbitrary, position arbitrary
using M11 = MR<2, 1, 1>;
using A11 = samurai::amr::Mesh<samurai::amr::Config<2>>;
using P   = std::array<bool, 2>;
static const P none = {false, false};
static auto T() { return any_graded<2>(2, 2, 1, 1, 1); }
static auto S() { return any_graded<2>(2, 1, 1, 1, 1); }
VC(diffusion_2d) { provided<2, M11, 1, diffusion>(T(), none, 0); }
VC(diffusion_vec_2d) { provided<2, M11, 2, diffusion>(T(), none, 0); }
VC(diffusion_amr_2d) { provided<2, A11, 1, diffusion>(T(), none, 0); }
VC(diffusion_number_2d) { provided<2, M11, 1, diffusion_number>(S(), none, 0); }
VC(diffusion_plain_2d) { provided<2, M11, 2, diffusion_plain>(S(), none, 0); }
VC(laplacian_2d) { provided<2, M11, 1, laplacian>(S(), none, 0); }
VC(multi_2d) { provided<2, M11, 3, multi>(S(), none, 0); }
VC(divergence_2d) { provided<2, M11, 2, divergence>(T(), none, 0); }
VC(gradient_2d) { provided<2, M11, 1, gradient>(T(), none, 0); }
VC(upwind_2d) { provided<2, M11, 1, upwind>(T(), none, 0); }
VC(upwind_vec_2d) { provided<2, M11, 2, upwind>(S(), none, 0); }
VC(upwind_more_2d) { provided<2, M11, 3, upwind>(S(), none, 0); }
VC(carried_2d) { carried<2, M11, 1>(T(), none, 0); }
VC(carried_vec_2d) { carried<2, M11, 2>(S(), none, 0); }
VC(self_carried_2d) { self_carried<2, M11, 1>(T(), none, 0); }
VC(self_carried_vec_2d) { self_carried<2, M11, 2>(T(), none, 0); }
VC(algebra_2d) { algebra<2, M11, 1>(S(), none, vp_case("which", 0, 9)); }
VC(algebra_vec_2d) { algebra<2, M11, 2>(S(), none, vp_case("which", 0, 9)); }
