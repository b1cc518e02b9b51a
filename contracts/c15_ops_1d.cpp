#include "c15_ops.hpp"
//@opt vc_* bound=meshes of at most 2 root cells with at most 2 refinements over 2 levels; values arbitrary, position arbitrary unless periodic
using M11 = MR<1, 1, 1>;
using A11 = samurai::amr::Mesh<samurai::amr::Config<1>>;
using P   = std::array<bool, 1>;
static const P none = {false};
static auto T() { return any_graded<1>(2, 1, 1, 2, 2); }
VC(diffusion_1d) { provided<1, M11, 1, diffusion>(T(), none, 0); }
VC(diffusion_vec_1d) { provided<1, M11, 2, diffusion>(T(), none, 0); }
VC(diffusion_number_1d) { provided<1, M11, 1, diffusion_number>(T(), none, 0); }
VC(diffusion_plain_1d) { provided<1, M11, 1, diffusion_plain>(T(), none, 0); }
VC(laplacian_1d) { provided<1, M11, 2, laplacian>(T(), none, 0); }
VC(multi_1d) { provided<1, M11, 2, multi>(T(), none, 0); }
VC(multi_one_1d) { provided<1, M11, 1, multi>(T(), none, 0); }
VC(divergence_1d) { provided<1, M11, 1, divergence>(T(), none, 0); }
VC(gradient_1d) { provided<1, M11, 1, gradient>(T(), none, 0); }
VC(upwind_1d) { provided<1, M11, 1, upwind>(T(), none, 0); }
VC(upwind_vec_1d) { provided<1, M11, 2, upwind>(T(), none, 0); }
VC(self_carried_1d) { self_carried<1, M11, 1>(T(), none, 0); }
VC(algebra_1d) { algebra<1, M11, 1>(any_graded<1>(2, 1, 1, 1, 1), none, vp_case("which", 0, 9)); }
VC(algebra_vec_1d) { algebra<1, M11, 2>(any_graded<1>(2, 1, 1, 1, 1), none, vp_case("which", 0, 9)); }
