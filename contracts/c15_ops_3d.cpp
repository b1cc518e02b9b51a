#include "c15_ops.hpp"
//@opt vc_* bound=meshes of at most 2 root cells with at most 1 refinement; values arbitrary, position arbitrary
using M11 = MR<3, 1, 1>;
using P   = std::array<bool, 3>;
static const P none = {false, false, false};
static auto T() { return any_graded<3>(1, 1, 2, 1, 1); }
VC(diffusion_3d) { provided<3, M11, 1, diffusion>(T(), none, 0); }
VC(diffusion_vec_3d) { provided<3, M11, 2, diffusion>(T(), none, 0); }
VC(laplacian_3d) { provided<3, M11, 1, laplacian>(T(), none, 0); }
VC(multi_3d) { provided<3, M11, 2, multi>(T(), none, 0); }
VC(divergence_3d) { provided<3, M11, 3, divergence>(T(), none, 0); }
VC(gradient_3d) { provided<3, M11, 1, gradient>(T(), none, 0); }
VC(upwind_3d) { provided<3, M11, 1, upwind>(any_graded<3>(1, 1, 1, 1, 1), none, 0); }
VC(upwind_vec_3d) { provided<3, M11, 2, upwind>(any_graded<3>(1, 1, 1, 1, 1), none, 0); }
VC(carried_3d) { carried<3, M11, 1>(T(), none, 0); }
VC(self_carried_3d) { self_carried<3, M11, 3>(T(), none, 0); }
VC(algebra_3d) { algebra<3, M11, 1>(any_graded<3>(1, 1, 1, 1, 1), none, vp_case("which", 0, 9)); }
