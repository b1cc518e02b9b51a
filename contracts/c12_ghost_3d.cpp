#include "c12_ghost.hpp"
//@opt vc_* bound=meshes of at most 2 root cells in one direction (2 x 2 x 2 if periodic) with at most 1 refinement; values arbitrary, position arbitrary unless periodic
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
using M11 = MR<3, 1, 1>;
using P   = std::array<bool, 3>;
static const P none = {false, false, false};
VC(ghosts_3d) { ghosts<3, M11, F1<M11>>(any_graded<3>(2, 1, 1, 1, 1), none, 0); }
VC(ghosts_vec_3d) { ghosts<3, M11, FA<M11>>(any_graded<3>(1, 1, 1, 1, 1), none, 1); }
VC(ghosts_periodic_3d) { auto p = any_periodicity<3>(); ghosts<3, M11, F1<M11>>(unit_graded<3>(1, 0, 0, p), p, 0); }
