#include "c12_ghost.hpp"
//@opt vc_* bound=meshes of at most 2 x 2 root cells with at most 2 refinements; values arbitrary, position arbitrary unless periodic
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
template <class M>
using FS = samurai::Field<M, double, 2, true>;
using M11 = MR<2, 1, 1>;
using M21 = MR<2, 2, 1>;
using P   = std::array<bool, 2>;
static const P none = {false, false};
VC(ghosts_2d) { ghosts<2, M11, F1<M11>>(any_graded<2>(2, 2, 1, 1, 1), none, vp_case("kind", 0, 1)); }
VC(ghosts_levels_2d) { ghosts<2, M11, F1<M11>>(any_graded<2>(2, 1, 1, 2, 2), none, 1); }
VC(ghosts_periodic_2d) { auto p = any_periodicity<2>(); ghosts<2, M11, F1<M11>>(unit_graded<2>(1, 1, 2, p), p, 0); }
VC(ghosts_periodic_levels_2d) { auto p = any_periodicity<2>(); ghosts<2, M11, F1<M11>>(unit_graded<2>(1, 2, 1, p), p, 1); }
VC(ghosts_wide_2d) { ghosts<2, M21, F1<M21>>(any_graded<2>(2, 1, 1, 1, 1), none, 0); }
VC(ghosts_wide_periodic_2d) { auto p = any_periodicity<2>(); ghosts<2, M21, F1<M21>>(unit_graded<2>(1, 1, 1, p), p, 0); }
VC(ghosts_vec_2d) { ghosts<2, M11, FS<M11>>(any_graded<2>(2, 1, 1, 1, 1), none, 1); }
VC(ghosts_two_2d) { ghosts_two<2, M11, F1<M11>, FA<M11>>(any_graded<2>(1, 2, 1, 1, 1), none, vp_case("how", 0, 1)); }
VC(tags_2d) { auto p = any_periodicity<2>(); tags_periodic<2, M11>(unit_graded<2>(1, 1, 1, p), p); }
using A11 = samurai::amr::Mesh<samurai::amr::Config<2>>;
VC(ghosts_amr_2d) { ghosts_amr<2, A11, F1<A11>>(any_graded<2>(2, 2, 1, 1, 2), vp_case("kind", 0, 1)); }
VC(ghosts_amr_two_2d) { ghosts_amr_two<2, A11, F1<A11>, FS<A11>>(any_graded<2>(1, 2, 1, 1, 1)); }
