#include "c12_ghost.hpp"
//@opt vc_* bound=meshes of at most 4 root cells with at most 3 refinements over at most 2 levels; values and position arbitrary
template <class M>
using F1 = samurai::Field<M, double, 1>;
template <class M>
using FA = samurai::Field<M, double, 2, false>;
template <class M>
using FS = samurai::Field<M, double, 2, true>;
using M11 = MR<1, 1, 1>;
using M21 = MR<1, 2, 1>;
using M22 = MR<1, 2, 2>;
using P   = std::array<bool, 1>;

static const P none = {false};
VC(ghosts_1d) { ghosts<1, M11, F1<M11>>(any_graded<1>(3, 1, 1, 2, 3), none, vp_case("kind", 0, 1)); }
VC(ghosts_periodic_1d) { ghosts<1, M11, F1<M11>>(unit_graded<1>(vp_case("lmin", 1, 2), 2, 3, {true}), {true}, 0); }
VC(ghosts_wide_1d) { ghosts<1, M21, F1<M21>>(any_graded<1>(3, 1, 1, 2, 2), none, 0); }
VC(ghosts_wide_periodic_1d) { ghosts<1, M21, F1<M21>>(unit_graded<1>(vp_case("lmin", 1, 2), 2, 2, {true}), {true}, 0); }
VC(ghosts_order_1d) { ghosts<1, M22, F1<M22>>(any_graded<1>(4, 1, 1, 2, 2), none, 0); }
VC(ghosts_order_periodic_1d) { ghosts<1, M22, F1<M22>>(unit_graded<1>(2, 2, 2, {true}), {true}, 0); }
VC(ghosts_vec_1d) { ghosts<1, M11, FA<M11>>(any_graded<1>(2, 1, 1, 1, 1), none, 1); }
VC(ghosts_two_1d) { ghosts_two<1, M11, F1<M11>, FS<M11>>(any_graded<1>(2, 1, 1, 1, 1), none, vp_case("how", 0, 1)); }
VC(ghosts_two_periodic_1d) { ghosts_two<1, M11, F1<M11>, FA<M11>>(unit_graded<1>(1, 1, 1, {true}), {true}, vp_case("how", 0, 1)); }
VC(tags_1d) { tags_periodic<1, M11>(unit_graded<1>(vp_case("lmin", 1, 2), 2, 2, {true}), {true}); }
VC(tags_wide_1d) { tags_periodic<1, M21>(unit_graded<1>(vp_case("lmin", 1, 2), 1, 2, {true}), {true}); }
using A11 = samurai::amr::Mesh<samurai::amr::Config<1>>;
VC(ghosts_amr_1d) { ghosts_amr<1, A11, F1<A11>>(any_graded<1>(3, 1, 1, 2, 3), vp_case("kind", 0, 1)); }
VC(ghosts_amr_two_1d) { ghosts_amr_two<1, A11, F1<A11>, FA<A11>>(any_graded<1>(2, 1, 1, 1, 1)); }
