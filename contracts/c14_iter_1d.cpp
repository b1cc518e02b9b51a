#include "c14_iter.hpp"
//@opt vc_* bound=meshes of at most 3 root cells with at most 3 refinements over 2 levels; position arbitrary unless periodic
using M11 = MR<1, 1, 1>;
using M21 = MR<1, 2, 1>;
using A11 = samurai::amr::Mesh<samurai::amr::Config<1>>;
using P   = std::array<bool, 1>;
static const P none = {false};
VC(interfaces_1d) { interfaces<1, M11>(any_graded<1>(3, 1, 1, 2, 3), none); }
VC(interfaces_periodic_1d) { P p = {true}; interfaces<1, M11>(unit_graded<1>(1, 2, 2, p), p); }
VC(interfaces_amr_1d) { interfaces<1, A11>(any_graded<1>(3, 1, 1, 2, 2), none); }
VC(interfaces_line_1d) { interfaces_line<1, M21, 4>(any_graded<1>(2, 1, 1, 2, 2), none, -1); }
VC(stencils_1d) { stencils<1, M21, 5>(any_graded<1>(3, 1, 1, 2, 2), none, samurai::star_stencil<1, 2>(), vp_case("how", 0, 3)); }
VC(stencils_amr_1d) { stencils<1, A11, 3>(any_graded<1>(3, 1, 1, 2, 2), none, samurai::star_stencil<1, 1>(), vp_case("how", 0, 3)); }
//@opt vc_named_* bound=none
//@opt vc_searching_* bound=stencils of 3 vectors, coordinates arbitrary in [-9,9]
//@opt vc_turning_* bound=stencils of 2 vectors, coordinates arbitrary in [-4,4]
VC(named_1d)
{
    named_star<1, 0>();
    named_star<1, 1>();
    named_star<1, 2>();
    named_line<1, 0>();
    named_directions<1>();
}
VC(searching_1d) { searching<1, 3>(); }
VC(turning_1d) { turning<1, 2>(); }
