#include "c14_iter.hpp"
//@opt vc_* bound=meshes of at most 2 x 2 root cells with at most 2 refinements; position arbitrary unless periodic
using M11 = MR<2, 1, 1>;
using M21 = MR<2, 2, 1>;
using A11 = samurai::amr::Mesh<samurai::amr::Config<2>>;
using P   = std::array<bool, 2>;
static const P none = {false, false};
VC(interfaces_2d) { interfaces<2, M11>(any_graded<2>(2, 2, 1, 1, 2), none); }
VC(interfaces_levels_2d) { interfaces<2, M11>(any_graded<2>(2, 1, 1, 2, 2), none); }
VC(interfaces_periodic_2d) { auto p = any_periodicity<2>(); interfaces<2, M11>(unit_graded<2>(1, 1, 1, p), p); }
VC(interfaces_amr_2d) { interfaces<2, A11>(any_graded<2>(2, 2, 1, 1, 1), none); }
VC(interfaces_line_2d) { interfaces_line<2, M21, 4>(any_graded<2>(2, 1, 1, 1, 1), none, -1); }
VC(stencils_2d) { stencils<2, M21, 5>(any_graded<2>(2, 2, 1, 1, 1), none, samurai::star_stencil<2, 1>(), vp_case("how", 0, 3)); }
VC(stencils_amr_2d) { stencils<2, A11, 5>(any_graded<2>(2, 1, 1, 1, 1), none, samurai::star_stencil<2, 1>(), vp_case("how", 0, 3)); }
//@opt vc_named_* bound=none
//@opt vc_searching_* bound=stencils of 3 vectors, coordinates arbitrary in [-9,9]
//@opt vc_turning_* bound=stencils of 2 vectors, coordinates arbitrary in [-4,4]
VC(named_2d)
{
    named_star<2, 0>();
    named_star<2, 1>();
    named_star<2, 2>();
    named_line<2, 0>();
    named_line<2, 1>();
    named_directions<2>();
}
VC(searching_2d) { searching<2, 3>(); }
VC(turning_2d) { turning<2, 2>(); }
