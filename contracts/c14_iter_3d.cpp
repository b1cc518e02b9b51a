#include "c14_iter.hpp"
//@opt vc_* bound=meshes of at most 2 x 2 x 1 root cells with at most 1 refinement; position arbitrary unless periodic
using M11 = MR<3, 1, 1>;
using A11 = samurai::amr::Mesh<samurai::amr::Config<3>>;
using P   = std::array<bool, 3>;
static const P none = {false, false, false};
VC(interfaces_3d) { interfaces<3, M11>(any_graded<3>(2, 2, 1, 1, 1), none); }
VC(stencils_3d) { stencils<3, M11, 7>(any_graded<3>(2, 1, 1, 1, 1), none, samurai::star_stencil<3, 1>(), vp_case("how", 0, 3)); }
//@opt vc_named_* bound=none
//@opt vc_searching_* bound=stencils of 2 vectors, coordinates arbitrary in [-9,9]
//@opt vc_turning_* bound=stencils of 1 vector, coordinates arbitrary in [-4,4]
VC(named_3d)
{
    named_star<3, 0>();
    named_star<3, 1>();
    named_star<3, 2>();
    named_line<3, 0>();
    named_line<3, 1>();
    named_line<3, 2>();
    named_directions<3>();
}
VC(searching_3d) { searching<3, 2>(); }
VC(turning_3d) { turning<3, 1>(); }
