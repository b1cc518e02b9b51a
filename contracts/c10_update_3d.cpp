#include "c10_update.hpp"
//@opt vc_* bound=meshes of one root cell with at most 1 refinement; position, values and unrelated flags arbitrary
using MR3 = samurai::MRMesh<samurai::MRConfig<3>>;

VC(update_mr_3d)
{
    Tree<3> t;
    t.place();
    t.start(1, 2, 1);
    vp_assume(t.off[1] == 0 && t.off[2] == 0);
    update<3, MR3, true>(t, 1, false);
}
