#include "c10_update.hpp"
//@opt vc_* bound=meshes of one or two root cells with at most 2 refinements; position, values and unrelated flags arbitrary
using MR2 = samurai::MRMesh<samurai::MRConfig<2>>;

VC(update_mr_2d)
{
    Tree<2> t;
    t.place();
    t.start(1, 2, vp_case("roots", 1, 2));
    update<2, MR2, true>(t, 1, false);
}
VC(update_2d)
{
    Tree<2> t;
    t.start(0, 2, 1);
    update<2, MR2, false>(t, 1, true);
}
