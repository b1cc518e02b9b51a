#include "c10_update.hpp"
//@opt vc_* bound=meshes of at most 2 root cells with at most 2 refinements; position, values and unrelated flags arbitrary
using MR1  = samurai::MRMesh<samurai::MRConfig<1>>;
using AMR1 = samurai::amr::Mesh<samurai::amr::Config<1>>;

VC(update_mr_1d)
{
    Tree<1> t;
    t.place();
    int lmin = vp_case("lmin", 1, 2), n = vp_case("roots", 1, 2);
    t.start(lmin, lmin + vp_case("levels", 0, 2), n);
    update<1, MR1, true>(t, 2, false);
}
VC(update_mr_two_1d)
{
    Tree<1> t;
    t.start(1, 2, 1);
    update<1, MR1, true>(t, 1, true);
}
VC(update_1d)
{
    Tree<1> t;
    t.place();
    t.start(1, 3, 1);
    update<1, MR1, false>(t, 2, true);
}
VC(update_amr_1d)
{
    Tree<1> t;
    t.place();
    t.start(1, 3, vp_case("roots", 1, 2));
    update<1, AMR1, false>(t, 2, false);
}
