#include "c08_grad.hpp"
//@opt vc_* bound=at most 4 root cells and 5 refinements over at most 4 levels; position arbitrary
VC(grade_1d)
{
    Tree<1> t;
    t.place();
    int lmin = vp_case("lmin", 0, 1), n = vp_case("roots", 1, 3);
    t.start(lmin, lmin + 4, n, 1, 1, n == 3 ? vp_case("hole", -1, 2) : -1);
    make_graded<1, 1>(t, 4);
}
VC(grade_wide_1d)
{
    Tree<1> t;
    t.place();
    t.start(1, 4, vp_case("roots", 2, 3));
    make_graded<1, 2>(t, 4);
}
using MR1  = samurai::MRMesh<samurai::MRConfig<1>>;
using AMR1 = samurai::amr::Mesh<samurai::amr::Config<1>>;
//@opt vc_tags* bound=two root cells and at most 2 refinements over 3 levels
//@opt bc_* bound=random meshes over at most 4 levels
VC(tags_1d)
{
    Tree<1> t;
    t.place();
    vp_assume(t.off[0] == 0);
    t.start(1, 3, 2);
    grade_tags<1, MR1>(t, 2, true);
}
BC(tags_any_1d)
{
    Tree<1> t;
    int lmin = vp_case("lmin", 0, 2);
    t.start(lmin, lmin + vp_case("levels", 1, 3), vp_case("roots", 1, 4));
    grade_tags<1, MR1>(t, 6, true);
}
BC(tags_amr_1d)
{
    Tree<1> t;
    int lmin = vp_case("lmin", 1, 2);
    t.start(lmin, lmin + vp_case("levels", 1, 3), vp_case("roots", 1, 4));
    grade_tags<1, AMR1>(t, 6, true);
}
