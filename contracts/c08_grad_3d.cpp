#include "c08_grad.hpp"
//@opt vc_* bound=two root cells and 2 refinements over at most 2 levels; position arbitrary
VC(grade_3d)
{
    Tree<3> t;
    t.place();
    vp_assume(t.off[0] + t.off[1] + t.off[2] <= 1);
    int d = vp_case("d", 0, 2);
    t.start(0, 2, d == 0 ? 2 : 1, d == 1 ? 2 : 1, d == 2 ? 2 : 1);
    make_graded<3, 1>(t, 2);
}
//@opt bc_* bound=random meshes over at most 3 levels
BC(tags_any_3d)
{
    Tree<3> t;
    int lmin = vp_case("lmin", 0, 1);
    t.start(lmin, lmin + vp_case("levels", 1, 2), vp_case("rx", 1, 2), vp_case("ry", 1, 2));
    grade_tags<3, samurai::MRMesh<samurai::MRConfig<3>>>(t, 3, vp_case("corners", 0, 1) != 0);
}
