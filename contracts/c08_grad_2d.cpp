#include "c08_grad.hpp"
//@opt vc_* bound=at most 4 root cells and 3 refinements over at most 3 levels; position arbitrary
VC(grade_2d)
{
    Tree<2> t;
    t.place();
    vp_assume(t.off[0] + t.off[1] <= 1);
    int nx = vp_case("rx", 1, 2), ny = vp_case("ry", 1, 2);
    t.start(0, 3, nx, ny, 1, nx * ny == 4 ? vp_case("hole", -1, 3) : -1);
    make_graded<2, 1>(t, nx * ny == 4 ? 2 : 3);
}
VC(grade_wide_2d)
{
    Tree<2> t;
    t.start(1, 3, 2, vp_case("ry", 1, 2));
    make_graded<2, 2>(t, 2);
}
using MR2  = samurai::MRMesh<samurai::MRConfig<2>>;
using AMR2 = samurai::amr::Mesh<samurai::amr::Config<2>>;
//@opt vc_tags* bound=one root cell and at most one refinement over 2 levels
//@opt bc_* bound=random meshes over at most 4 levels
VC(tags_2d)
{
    Tree<2> t;
    t.start(1, 3, 1);
    grade_tags<2, MR2>(t, 1, vp_case("corners", 0, 1) != 0);
}
BC(tags_any_2d)
{
    Tree<2> t;
    int lmin = vp_case("lmin", 0, 2);
    t.start(lmin, lmin + vp_case("levels", 1, 3), vp_case("rx", 1, 3), vp_case("ry", 1, 3));
    grade_tags<2, MR2>(t, 6, vp_case("corners", 0, 1) != 0);
}
BC(tags_amr_2d)
{
    Tree<2> t;
    int lmin = vp_case("lmin", 1, 2);
    t.start(lmin, lmin + vp_case("levels", 1, 3), vp_case("rx", 1, 3), vp_case("ry", 1, 3));
    grade_tags<2, AMR2>(t, 6, vp_case("corners", 0, 1) != 0);
}
