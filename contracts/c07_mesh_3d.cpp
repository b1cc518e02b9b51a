#include "c07_mesh.hpp"

//@opt vc_* bound=meshes of at most 2 root cells with at most 2 refinements over at most 2 levels
VC(mr_3d)
{
    Tree<3> t;
    t.place();
    int lmin = vp_case("lmin", 0, 1), n = vp_case("roots", 1, 2);
    t.start(lmin, lmin + (n == 2 ? 1 : 2), n);
    mr_mesh<3, 1, 1>(t, n == 2 ? 1 : 2);
}
VC(mr_periodic_3d) { mr_periodic<3, 1, 1>(0, vp_case("lmax", 0, 1), 1); }
VC(mr_box_3d) { mr_box<3>(1, 1); }

VC(amr_3d)
{
    Tree<3> t;
    t.place();
    t.start(1, 2, vp_case("rx", 1, 2), 1, 1);
    amr_mesh<3, 1>(t, 1);
}

VC(uniform_3d)
{
    Tree<3> t;
    t.place();
    int n = vp_case("rx", 1, 2);
    t.start(2, 2, n, vp_case("ry", 1, 2), 1, n == 2 ? vp_case("hole", -1, 1) : -1);
    uniform_mesh<3, 1>(t);
}
