#include "c07_mesh.hpp"

//@opt vc_* bound=meshes of at most 4 root cells with at most 2 refinements over at most 2 levels
template <std::size_t w, std::size_t po>
static void mr_2d(int budget)
{
    Tree<2> t;
    t.place();
    int lmin = vp_case("lmin", 0, 1), nx = vp_case("rx", 1, 2), ny = vp_case("ry", 1, 2);
    int lmax = lmin + vp_case("levels", 1, 2);
    int hole = nx * ny == 4 && vp_case("hole", 0, 1) ? 3 : -1;
    t.start(lmin, lmax, nx, ny, 1, hole);
    mr_mesh<2, w, po>(t, budget);
}

VC(mr_2d_11) { mr_2d<1, 1>(2); }
VC(mr_2d_21) { mr_2d<2, 1>(2); }
VC(mr_periodic_2d) { int l = vp_case("lmin", 0, 1); mr_periodic<2, 1, 1>(l, l + vp_case("levels", 0, 1), 2); }
VC(mr_periodic_2d_2) { mr_periodic<2, 2, 1>(1, 2, 1); }
VC(mr_box_2d) { mr_box<2>(1, 1 + vp_case("levels", 0, 1)); }
VC(swap_2d) { mesh_swap<2>(); }

VC(amr_2d)
{
    Tree<2> t;
    t.place();
    int nx = vp_case("rx", 1, 2), ny = vp_case("ry", 1, 2);
    t.start(1, 1 + vp_case("levels", 1, 2), nx, ny);
    amr_mesh<2, 1>(t, 2);
}

VC(uniform_2d)
{
    Tree<2> t;
    t.place();
    int nx = vp_case("rx", 1, 2), ny = vp_case("ry", 1, 2);
    t.start(2, 2, nx, ny, 1, vp_case("hole", -1, nx * ny == 1 ? -1 : nx * ny - 1));
    uniform_mesh<2, 1>(t);
}

//@opt bc_* bound=meshes of at most 4 root cells with at most 6 refinements over at most 3 levels
BC(mr_more_2d)
{
    Tree<2> t;
    t.place();
    int lmin = vp_case("lmin", 0, 2), nx = vp_case("rx", 1, 2), ny = vp_case("ry", 1, 2);
    t.start(lmin, lmin + 3, nx, ny, 1, -1);
    mr_mesh<2, 1, 1>(t, 6);
}
BC(mr_more_periodic_2d) { int l = vp_case("lmin", 0, 1); mr_periodic<2, 2, 1>(l, l + 3, 6); }
