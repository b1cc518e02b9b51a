#include "c07_mesh.hpp"

//@opt vc_* bound=meshes of at most 3 root cells with at most 3 refinements over at most 2 levels
template <std::size_t w, std::size_t po>
static void mr_1d(int budget)
{
    Tree<1> t;
    t.place();
    int lmin = vp_case("lmin", 0, 2), n = vp_case("roots", 1, 3);
    int lmax = lmin + vp_case("levels", 0, 2);
    // with a wider prediction the domain is an interval
    int hole = po <= w && n == 3 && vp_case("hole", 0, 1) ? 1 : -1;
    t.start(lmin, lmax, n, 1, 1, hole);
    mr_mesh<1, w, po>(t, budget);
}

VC(mr_1d_11) { mr_1d<1, 1>(3); }
VC(mr_1d_21) { mr_1d<2, 1>(3); }
VC(mr_1d_12) { mr_1d<1, 2>(3); }
VC(mr_1d_22) { mr_1d<2, 2>(3); }
VC(mr_periodic_1d) { int l = vp_case("lmin", 0, 2); mr_periodic<1, 1, 1>(l, l + vp_case("levels", 0, 2), 3); }
VC(mr_periodic_1d_2) { int l = vp_case("lmin", 1, 2); mr_periodic<1, 2, 1>(l, l + vp_case("levels", 0, 2), 3); }
VC(mr_box_1d) { int l = vp_case("lmin", 0, 2); mr_box<1>(l, l + vp_case("levels", 0, 1)); }
VC(swap_1d) { mesh_swap<1>(); }

template <std::size_t w>
static void amr_1d()
{
    Tree<1> t;
    t.place();
    int lmin = vp_case("lmin", 1, 2), n = vp_case("roots", 1, 3);
    t.start(lmin, lmin + vp_case("levels", 0, 2), n);
    amr_mesh<1, w>(t, 3);
}
VC(amr_1d) { amr_1d<1>(); }
VC(amr_1d_2) { amr_1d<2>(); }

template <int w>
static void uni_1d()
{
    Tree<1> t;
    t.place();
    int n = vp_case("roots", 1, 4);
    t.start(vp_case("lmin", 0, 2), 2, n, 1, 1, vp_case("hole", -1, n == 1 ? -1 : n - 1));
    uniform_mesh<1, w>(t);
}
VC(uniform_1d) { uni_1d<1>(); }
VC(uniform_1d_2) { uni_1d<2>(); }

//@opt bc_* bound=meshes of at most 3 root cells with at most 8 refinements over at most 4 levels
BC(mr_more_1d)
{
    Tree<1> t;
    t.place();
    int lmin = vp_case("lmin", 0, 2), n = vp_case("roots", 1, 3);
    t.start(lmin, lmin + 4, n, 1, 1, -1);
    mr_mesh<1, 2, 1>(t, 8);
}
BC(mr_more_periodic_1d) { int l = vp_case("lmin", 0, 2); mr_periodic<1, 2, 2>(l, l + 4, 8); }
