#include "c10_adapt.hpp"
//@opt vc_* bound=meshes over levels 1 to 2, at most 1 refinement; all values and thresholds among four
//@opt bc_* bound=random meshes over at most 4 levels, values among 0 1 2 3
VC(adapt_1d) { adapt<1, 1, false>(1, 2, 1, false, 0, false); }
VC(adapt_periodic_1d) { adapt<1, 1, false>(1, 2, 1, true, 0, false); }
VC(adapt_wide_1d) { adapt<1, 1, true>(1, 2, 1, false, 0, false); }
BC(adapt_any_1d)
{
    int l = vp_case("lmin", 0, 2);
    adapt<1, 1, false>(l, l + vp_case("levels", 1, 3), 6, true, 3, vp_case("uniform", 0, 1) != 0);
}
BC(adapt_wide_any_1d)
{
    int l = vp_case("lmin", 0, 2);
    adapt<1, 2, true>(l, l + vp_case("levels", 1, 3), 6, true, 3, vp_case("uniform", 0, 1) != 0);
}
VC(constant_1d) { int l = vp_case("lmin", 0, 1); adapt_limits<1>(l, l + vp_case("levels", 1, 2), true); }
//@opt vc_exact_1d bound=the finest mesh over levels 1 to 3; all values
VC(exact_1d) { adapt_limits<1>(1, 2 , false); }
