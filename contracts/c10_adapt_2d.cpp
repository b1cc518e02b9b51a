#include "c10_adapt.hpp"
//@opt vc_* bound=meshes over levels 0 to 1; all values and thresholds among four
//@opt bc_* bound=random meshes over at most 4 levels, values among 0 1 2 3
VC(adapt_2d) { adapt<2, 1, false>(0, 1, 1, false, 0, false); }
BC(adapt_any_2d)
{
    int l = vp_case("lmin", 0, 2);
    adapt<2, 1, false>(l, l + vp_case("levels", 1, 3 - l / 2), 6, true, 3, vp_case("uniform", 0, 1) != 0);
}
BC(adapt_wide_any_2d)
{
    int l = vp_case("lmin", 0, 2);
    adapt<2, 2, true>(l, l + vp_case("levels", 1, 2), 6, true, 3, vp_case("uniform", 0, 1) != 0);
}
VC(constant_2d) { adapt_limits<2>(1, 2, true); }
BC(constant_any_2d)
{
    int l = vp_case("lmin", 0, 1);
    int m = l + vp_case("levels", 1, 3);
    adapt_limits<2>(l, m, vp_case("constant", 0, 1) != 0);
}
