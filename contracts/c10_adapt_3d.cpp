#include "c10_adapt.hpp"
//@opt bc_* bound=random meshes over at most 3 levels, values among 0 1 2 3
BC(adapt_any_3d)
{
    int l = vp_case("lmin", 0, 1);
    adapt<3, 1, false>(l, l + vp_case("levels", 1, 2 - l), 4, true, 3, vp_case("uniform", 0, 1) != 0);
}
//@opt vc_* bound=the finest mesh over levels 0 to 1; all values
VC(constant_3d) { adapt_limits<3>(0, 1, true); }
VC(constant_levels_3d) { adapt_limits<3>(1, 2, true); }
BC(constant_any_3d)
{
    int l = vp_case("lmin", 0, 1);
    int m = l + vp_case("levels", 1, 2);
    adapt_limits<3>(l, m, vp_case("constant", 0, 1) != 0);
}
