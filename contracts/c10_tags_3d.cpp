#include "c10_tags.hpp"

//@opt vc_* bound=rows of at most 2 cells (details: 2); position, level, tags, details and thresholds arbitrary

VC(maximum_3d)
{
    maximum<3>(2);
}

VC(together_3d)
{
    together<3>(2);
}

VC(enlarge_3d)
{
    spread<3>(2, 1, KEEP, ENLARGE, [](auto& t) { return samurai::enlarge(t); }, "the-neighbours-of-a-kept-cell-are-marked");
}

VC(keep_around_refine_3d)
{
    spread<3>(2, 1, REFINE, KEEP, [](auto& t) { return samurai::keep_around_refine(t); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(extend_3d)
{
    spread<3>(2, 1, REFINE, KEEP, [](auto& t) { return samurai::extend(t); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(keep_cells_3d)
{
    spread<3>(2, 0, 0, KEEP, [](auto& t) { return samurai::tag_to_keep<0>(t); }, "every-cell-is-kept");
}

VC(keep_neighbours_3d)
{
    spread<3>(2, 1, 0, KEEP, [](auto& t) { return samurai::tag_to_keep<1>(t); }, "every-neighbour-is-kept");
}

VC(keep_near_refine_3d)
{
    spread<3>(2, 1, REFINE, KEEP, [](auto& t) { return samurai::tag_to_keep<1>(t, refine_flag); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(keep_near_refine_2_3d)
{
    spread<3>(2, 2, REFINE, KEEP, [](auto& t) { return samurai::tag_to_keep<2>(t, refine_flag); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(balance_3d)
{
    balance<3>(2);
}

VC(parents_3d)
{
    parents<3>(3);
}

VC(graduate_3d)
{
    graduate<3>(2);
}

VC(to_coarsen_3d_1)
{
    coarsen<3, 1, false>(2);
}

VC(to_refine_3d_1)
{
    refine<3, 1, false>(1);
}

VC(to_coarsen_3d_2a)
{
    coarsen<3, 2, false>(2);
}

VC(to_refine_3d_2a)
{
    refine<3, 2, false>(1);
}

VC(to_coarsen_3d_2s)
{
    coarsen<3, 2, true>(2);
}

VC(to_refine_3d_2s)
{
    refine<3, 2, true>(1);
}
