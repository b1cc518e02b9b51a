#include "c10_tags.hpp"

//@opt vc_* bound=rows of at most 3 cells (details: 2); position, level, tags, details and thresholds arbitrary

VC(maximum_2d)
{
    maximum<2>(2);
}

VC(together_2d)
{
    together<2>(2);
}

VC(enlarge_2d)
{
    spread<2>(3, 1, KEEP, ENLARGE, [](auto& t) { return samurai::enlarge(t); }, "the-neighbours-of-a-kept-cell-are-marked");
}

VC(keep_around_refine_2d)
{
    spread<2>(3, 1, REFINE, KEEP, [](auto& t) { return samurai::keep_around_refine(t); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(extend_2d)
{
    spread<2>(3, 1, REFINE, KEEP, [](auto& t) { return samurai::extend(t); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(keep_cells_2d)
{
    spread<2>(3, 0, 0, KEEP, [](auto& t) { return samurai::tag_to_keep<0>(t); }, "every-cell-is-kept");
}

VC(keep_neighbours_2d)
{
    spread<2>(3, 1, 0, KEEP, [](auto& t) { return samurai::tag_to_keep<1>(t); }, "every-neighbour-is-kept");
}

VC(keep_near_refine_2d)
{
    spread<2>(3, 1, REFINE, KEEP, [](auto& t) { return samurai::tag_to_keep<1>(t, refine_flag); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(keep_near_refine_2_2d)
{
    spread<2>(3, 2, REFINE, KEEP, [](auto& t) { return samurai::tag_to_keep<2>(t, refine_flag); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(balance_2d)
{
    balance<2>(3);
}

VC(parents_2d)
{
    parents<2>(4);
}

VC(graduate_2d)
{
    graduate<2>(3);
}

VC(to_coarsen_2d_1)
{
    coarsen<2, 1, false>(2);
}

VC(to_refine_2d_1)
{
    refine<2, 1, false>(2);
}

VC(to_coarsen_2d_2a)
{
    coarsen<2, 2, false>(2);
}

VC(to_refine_2d_2a)
{
    refine<2, 2, false>(1);
}

VC(to_coarsen_2d_2s)
{
    coarsen<2, 2, true>(2);
}

VC(to_refine_2d_2s)
{
    refine<2, 2, true>(1);
}
