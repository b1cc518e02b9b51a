#include "c10_tags.hpp"

//@opt vc_* bound=rows of at most 3 cells (details: 3); position, level, tags, details and thresholds arbitrary

VC(maximum_1d)
{
    maximum<1>(3);
}

VC(together_1d)
{
    together<1>(3);
}

VC(enlarge_1d)
{
    spread<1>(3, 1, KEEP, ENLARGE, [](auto& t) { return samurai::enlarge(t); }, "the-neighbours-of-a-kept-cell-are-marked");
}

VC(keep_around_refine_1d)
{
    spread<1>(3, 1, REFINE, KEEP, [](auto& t) { return samurai::keep_around_refine(t); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(extend_1d)
{
    spread<1>(3, 1, REFINE, KEEP, [](auto& t) { return samurai::extend(t); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(keep_cells_1d)
{
    spread<1>(3, 0, 0, KEEP, [](auto& t) { return samurai::tag_to_keep<0>(t); }, "every-cell-is-kept");
}

VC(keep_neighbours_1d)
{
    spread<1>(3, 1, 0, KEEP, [](auto& t) { return samurai::tag_to_keep<1>(t); }, "every-neighbour-is-kept");
}

VC(keep_near_refine_1d)
{
    spread<1>(3, 1, REFINE, KEEP, [](auto& t) { return samurai::tag_to_keep<1>(t, refine_flag); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(keep_near_refine_2_1d)
{
    spread<1>(3, 2, REFINE, KEEP, [](auto& t) { return samurai::tag_to_keep<2>(t, refine_flag); }, "the-neighbours-of-a-refined-cell-are-kept");
}

VC(balance_1d)
{
    balance<1>(3);
}

VC(parents_1d)
{
    parents<1>(4);
}

VC(graduate_1d)
{
    graduate<1>(3);
}

VC(to_coarsen_1d_1)
{
    coarsen<1, 1, false>(3);
}

VC(to_refine_1d_1)
{
    refine<1, 1, false>(3);
}

VC(to_coarsen_1d_2a)
{
    coarsen<1, 2, false>(3);
}

VC(to_refine_1d_2a)
{
    refine<1, 2, false>(1);
}

VC(to_coarsen_1d_2s)
{
    coarsen<1, 2, true>(3);
}

VC(to_refine_1d_2s)
{
    refine<1, 2, true>(1);
}
