// C09: transfer between levels, dimension 2
#include "c09_transfer.hpp"
//@opt vc_* bound=rows of at most 3 coarse cells; position, level and values arbitrary

VC(projection_2d_1a)
{
    projection<2, 1, false>();
}

VC(projection_2d_2a)
{
    projection<2, 2, false>();
}

VC(projection_2d_2s)
{
    projection<2, 2, true>();
}

VC(prediction_2d_0_0_1a)
{
    prediction<2, 0, false, 1, false>();
}

VC(prediction_2d_0_0_2a)
{
    prediction<2, 0, false, 2, false>();
}

VC(prediction_2d_0_0_2s)
{
    prediction<2, 0, false, 2, true>();
}

VC(prediction_2d_0_1_1a)
{
    prediction<2, 0, true, 1, false>();
}

VC(prediction_2d_0_1_2a)
{
    prediction<2, 0, true, 2, false>();
}

VC(prediction_2d_0_1_2s)
{
    prediction<2, 0, true, 2, true>();
}

VC(prediction_2d_1_0_1a)
{
    prediction<2, 1, false, 1, false>();
}

VC(prediction_2d_1_0_2a)
{
    prediction<2, 1, false, 2, false>();
}

VC(prediction_2d_1_0_2s)
{
    prediction<2, 1, false, 2, true>();
}

VC(separable_2d_1_0)
{
    prediction<2, 1, false, 1, false>(true);
}

VC(prediction_2d_1_1_1a)
{
    prediction<2, 1, true, 1, false>();
}

VC(prediction_2d_1_1_2a)
{
    prediction<2, 1, true, 2, false>();
}

VC(prediction_2d_1_1_2s)
{
    prediction<2, 1, true, 2, true>();
}

VC(separable_2d_1_1)
{
    prediction<2, 1, true, 1, false>(true);
}

VC(prediction_2d_2_0_1a)
{
    prediction<2, 2, false, 1, false>();
}

VC(separable_2d_2_0)
{
    prediction<2, 2, false, 1, false>(true);
}

VC(prediction_2d_2_1_1a)
{
    prediction<2, 2, true, 1, false>();
}

VC(separable_2d_2_1)
{
    prediction<2, 2, true, 1, false>(true);
}

VC(prediction_2d_3_0_1a)
{
    prediction<2, 3, false, 1, false>();
}

VC(separable_2d_3_0)
{
    prediction<2, 3, false, 1, false>(true);
}

VC(prediction_2d_3_1_1a)
{
    prediction<2, 3, true, 1, false>();
}

VC(separable_2d_3_1)
{
    prediction<2, 3, true, 1, false>(true);
}

VC(prediction_2d_4_0_1a)
{
    prediction<2, 4, false, 1, false>();
}

VC(separable_2d_4_0)
{
    prediction<2, 4, false, 1, false>(true);
}

VC(prediction_2d_4_1_1a)
{
    prediction<2, 4, true, 1, false>();
}

VC(separable_2d_4_1)
{
    prediction<2, 4, true, 1, false>(true);
}

VC(prediction_2d_5_0_1a)
{
    prediction<2, 5, false, 1, false>();
}

VC(separable_2d_5_0)
{
    prediction<2, 5, false, 1, false>(true);
}

VC(prediction_2d_5_1_1a)
{
    prediction<2, 5, true, 1, false>();
}

VC(separable_2d_5_1)
{
    prediction<2, 5, true, 1, false>(true);
}

VC(detail_2d_1_1a)
{
    details<2, 1, 1, false>(false);
}

VC(detail_2d_2_1a)
{
    details<2, 2, 1, false>(false);
}

VC(detail_2d_1_2a)
{
    details<2, 1, 2, false>(false);
}

VC(detail_2d_1_2s)
{
    details<2, 1, 2, true>(false);
}

VC(detail_base_2d)
{
    details<2, 1, 1, false>(true);
}

// known finding: the mixed terms. The means of x*y over the coarse cells (X,Y), X,Y in {-1,0,1}, are predicted with the wrong sign.
KF(prediction_mixed_terms)
{
    using M = WinMesh<2, 1>;
    M m;
    m.level0 = 3;
    m.window(0, {0, 0, 0}, {-1, -1, 0}, {2, 2, 1});
    m.window(1, {0, 0, 0}, {0, 0, 0}, {2, 2, 1});
    samurai::Field<M, double, 1, false> f("f", m);
    for (int x = -1; x <= 1; ++x)
    {
        for (int y = -1; y <= 1; ++y)
        {
            f.array().data()[m.at(0, x, y)] = (x + .5) * (y + .5);
        }
    }
    samurai::prediction<1, true>(f)(3, M::interval_t{0, 1}, 0);
    vp_assert(vp_eq(f.array().data()[m.at(1, 0, 0)], .25 * .25), "the-mixed-polynomial-xy-is-reproduced");
}
