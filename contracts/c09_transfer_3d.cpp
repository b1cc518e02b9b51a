// C09: transfer between levels, dimension 3
#include "c09_transfer.hpp"
//@opt vc_* bound=rows of at most 3 coarse cells; position, level and values arbitrary

VC(projection_3d_1a)
{
    projection<3, 1, false>();
}

VC(projection_3d_2a)
{
    projection<3, 2, false>();
}

VC(projection_3d_2s)
{
    projection<3, 2, true>();
}

VC(prediction_3d_0_0_1a)
{
    prediction<3, 0, false, 1, false>();
}

VC(prediction_3d_0_0_2a)
{
    prediction<3, 0, false, 2, false>();
}

VC(prediction_3d_0_0_2s)
{
    prediction<3, 0, false, 2, true>();
}

VC(prediction_3d_0_1_1a)
{
    prediction<3, 0, true, 1, false>();
}

VC(prediction_3d_0_1_2a)
{
    prediction<3, 0, true, 2, false>();
}

VC(prediction_3d_0_1_2s)
{
    prediction<3, 0, true, 2, true>();
}

VC(prediction_3d_1_0_1a)
{
    prediction<3, 1, false, 1, false>();
}

VC(prediction_3d_1_0_2a)
{
    prediction<3, 1, false, 2, false>();
}

VC(prediction_3d_1_0_2s)
{
    prediction<3, 1, false, 2, true>();
}

VC(separable_3d_1_0)
{
    prediction<3, 1, false, 1, false>(true);
}

VC(prediction_3d_1_1_1a)
{
    prediction<3, 1, true, 1, false>();
}

VC(prediction_3d_1_1_2a)
{
    prediction<3, 1, true, 2, false>();
}

VC(prediction_3d_1_1_2s)
{
    prediction<3, 1, true, 2, true>();
}

VC(separable_3d_1_1)
{
    prediction<3, 1, true, 1, false>(true);
}

VC(prediction_3d_2_0_1a)
{
    prediction<3, 2, false, 1, false>();
}

VC(separable_3d_2_0)
{
    prediction<3, 2, false, 1, false>(true);
}

VC(prediction_3d_2_1_1a)
{
    prediction<3, 2, true, 1, false>();
}

VC(separable_3d_2_1)
{
    prediction<3, 2, true, 1, false>(true);
}

//@opt vc_prediction_3d_3_0_1a tier=thorough time=800
VC(prediction_3d_3_0_1a)
{
    prediction<3, 3, false, 1, false>();
}

//@opt vc_separable_3d_3_0 tier=thorough time=800
VC(separable_3d_3_0)
{
    prediction<3, 3, false, 1, false>(true);
}

//@opt vc_prediction_3d_3_1_1a tier=thorough time=800
VC(prediction_3d_3_1_1a)
{
    prediction<3, 3, true, 1, false>();
}

//@opt vc_separable_3d_3_1 tier=thorough time=800
VC(separable_3d_3_1)
{
    prediction<3, 3, true, 1, false>(true);
}

//@opt vc_prediction_3d_4_0_1a tier=thorough time=800
VC(prediction_3d_4_0_1a)
{
    prediction<3, 4, false, 1, false>();
}

//@opt vc_separable_3d_4_0 tier=thorough time=800
VC(separable_3d_4_0)
{
    prediction<3, 4, false, 1, false>(true);
}

//@opt vc_prediction_3d_4_1_1a tier=thorough time=800
VC(prediction_3d_4_1_1a)
{
    prediction<3, 4, true, 1, false>();
}

//@opt vc_separable_3d_4_1 tier=thorough time=800
VC(separable_3d_4_1)
{
    prediction<3, 4, true, 1, false>(true);
}

//@opt vc_prediction_3d_5_0_1a tier=thorough time=800
VC(prediction_3d_5_0_1a)
{
    prediction<3, 5, false, 1, false>();
}

//@opt vc_separable_3d_5_0 tier=thorough time=800
VC(separable_3d_5_0)
{
    prediction<3, 5, false, 1, false>(true);
}

//@opt vc_prediction_3d_5_1_1a tier=thorough time=800
VC(prediction_3d_5_1_1a)
{
    prediction<3, 5, true, 1, false>();
}

//@opt vc_separable_3d_5_1 tier=thorough time=800
VC(separable_3d_5_1)
{
    prediction<3, 5, true, 1, false>(true);
}

VC(detail_3d_1_1a)
{
    details<3, 1, 1, false>(false);
}

VC(detail_3d_2_1a)
{
    details<3, 2, 1, false>(false);
}

VC(detail_3d_1_2a)
{
    details<3, 1, 2, false>(false);
}

VC(detail_3d_1_2s)
{
    details<3, 1, 2, true>(false);
}

VC(detail_base_3d)
{
    details<3, 1, 1, false>(true);
}
