// C09: transfer between levels, dimension 1
#include "c09_transfer.hpp"
//@opt vc_* bound=rows of at most 3 coarse cells; position, level and values arbitrary
//@opt vc_interpolation_coefficients bound=

//@opt vc_interpolation_coefficients native=0
VC(interpolation_coefficients)
{
    lemma<0>();
    lemma<1>();
    lemma<2>();
    lemma<3>();
    lemma<4>();
    lemma<5>();
}

VC(projection_1d_1a)
{
    projection<1, 1, false>();
}

VC(projection_1d_2a)
{
    projection<1, 2, false>();
}

VC(projection_1d_2s)
{
    projection<1, 2, true>();
}

VC(prediction_1d_0_0_1a)
{
    prediction<1, 0, false, 1, false>();
}

VC(prediction_1d_0_0_2a)
{
    prediction<1, 0, false, 2, false>();
}

VC(prediction_1d_0_0_2s)
{
    prediction<1, 0, false, 2, true>();
}

VC(prediction_1d_0_1_1a)
{
    prediction<1, 0, true, 1, false>();
}

VC(prediction_1d_0_1_2a)
{
    prediction<1, 0, true, 2, false>();
}

VC(prediction_1d_0_1_2s)
{
    prediction<1, 0, true, 2, true>();
}

VC(prediction_1d_1_0_1a)
{
    prediction<1, 1, false, 1, false>();
}

VC(prediction_1d_1_0_2a)
{
    prediction<1, 1, false, 2, false>();
}

VC(prediction_1d_1_0_2s)
{
    prediction<1, 1, false, 2, true>();
}

VC(prediction_1d_1_1_1a)
{
    prediction<1, 1, true, 1, false>();
}

VC(prediction_1d_1_1_2a)
{
    prediction<1, 1, true, 2, false>();
}

VC(prediction_1d_1_1_2s)
{
    prediction<1, 1, true, 2, true>();
}

VC(prediction_1d_2_0_1a)
{
    prediction<1, 2, false, 1, false>();
}

VC(prediction_1d_2_1_1a)
{
    prediction<1, 2, true, 1, false>();
}

VC(prediction_1d_3_0_1a)
{
    prediction<1, 3, false, 1, false>();
}

VC(prediction_1d_3_1_1a)
{
    prediction<1, 3, true, 1, false>();
}

VC(prediction_1d_4_0_1a)
{
    prediction<1, 4, false, 1, false>();
}

VC(prediction_1d_4_1_1a)
{
    prediction<1, 4, true, 1, false>();
}

VC(prediction_1d_5_0_1a)
{
    prediction<1, 5, false, 1, false>();
}

VC(prediction_1d_5_1_1a)
{
    prediction<1, 5, true, 1, false>();
}

VC(detail_1d_1_1a)
{
    details<1, 1, 1, false>(false);
}

VC(detail_1d_2_1a)
{
    details<1, 2, 1, false>(false);
}

VC(detail_1d_1_2a)
{
    details<1, 1, 2, false>(false);
}

VC(detail_1d_1_2s)
{
    details<1, 1, 2, true>(false);
}

VC(detail_base_1d)
{
    details<1, 1, 1, false>(true);
}
