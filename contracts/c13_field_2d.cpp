#include "c13_field.hpp"
//@opt bc_refused* max=3000 time=10 bound=seeded random meshes of the same shapes
//@opt vc_* bound=meshes of at most 2 root cells (2 x 2 in 2-D) with at most 2 refinements (1 in 3-D); values and position arbitrary
using M  = MR<2, 1, 1>;
using F1 = samurai::Field<M, double, 1>;
using FA = samurai::Field<M, double, 2, false>;
using FS = samurai::Field<M, double, 2, true>;
static Tree<2> any() { return small_tree<2>(2, 2, 1, 2); }
static Tree<2> less() { return small_tree<2>(1, 1, 1, 1); }
VC(reading_scalar_2d) { reading<2, M, F1>(any()); }
VC(reading_aos_2d) { reading<2, M, FA>(less()); }
VC(reading_soa_2d) { reading<2, M, FS>(less()); }
VC(writing_scalar_2d) { writing<2, M, F1>(less()); }
VC(writing_aos_2d) { writing<2, M, FA>(less()); }
VC(writing_soa_2d) { writing<2, M, FS>(less()); }
VC(expression_scalar_2d) { expression<2, M, F1>(any()); }
VC(expression_aos_2d) { expression<2, M, FA>(less()); }
VC(expression_soa_2d) { expression<2, M, FS>(less()); }
VC(copies_scalar_2d) { copies<2, M, F1>(less()); }
VC(copies_aos_2d) { copies<2, M, FA>(less()); }
VC(compared_2d) { compared<2, M>(less()); }
VC(iterated_scalar_2d) { iterated<2, M, F1>(any()); }
VC(iterated_soa_2d) { iterated<2, M, FS>(less()); }
VC(from_function_2d) { from_function<2, M>(any()); }
BC(refused_scalar_2d) { refused<2, M, F1>(less()); }
BC(refused_soa_2d) { refused<2, M, FS>(less()); }
