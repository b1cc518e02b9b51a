#include "c13_field.hpp"
//@opt bc_refused* max=3000 time=10 bound=seeded random meshes of the same shapes
//@opt vc_* bound=meshes of at most 2 root cells (2 x 2 in 2-D) with at most 2 refinements (1 in 3-D); values and position arbitrary
using M  = MR<3, 1, 1>;
using F1 = samurai::Field<M, double, 1>;
using FA = samurai::Field<M, double, 2, false>;
using FS = samurai::Field<M, double, 2, true>;
static Tree<3> any() { return small_tree<3>(2, 1, 1, 1); }
static Tree<3> less() { return small_tree<3>(1, 1, 1, 1); }
VC(reading_scalar_3d) { reading<3, M, F1>(any()); }
VC(reading_aos_3d) { reading<3, M, FA>(less()); }
VC(reading_soa_3d) { reading<3, M, FS>(less()); }
VC(writing_scalar_3d) { writing<3, M, F1>(less()); }
VC(writing_aos_3d) { writing<3, M, FA>(less()); }
VC(writing_soa_3d) { writing<3, M, FS>(less()); }
VC(expression_scalar_3d) { expression<3, M, F1>(any()); }
VC(expression_aos_3d) { expression<3, M, FA>(less()); }
VC(expression_soa_3d) { expression<3, M, FS>(less()); }
VC(copies_scalar_3d) { copies<3, M, F1>(less()); }
VC(copies_aos_3d) { copies<3, M, FA>(less()); }
VC(compared_3d) { compared<3, M>(less()); }
VC(iterated_scalar_3d) { iterated<3, M, F1>(any()); }
VC(iterated_soa_3d) { iterated<3, M, FS>(less()); }
VC(from_function_3d) { from_function<3, M>(any()); }
BC(refused_scalar_3d) { refused<3, M, F1>(less()); }
BC(refused_soa_3d) { refused<3, M, FS>(less()); }
