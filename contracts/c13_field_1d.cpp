#include "c13_field.hpp"
//@opt bc_refused* max=3000 time=10 bound=seeded random meshes of the same shapes
//@opt vc_* bound=meshes of at most 2 root cells (2 x 2 in 2-D) with at most 2 refinements (1 in 3-D); values and position arbitrary
using M  = MR<1, 1, 1>;
using F1 = samurai::Field<M, double, 1>;
using FA = samurai::Field<M, double, 2, false>;
using FS = samurai::Field<M, double, 2, true>;
static Tree<1> any() { return small_tree<1>(2, 1, 1, 2); }
static Tree<1> less() { return small_tree<1>(2, 1, 1, 1); }
VC(reading_scalar_1d) { reading<1, M, F1>(any()); }
VC(reading_aos_1d) { reading<1, M, FA>(less()); }
VC(reading_soa_1d) { reading<1, M, FS>(less()); }
VC(writing_scalar_1d) { writing<1, M, F1>(less()); }
VC(writing_aos_1d) { writing<1, M, FA>(less()); }
VC(writing_soa_1d) { writing<1, M, FS>(less()); }
VC(expression_scalar_1d) { expression<1, M, F1>(any()); }
VC(expression_aos_1d) { expression<1, M, FA>(less()); }
VC(expression_soa_1d) { expression<1, M, FS>(less()); }
VC(copies_scalar_1d) { copies<1, M, F1>(less()); }
VC(copies_aos_1d) { copies<1, M, FA>(less()); }
VC(compared_1d) { compared<1, M>(less()); }
VC(iterated_scalar_1d) { iterated<1, M, F1>(any()); }
VC(iterated_soa_1d) { iterated<1, M, FS>(less()); }
VC(from_function_1d) { from_function<1, M>(any()); }
BC(refused_scalar_1d) { refused<1, M, F1>(less()); }
BC(refused_soa_1d) { refused<1, M, FS>(less()); }
