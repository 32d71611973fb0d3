// Entry points for the contracts of C05 (reading slices).
#include <tensor/tensor.h>
using namespace tensor;
typedef tensor::index ix;
#define S extern "C"
S RTensor view1_d(const RTensor &A,Range *r1){ return A(PRange(r1)); }
S RTensor view2_d(const RTensor &A,Range *r1,Range *r2){ return A(PRange(r1),PRange(r2)); }
S RTensor view3_d(const RTensor &A,Range *r1,Range *r2,Range *r3){ return A(PRange(r1),PRange(r2),PRange(r3)); }
S RTensor view4_d(const RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4){ return A(PRange(r1),PRange(r2),PRange(r3),PRange(r4)); }
S RTensor view5_d(const RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5){ return A(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5)); }
S RTensor view6_d(const RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,Range *r6){ return A(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5),PRange(r6)); }
S CTensor view1_z(const CTensor &A,Range *r1){ return A(PRange(r1)); }
S CTensor view2_z(const CTensor &A,Range *r1,Range *r2){ return A(PRange(r1),PRange(r2)); }
S CTensor view3_z(const CTensor &A,Range *r1,Range *r2,Range *r3){ return A(PRange(r1),PRange(r2),PRange(r3)); }
S CTensor view4_z(const CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4){ return A(PRange(r1),PRange(r2),PRange(r3),PRange(r4)); }
S CTensor view5_z(const CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5){ return A(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5)); }
S CTensor view6_z(const CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,Range *r6){ return A(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5),PRange(r6)); }
