// Entry points for the contracts of C06 (assigning to slices).
#include <tensor/tensor.h>
using namespace tensor;
typedef tensor::index ix;
#define S extern "C"
S void set_s1_d(RTensor &A,Range *r1,double v){ A.at(PRange(r1))=v; }
S void set_t1_d(RTensor &A,Range *r1,const RTensor &B){ A.at(PRange(r1))=B; }
S void set_v1_d(RTensor &A,Range *r1,const RTensor &B,Range *q1){ A.at(PRange(r1))=B(PRange(q1)); }
S void set_s2_d(RTensor &A,Range *r1,Range *r2,double v){ A.at(PRange(r1),PRange(r2))=v; }
S void set_t2_d(RTensor &A,Range *r1,Range *r2,const RTensor &B){ A.at(PRange(r1),PRange(r2))=B; }
S void set_v2_d(RTensor &A,Range *r1,Range *r2,const RTensor &B,Range *q1,Range *q2){ A.at(PRange(r1),PRange(r2))=B(PRange(q1),PRange(q2)); }
S void set_s3_d(RTensor &A,Range *r1,Range *r2,Range *r3,double v){ A.at(PRange(r1),PRange(r2),PRange(r3))=v; }
S void set_t3_d(RTensor &A,Range *r1,Range *r2,Range *r3,const RTensor &B){ A.at(PRange(r1),PRange(r2),PRange(r3))=B; }
S void set_v3_d(RTensor &A,Range *r1,Range *r2,Range *r3,const RTensor &B,Range *q1,Range *q2,Range *q3){ A.at(PRange(r1),PRange(r2),PRange(r3))=B(PRange(q1),PRange(q2),PRange(q3)); }
S void set_s4_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,double v){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4))=v; }
S void set_t4_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,const RTensor &B){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4))=B; }
S void set_v4_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,const RTensor &B,Range *q1,Range *q2,Range *q3,Range *q4){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4))=B(PRange(q1),PRange(q2),PRange(q3),PRange(q4)); }
S void set_s5_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,double v){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5))=v; }
S void set_t5_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,const RTensor &B){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5))=B; }
S void set_v5_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,const RTensor &B,Range *q1,Range *q2,Range *q3,Range *q4,Range *q5){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5))=B(PRange(q1),PRange(q2),PRange(q3),PRange(q4),PRange(q5)); }
S void set_s6_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,Range *r6,double v){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5),PRange(r6))=v; }
S void set_t6_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,Range *r6,const RTensor &B){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5),PRange(r6))=B; }
S void set_v6_d(RTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,Range *r6,const RTensor &B,Range *q1,Range *q2,Range *q3,Range *q4,Range *q5,Range *q6){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5),PRange(r6))=B(PRange(q1),PRange(q2),PRange(q3),PRange(q4),PRange(q5),PRange(q6)); }
S void set_s1_z(CTensor &A,Range *r1,const cdouble &v){ A.at(PRange(r1))=v; }
S void set_t1_z(CTensor &A,Range *r1,const CTensor &B){ A.at(PRange(r1))=B; }
S void set_v1_z(CTensor &A,Range *r1,const CTensor &B,Range *q1){ A.at(PRange(r1))=B(PRange(q1)); }
S void set_s2_z(CTensor &A,Range *r1,Range *r2,const cdouble &v){ A.at(PRange(r1),PRange(r2))=v; }
S void set_t2_z(CTensor &A,Range *r1,Range *r2,const CTensor &B){ A.at(PRange(r1),PRange(r2))=B; }
S void set_v2_z(CTensor &A,Range *r1,Range *r2,const CTensor &B,Range *q1,Range *q2){ A.at(PRange(r1),PRange(r2))=B(PRange(q1),PRange(q2)); }
S void set_s3_z(CTensor &A,Range *r1,Range *r2,Range *r3,const cdouble &v){ A.at(PRange(r1),PRange(r2),PRange(r3))=v; }
S void set_t3_z(CTensor &A,Range *r1,Range *r2,Range *r3,const CTensor &B){ A.at(PRange(r1),PRange(r2),PRange(r3))=B; }
S void set_v3_z(CTensor &A,Range *r1,Range *r2,Range *r3,const CTensor &B,Range *q1,Range *q2,Range *q3){ A.at(PRange(r1),PRange(r2),PRange(r3))=B(PRange(q1),PRange(q2),PRange(q3)); }
S void set_s4_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,const cdouble &v){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4))=v; }
S void set_t4_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,const CTensor &B){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4))=B; }
S void set_v4_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,const CTensor &B,Range *q1,Range *q2,Range *q3,Range *q4){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4))=B(PRange(q1),PRange(q2),PRange(q3),PRange(q4)); }
S void set_s5_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,const cdouble &v){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5))=v; }
S void set_t5_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,const CTensor &B){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5))=B; }
S void set_v5_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,const CTensor &B,Range *q1,Range *q2,Range *q3,Range *q4,Range *q5){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5))=B(PRange(q1),PRange(q2),PRange(q3),PRange(q4),PRange(q5)); }
S void set_s6_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,Range *r6,const cdouble &v){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5),PRange(r6))=v; }
S void set_t6_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,Range *r6,const CTensor &B){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5),PRange(r6))=B; }
S void set_v6_z(CTensor &A,Range *r1,Range *r2,Range *r3,Range *r4,Range *r5,Range *r6,const CTensor &B,Range *q1,Range *q2,Range *q3,Range *q4,Range *q5,Range *q6){ A.at(PRange(r1),PRange(r2),PRange(r3),PRange(r4),PRange(r5),PRange(r6))=B(PRange(q1),PRange(q2),PRange(q3),PRange(q4),PRange(q5),PRange(q6)); }
