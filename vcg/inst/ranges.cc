// Entry points for the contracts of the index ranges (C05, C06).
#include <tensor/tensor.h>
using namespace tensor;
typedef tensor::index ix;
#define S extern "C"
// the protocol every slice follows: set_limit, size, set_factor, reset, pop until nomore
static inline void walk(Range *r,ix L,ix F,ix p,Indices &o,ix *info) {
  r->set_limit(L); info[0]=r->size(); info[1]=r->get_limit();
  r->set_factor(F); info[2]=r->get_factor(); r->reset();
  for (ix i=0;i<p;i++) r->pop();       // a partial traversal, then start again
  r->reset();
  ix n=o.size(); Indices::iterator q=o.begin();
  for (ix i=0;i<n;i++) q[i]=r->pop();
  info[3]=r->pop(); info[4]=r->pop(); info[5]=r->nomore(); delete r;
}
static inline void twice(Range *r,ix L,ix F0,ix F,Indices &o,ix *info) {
  r->set_limit(L); r->set_factor(F0); r->set_factor(F); r->reset(); info[2]=r->get_factor();
  ix n=o.size(); Indices::iterator q=o.begin();
  for (ix i=0;i<n;i++) q[i]=r->pop();
  info[3]=r->pop(); delete r;
}
#define W(nm,args,expr) S void walk_##nm(args,ix L,ix F,ix p,Indices &o,ix *info){ walk(expr,L,F,p,o,info); } S void twice_##nm(args,ix L,ix F0,ix F,Indices &o,ix *info){ twice(expr,L,F0,F,o,info); } \
 S void limit_##nm(args,ix L){ Range *r=expr; r->set_limit(L); delete r; }
#define COMMA ,
W(full,ix z,range())
W(single,ix i,range(i))
W(step1,ix a COMMA ix b,range(a COMMA b))
W(step,ix a COMMA ix b COMMA ix s,range(a COMMA b COMMA s))
W(list,const Indices &l,range(l))
// products
S Range *prod_new(Range *a,Range *b){ return product(a,b); }
S void prod_factor(Range *a,Range *b,ix F,ix *info){ Range *p=product(a,b); p->set_factor(F); info[0]=p->size(); delete p; }
S Range *prod_reset(Range *a,Range *b,ix F){ Range *p=product(a,b); if(F!=1) p->set_factor(F); p->reset(); return p; }
S ix range_pop(Range *p){ return p->pop(); }
S void range_reset(Range *p){ p->reset(); }
S ix range_size(Range *p){ return p->size(); }
S void range_delete(Range *p){ delete p; }
// as one-dimensional slices use them: no set_factor
#define W1(nm,args,expr) S void line_##nm(args,ix L,Indices &o,ix *info){ Range *r=expr; r->set_limit(L); info[0]=r->size(); r->reset(); \
  ix n=o.size(); Indices::iterator q=o.begin(); for (ix i=0;i<n;i++) q[i]=r->pop(); info[3]=r->pop(); delete r; }
W1(full,ix z,range())
W1(single,ix i,range(i))
W1(step1,ix a COMMA ix b,range(a COMMA b))
W1(step,ix a COMMA ix b COMMA ix s,range(a COMMA b COMMA s))
W1(list,const Indices &l,range(l))
