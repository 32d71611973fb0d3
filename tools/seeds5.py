RC='include/tensor/detail/refcount.hpp'; RH='include/tensor/refcount.h'; TB='include/tensor/detail/tensor_base.hpp'; SB='include/tensor/detail/sparse_base.hpp'; VH='include/tensor/vector.h'
COUNT='''static long live=0; static int on=0; struct HD{ long lib; long pad; };
static void*tk(size_t n){ HD*h=(HD*)malloc(n+sizeof(HD)); h->lib=on; if(on) live++; return h+1; } static void gv(void*p){ if(!p) return; HD*h=((HD*)p)-1; if(h->lib) live--; free(h); }
'''
OPS='''struct Ops{}; '''
S('C01-a','C01',[(RC,'  int references_;\n  bool owned_;','  bool owned_;\n  signed char references_;'),(RC,'data_(0), size_(0), references_(1), owned_(true)','data_(0), size_(0), owned_(true), references_(1)'),(RC,'data_(data), size_(size), references_(1), owned_(owned)','data_(data), size_(size), owned_(owned), references_(1)')],
'''RVector a(3); a.at(0)=1; a.at(1)=2; a.at(2)=3; static RVector c[140]; for(int i=0;i<129;i++) c[i]=a; c[60].at(0)=9; CHECK(a[0]==1); CHECK(c[128][0]==1); CHECK(c[60][0]==9);''',
'more than 127 copies of the same vector','a write through one copy changes the others')
S('C01-b','C01',[(SB,'''    row_start_ = s.row_start_;
    column_ = s.column_;
    data_ = s.data_;
    dims_ = s.dims_;
    return *this;''','''    if (s.length() == 0 && length() == 0 && rows() == s.rows()) {
      /* Both matrices are already empty */
      return *this;
    }
    row_start_ = s.row_start_;
    column_ = s.column_;
    data_ = s.data_;
    dims_ = s.dims_;
    return *this;''')],
'''RSparse a(3,2), b(3,5); b=a; CHECK(b.columns()==2); CHECK(b.rows()==3); RTensor f=full(b); CHECK(f.columns()==2);''',
'assignment between sparse matrices without elements that differ in the number of columns','the target keeps its old number of columns')
S('C01-c','C01',[(TB,'''void Tensor<elt_t>::fill_with(const elt_t &e) {
''','''void Tensor<elt_t>::fill_with(const elt_t &e) {
  const Vector<elt_t> &current = data_;
  if (size() > 64) {
    elt_t *p = const_cast<elt_t *>(current.begin());
    std::fill(p, p + size(), e);
    return;
  }
''')],
'''RTensor a(10,10); a.fill_with(2.0); RTensor b(a); b.fill_with(0.0); for(int i=0;i<100;i++){ CHECK(a[i]==2.0); CHECK(b[i]==0.0); }''',
'filling a tensor with more than 64 elements that shares its storage with a copy','the copy is filled as well')
S('C02-a','C02',[(RC,'''  dereference();
  ref_ = new pointer(new elt_t[new_size], new_size);
}''','''  if (ref_count() == 1 && new_size == size() && new_size > 0)
    return;
  dereference();
  ref_ = new pointer(new elt_t[new_size], new_size);
}''')],
'''double ext[3]={1,2,3}; RVector v(3,ext); v.resize(3); for(int i=0;i<3;i++) v.at(i)=7; CHECK(ext[0]==1); CHECK(ext[1]==2); CHECK(ext[2]==3);''',
'resizing a vector over external memory to the same size','the vector keeps writing to the external memory')
S('C02-b','C02',[(RC,'''    std::copy(begin(), end(), output);
    return new pointer(output, size());''','''    std::copy(begin(), end(), output);
    return new pointer(output, size(), owned_);''')],
'''double ext[1000]; for(int i=0;i<1000;i++) ext[i]=i; RVector z(1000); struct mallinfo2 m0=mallinfo2(); for(int k=0;k<500;k++){ RVector v(1000,ext); RVector w(v); w.at(0)=5; CHECK(ext[0]==0); } struct mallinfo2 m1=mallinfo2(); CHECK(m1.uordblks < m0.uordblks+1000000);''',
'writing to a copy of a vector that wraps external memory','the detached storage is never released',PRE+'#include <malloc.h>\n')
S('C02-c','C02',[(RC,'  int references_;\n','  unsigned char references_;\n')],
'''RVector a(3); a.at(0)=1; a.at(1)=2; a.at(2)=3; { static RVector dummy; RVector *c=new RVector[256]; for(int i=0;i<256;i++) c[i]=a; delete[] c; } RVector b(3); b.at(0)=5; b.at(1)=6; b.at(2)=7; CHECK(a[0]==1); CHECK(a[1]==2);CHECK(a[2]==3);''',
'more than 255 copies of the same vector alive together','storage is released while the original still uses it')
SD='src/tensor/tensor_sort_d.cc'; SI='src/tensor/tensor_sort_i.cc'
S('C21-a','C21',[(SD,'      return p[i1] < p [i2];','      return static_cast<float>(p[i1]) < static_cast<float>(p [i2]);')],
'''RTensor v(4); v.at(0)=1.0+3e-12; v.at(1)=1.0+2e-12; v.at(2)=1.0+1e-12; v.at(3)=1.0; Indices p=sort_indices(v); for(int i=0;i+1<4;i++) CHECK(v[p[i]]<=v[p[i+1]]);''',
'values that differ by less than single precision','the positions come out in the wrong order')
S('C21-b','C21',[(SD,'''    RTensor output(v);
    if (reverse) {
''','''    RTensor output(v);
    if (v.size() > 8 && !reverse && v[v.size()/2] <= v[v.size()-1] &&
        std::is_sorted(v.begin(), v.begin() + (v.size()-1))) {
      /* Already sorted */
      return output;
    }
    if (reverse) {
''')],
'''RTensor v(10); for(int i=0;i<10;i++) v.at(i)=i; v.at(9)=6.5; RTensor r=sort(v); for(int i=0;i+1<10;i++) CHECK(r[i]<=r[i+1]);''',
'more than eight elements, all but the last already sorted','the result is not sorted')
S('C21-c','C21',[(SI,'      return p[i1] > p[i2];','      return static_cast<int>(p[i1]) > static_cast<int>(p[i2]);')],
'''Indices v(3); v.at(0)=5; v.at(1)=(1L<<32)+1; v.at(2)=3; Indices p=sort_indices(v,true); for(int i=0;i+1<3;i++) CHECK(v[p[i]]>=v[p[i+1]]);''',
'index lists with values beyond 32 bits, decreasing order','the positions come out in the wrong order')
