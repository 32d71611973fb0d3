S('C07-a','C07',[('src/generated/tensor_minus_tn_cdouble.cc','*dest = (a) - (*itb);','*dest = cdouble(a.real() - (*itb).real(), (*itb).imag() - a.imag());')] if 'cdouble' in open('/repo/src/generated/tensor_minus_tn_cdouble.cc').read() and False else
 [('include/tensor/detail/tensor_ops.hpp','  std::transform(a.begin(), a.end(), a.begin(), times_constant<t1,t2>(b));\n  return a;','  t1 *it = const_cast<t1*>(a.begin_const());\n  std::transform(it, it + a.size(), it, times_constant<t1,t2>(b));\n  return a;')],
'''RTensor a(2,2); a.fill_with(3.0); RTensor b(a); a *= 2.0; CHECK(a[3]==6.0); CHECK(b[0]==3.0 && b[3]==3.0);''',
'a tensor multiplied in place by a scalar while another tensor shares its storage','a *= scalar also changes every copy of a (operator*= no longer detaches)')
S('C07-b','C07',[('src/tensor/tensor_round_d.cc','return ::round(i);','return ::floor(i + 0.5);')],
'''RTensor a(3); a.at(0)=-1.5; a.at(1)=2.5; a.at(2)=-2.25; RTensor b=round(a); CHECK(b[0]==-2.0); CHECK(b[1]==3.0); CHECK(b[2]==-2.0);''',
'negative elements halfway between two integers','round() takes negative halves towards plus infinity')
S('C10-a','C10',[('src/tensor/matrix_adjoint.cc','''    if (cols && rows) {''','''    if (rows == cols && rows > 64) {
      // square matrices: swap pairs across the diagonal of a copy
      Tensor<n> c(a);
      for (index j = 0; j < cols; j++)
        for (index i = 0; i < j; i++) {
          n x = c(i,j);
          c.at(i,j) = tensor::conj(c(j,i));
          c.at(j,i) = tensor::conj(x);
        }
      return c;
    }
    if (cols && rows) {''')],
'''CTensor a(70,70); for(int i=0;i<4900;i++) a.at(i)=cdouble(i,i+1); CTensor b=adjoint(a); for(int i=0;i<70;i++) for(int j=0;j<70;j++) CHECK(b(i,j)==std::conj(a(j,i)));''',
'a square complex matrix with more than 64 rows and complex diagonal elements','the diagonal is not conjugated')
S('C10-b','C10',[('src/tensor/tensor_permute.cc','} else if (n2 == n1) {','} else if (ndx2 == ndx1) {')],
'''RTensor a(Indices(igen<<2<<3<<2)); for(int i=0;i<12;i++) a.at(i)=i; RTensor b=permute(a,1,-2); CHECK(b.dimension(0)==2 && b.dimension(1)==3 && b.dimension(2)==2);
for(int i=0;i<12;i++) CHECK(a[i]==b[i]);''',
'the same index named once from the front and once from the end','permute(a,i,i-rank) is no longer the identity')
