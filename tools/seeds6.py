SB='include/tensor/detail/sparse_base.hpp'; BO='src/sparse/sparse_binop.hpp'; LS='src/sparse/mmult_sparse_tensor.h'; RS='src/sparse/mmult_tensor_sparse.h'
S('C17-a','C17',[(SB,'      index this_col = column_[ndx1];','      const int this_col = static_cast<int>(column_[ndx1]);')],
'''Indices d(2),r(2),c(1); d.at(0)=1; d.at(1)=1L<<33; r.at(0)=0; r.at(1)=1; c.at(0)=(1L<<32)+1; RTensor v(tensor::index(1)); v.at(0)=3; RSparse s(d,r,c,v); CHECK(s(0,(1L<<32)+1)==3); CHECK(s(0,1)==0);''',
'a matrix with more than 2^31 columns','entries beyond that column are not found, and others appear in their place',PRE)
S('C17-b','C17',[(SB,'      if (!(*it == number_zero<elt_t>())) counter++;','      if (abs(*it) >= std::numeric_limits<double>::min()) counter++;'),(SB,'        if (!(v == number_zero<elt_t>())) {','        if (abs(v) >= std::numeric_limits<double>::min()) {'),(SB,'#include <cassert>\n','#include <cassert>\n#include <limits>\n')],
'''RTensor t=RTensor::zeros(2,2); t.at(0,1)=1e-310; RSparse s(t); CHECK(full(s)(0,1)==1e-310); CHECK(s(0,1)==1e-310);''',
'a dense matrix with a tiny (subnormal) element','the element is lost in the sparse form',PRE)
S('C17-c','C17',[(SB,'''      } else if (this_col > col) {
        break;
      }''','''      } else if (this_col > col) {
        break;
      } else if (this_col < 0) {
        break;
      } else if (col - this_col > ndx2 - ndx1 + 64 && data_[ndx1] == elt_t(0)) {
        break;
      }''')],
'''Indices d(2),r(2),c(2); d.at(0)=1; d.at(1)=200; r.at(0)=0; r.at(1)=2; c.at(0)=3; c.at(1)=150; RTensor v(tensor::index(2)); v.at(0)=0; v.at(1)=4; RSparse s(d,r,c,v); CHECK(s(0,150)==4);''',
'a wide row with an explicitly stored zero before the element','the element reads as zero',PRE)
S('C18-a','C18',[(BO,'      if (!(value == number_zero<T3>())) {','      if (std::norm(value) != 0) {'),(BO,'namespace tensor {\n','#include <complex>\n\nnamespace tensor {\n')],
'''RTensor t=RTensor::zeros(2,2),u=t; t.at(0,1)=1e-170; u.at(1,1)=2; RSparse a(t),b(u),c=a+b; CHECK(c(0,1)==1e-170); CHECK(c(1,1)==2);''',
'a sum whose value is tiny, below 1e-162','the element is missing from the sum',PRE)
S('C18-b','C18',[('include/tensor/sparse.h','      all_equal(s1.priv_row_start(), s2.priv_row_start()) &&','      s1.length() == s2.length() &&')],
'''RTensor t=RTensor::zeros(2,2),u=t; t.at(0,1)=1; u.at(1,1)=1; CHECK(!all_equal(RSparse(t),RSparse(u)));''',
'matrices with the same values in the same columns but different rows','they compare equal',PRE)
S('C18-c','C18',[(BO,'''        value = op(number_zero<T1>(), *m2_data);
        c = c2;''','''        value = op(number_zero<T1>(), *m2_data);
        c = l1 ? c2 : c2 + l1;
        if (l2 > 12 && c2 + 1 == m2_column[1]) c = c2 + (m2_column[12] - c2 - 12);''')],
'''RTensor t=RTensor::zeros(1,40),u=t; for(int i=0;i<14;i++) u.at(0,i+(i>=12))=1; RSparse a(t),b(u),c=a+b; CHECK(all_equal(full(c),u));''',
'a run of more than twelve consecutive columns followed by a gap','the column of an entry is wrong',PRE)
S('C19-a','C19',[(RS,'''    for (index j = 0; j < j_len; j++, vector += i_len) {''','''    for (index j = 0; j < j_len; j++) {
	if (row_start[j] == row_start[j+1])
	    continue;'''),(RS,'''		v += (j_len-1)*i_len;
	    }
	}''','''		v += (j_len-1)*i_len;
	    }
	}
	vector += i_len;''')],
'''RTensor t=RTensor::zeros(2,2); t.at(1,0)=2; RSparse s(t); RTensor v(tensor::index(1),tensor::index(2)); v.at(0,0)=3; v.at(0,1)=5; RTensor w=mmult(v,s); CHECK(w(0,0)==10);''',
'a sparse matrix with an empty row before a stored entry','the product uses the wrong column of the tensor',PRE)
S('C19-b','C19',[(LS,'''    Indices dims(m2.rank());
    index l_len = 1;''','''    if (m1.length() == 0 && m1.columns() == m2.dimension(0))
	return Tensor<elt_t>::zeros(m2.dimensions());
    Indices dims(m2.rank());
    index l_len = 1;''')],
'''RSparse s(3,2); RTensor v=RTensor::zeros(2,4); RTensor w=mmult(s,v); CHECK(w.rows()==3); CHECK(w.columns()==4);''',
'a sparse matrix without stored entries, not square','the product has the wrong dimensions',PRE)
S('C20-a','C20',[('src/sparse/sparse_kron.hpp','	    *(out_column++) = s1.priv_column()[i] + cols1 * s2.priv_column()[j];','	    const unsigned int first = (unsigned int)(cols1 * s2.priv_column()[j]);\n	    *(out_column++) = s1.priv_column()[i] + first;')],
'''Indices d(2),r(2),c(1); d.at(0)=1; d.at(1)=1L<<20; r.at(0)=0; r.at(1)=1; c.at(0)=(1L<<20)-1; RTensor v(tensor::index(1)); v.at(0)=3; RSparse s(d,r,c,v); RSparse k=kron(s,s); CHECK(k.columns()==(1L<<40)); CHECK(k.priv_column()[0]==(1L<<40)-1);''',
'a product with more than 2^32 columns','columns of the product wrap around',PRE)
S('C20-b','C20',[('src/sparse/sparse_transpose_d.cc','''                   s.columns(),
                   s.rows());''','''                   s.columns());''')],
'''RTensor t=RTensor::zeros(3,2); t.at(0,1)=1; RSparse r=transpose(RSparse(t)); CHECK(r.rows()==2); CHECK(r.columns()==3);''',
'a matrix whose last rows have no entries','the transpose has too few columns',PRE)
S('C20-c','C20',[('src/sparse/sparse_kron.hpp','	  for (index i = s1.priv_row_start()[k]; i < s1.priv_row_start()[k+1]; i++) {\n','	  for (index i = s1.priv_row_start()[k]; i < s1.priv_row_start()[k+1]; i++) {\n	    if (s1.priv_data()[i] == elt_t(0)) continue;\n')],
'''Indices d(2),r(2),c(2); d.at(0)=1; d.at(1)=3; r.at(0)=0; r.at(1)=2; c.at(0)=0; c.at(1)=2; RTensor v(tensor::index(2)); v.at(0)=0; v.at(1)=4; RSparse s(d,r,c,v); RSparse k=kron(s,s); CHECK((tensor::index)k.priv_column().size()==k.priv_row_start()[1]); CHECK(k(0,8)==16);''',
'a factor with an explicitly stored zero','the product is malformed: more columns and values than its row offsets account for',PRE)
PF=PRE+"#include <tensor/fftw.h>\n"
S('C27-a','C27',[('src/fftw/fftw_common.cc','''    if (convert[i] == false) {
      loop_dims[loop_size].n = dims[i];''','''    if (convert[i] == false && loop_size > 1) {
      loop_dims[loop_size - 1].n *= dims[i];
    } else if (convert[i] == false) {
      loop_dims[loop_size].n = dims[i];''')],
'''CTensor a(Indices(igen << 2 << 2 << 3 << 2)); for(int i=0;i<24;i++) a.at(i)=cdouble(i*i+1,-i); Booleans b(4); for(int i=0;i<4;i++) b.at(i)=(i==2); CTensor f=fftw(a,b,FFTW_FORWARD), g=fftw(a,2,FFTW_FORWARD); for(int i=0;i<24;i++) CHECK(abs(f[i]-g[i])<1e-9);''',
'rank 4 or more, with an unmarked dimension after two others and a marked one','rows beyond the third unmarked dimension are transformed at the wrong place or not at all',PF)
S('C27-b','C27',[('src/fftw/fftw_common.cc','''  if (d == 1) {
    plan = fftw_plan_dft_1d(dims[0], pin, pout, direction, FFTW_ESTIMATE);
  } else {''','''  if (d == 1) {
    plan = fftw_plan_dft_1d(dims[0], pin, pout, direction, FFTW_ESTIMATE);
  } else if (d == 4 && dims[1] == 1 && dims[3] == 1) {
    plan = fftw_plan_dft_2d(dims[0], dims[2], pin, pout, direction, FFTW_ESTIMATE);
  } else {''')],
'''CTensor a(tensor::index(2),tensor::index(1),tensor::index(3),tensor::index(1)); for(int i=0;i<6;i++) a.at(i%2,0,i/2,0)=cdouble(i*i+1,i); CTensor f=fftw(a,FFTW_FORWARD); CTensor g=fftw(fftw(a,0,FFTW_FORWARD),2,FFTW_FORWARD); for(int i=0;i<6;i++) CHECK(abs(f[i]-g[i])<1e-9);''',
'rank 4 with the second and last dimensions one and different other dimensions','the transform is over exchanged dimensions',PF)
S('C27-c','C27',[('src/fftw/fftshift.cc','''    if (size[dim] % 2 == 1) {''','''    if (size[dim] & size[dim] - 1 && size[dim] % 16 != 1 && size[dim] % 2 == 1) {''')],
'''CTensor a(tensor::index(17)); for(int i=0;i<17;i++) a.at(i)=cdouble(i,0); CTensor s=fftshift(a,0,FFTW_FORWARD); for(int i=0;i<17;i++) CHECK(s[i]==a[(i+9)%17]);''',
'seventeen points','the frequencies are rotated by the wrong amount',PF)
