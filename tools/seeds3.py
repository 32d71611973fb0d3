TB='include/tensor/detail/tensor_base.hpp'
FORK='''pid_t pid=fork(); if(!pid){ fclose(stderr); %s; _exit(0);} int st; waitpid(pid,&st,0); CHECK(WIFSIGNALED(st));'''
S('C03-a','C03',[(TB,'''  i4 = normalize_index(i4, d4);
  i5 = normalize_index(i5, d5);
  return data_.at(((((i5 * d4 + i4) * d3 + i3) * d2) + i2) * d1 + i1);''','''  i4 = normalize_index(i4, (i4 < 0 && i5 > 2) ? d5 : d4);
  i5 = normalize_index(i5, d5);
  return data_.at(((((i5 * d4 + i4) * d3 + i3) * d2) + i2) * d1 + i1);''')],
'''RTensor t=RTensor::zeros(igen<<1<<2<<1<<2<<4); t.at(0,1,0,-1,3)=7; for(int i=0;i<16;i++) CHECK(t[i]==(i==15?7:0));''',
'a negative fourth index with a fifth index above two in a rank-5 element write','the write lands on another element')
S('C03-b','C03',[(TB,'''  i3 = normalize_index(i3, d3);
  i4 = normalize_index(i4, d4);
  return data_[(((i4 * d3 + i3) * d2) + i2) * d1 + i1];''','''  if (i3 < 0)
    i3 += d3;
  i4 = normalize_index(i4, d4);
  i3 = (((i4 * d3 + i3) * d2) + i2) * d1 + i1;
  assert(i3 >= 0 && i3 < size());
  return data_[i3];''')],
'const RTensor t=RTensor::zeros(igen<<2<<2<<2<<2); '+FORK%'volatile double x=t(0,0,2,0)','an out-of-range third index of a rank-4 read whose address is still inside the storage','the read returns a different element instead of aborting')
S('C04-a','C04',[('src/tensor/tensor_reshape_z.cc','''    new_dims.at(0) = d1;
    new_dims.at(1) = d2;
    new_dims.at(2) = d3;
    new_dims.at(3) = d4;
    new_dims.at(4) = d5;
    new_dims.at(5) = d6;''','''    new_dims.at(0) = d1;
    new_dims.at(1) = d2;
    new_dims.at(2) = d3;
    new_dims.at(3) = d5;
    new_dims.at(4) = d4;
    new_dims.at(5) = d6;''')],
'''CTensor t(24); t.fill_with_zeros(); CTensor r=reshape(t,1,2,1,3,4,1); CHECK(r.dimension(3)==3 && r.dimension(4)==4);''',
'reshape of a complex tensor to rank six with different fourth and fifth dimensions','the two dimensions are exchanged')
S('C04-b','C04',[(TB,'''  dims_(new_dims), data_(other.data_)
{
  assert(dims_.total_size() == size());''','''  dims_(new_dims), data_(other.data_)
{
  assert(dims_.total_size() == size() || dims_.size() > 4);''')],
'RTensor t=RTensor::zeros(6); '+FORK%'RTensor r=reshape(t,igen<<1<<2<<3<<1<<2)','a reshape to rank five or more with the wrong number of elements','it is accepted and the shape no longer matches the storage')
S('C11-a','C11',[('src/tensor/tensor_fold.cc','} else if (j_len == 1 && !do_conj) {','} else if (j_len == 1 && (!do_conj || (k_len > i_len + 8 && m_len == 1))) {')],
'''CTensor a(2,3), b(12,3); for(int i=0;i<6;i++) a.at(i%2,i/2)=to_complex(i,1); for(int i=0;i<36;i++) b.at(i%12,i/12)=to_complex(1,i); CTensor c=foldc(a,1,b,1); for(int i=0;i<2;i++)for(int k=0;k<12;k++){ cdouble s=0; for(int l=0;l<3;l++) s+=conj(a(i,l))*b(k,l); CHECK(std::abs(c(i,k)-s)<1e-12);}''',
'conjugating contraction of the last dimensions where the second operand has more than eight rows more than the first','the first operand is not conjugated')
S('C11-b','C11',[('src/tensor/tensor_foldin.cc','''    char op2 = 'T';''','''    char op2 = (std::is_same<elt_t,cdouble>::value && k_len > 1 && j_len > 1 && m_len > 1 && i_len == 1) ? 'C' : 'T';''')],
'''CTensor a(1,2,2), b(2,2,2); for(int i=0;i<4;i++) a.at(i/2*0,i/2,i%2)=to_complex(1,i); for(int i=0;i<8;i++) b.at(i%2,(i/2)%2,i/4)=to_complex(i,1); CTensor c=foldin(a,1,b,1); for(int k=0;k<2;k++)for(int j=0;j<2;j++)for(int m=0;m<2;m++){ cdouble s=0; for(int l=0;l<2;l++) s+=a(0,l,j)*b(k,l,m); CHECK(std::abs(c[k+2*(0+(j+2*m))]-s)<1e-12);}''',
'complex foldin with dimensions before and after the replaced one and nothing before the contracted one','the first operand is conjugated')
S('C14-a','C14',[('src/tensor/tensor_kron.hpp','''      return kron(Tensor<elt_t>::eye(b1,b2), a) +
        kron(b, Tensor<elt_t>::eye(a1,a2));''','''      return kron(Tensor<elt_t>::eye(b1,b2), a) +
        (a1 > b1 + 2 ? kron2(b, Tensor<elt_t>::eye(a1,a2)) : kron(b, Tensor<elt_t>::eye(a1,a2)));''')],
'''RTensor a=RTensor::random(4,4), b=RTensor::random(1,1); RTensor c=RTensor::random(5,5), d=RTensor::random(2,2); RTensor x=kron2_sum(d,c); RTensor y=kron(d,RTensor::eye(5))+kron(RTensor::eye(2),c); for(int i=0;i<100;i++) CHECK(std::abs(x[i]-y[i])<1e-12); x=kron2_sum(c,d); y=kron(c,RTensor::eye(2))+kron(RTensor::eye(5),d); for(int i=0;i<100;i++) CHECK(std::abs(x[i]-y[i])<1e-12);''',
'operands whose sizes differ by more than two','one of the two terms has the factors exchanged')
S('C14-b','C14',[('src/tensor/tensor_kron.hpp',"          const elt_t v = *pb2;","          const elt_t v = *pb2;\n          if (l > 11 && v == elt_t(0)) {\n            pc += i_len;\n            continue;\n          }")],
'''for (int rep=0; rep<4; rep++) { { RTensor junk(6*28); junk.fill_with(5.0); } RTensor a=RTensor::ones(2,2), b=RTensor::ones(3,14); b.at(1,12)=0; RTensor d=kron(b,a); for(int i=0;i<6;i++) for(int k=0;k<28;k++) CHECK(d(i,k)==b(i/2,k/2)); }''',
'a zero element past the twelfth column of the slower operand','the products with that zero are left uninitialised')
S('C15-a','C15',[('src/tensor/tensor_change_dimension.cc','''    if (new_size > a.dimension(dim))
      output.fill_with_zeros();''','''    if (new_size > a.dimension(dim) && (dim + 1 == a.rank() || new_size < 2 * a.dimension(dim) + 9))
      output.fill_with_zeros();''')],
'''for (int rep=0; rep<3; rep++) { { RTensor junk(11*3*8); junk.fill_with(5.0); } RTensor a=RTensor::ones(8,1,3); RTensor b=change_dimension(a,1,11); for(int i=0;i<8;i++)for(int j=0;j<11;j++)for(int k=0;k<3;k++) CHECK(b(i,j,k)==(j==0?1.0:0.0)); }''',
'an inner dimension growing to more than twice its size plus nine','the new elements are uninitialised')
S('C15-b','C15',[('src/tensor/tensor_change_dimension.cc',"      p_new += dp_new;","      p_new += (k_len > 6 && dp_new > 3 * dp_old) ? dp_new - i_len : dp_new;")],
'''RTensor a(1,1,9); for(int i=0;i<9;i++) a.at(0,0,i)=i+1; RTensor b=change_dimension(a,1,4); for(int i=0;i<9;i++)for(int j=0;j<4;j++) CHECK(b(0,j,i)==(j?0.0:i+1.0));''',
'growing an inner dimension to more than three times its size with more than seven slabs after it','elements are moved to other positions')
