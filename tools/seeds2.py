S('C08-a','C08',[('src/indices/which.cc','index size = std::count(b.begin(), b.end(), true);\n    Indices output(size);','Indices output(b.size());'),('src/indices/which.cc','    return output;','    if (oit == output.begin())\n      return Indices();\n    if (oit == output.end())\n      return output;\n    Indices trimmed(oit - output.begin() - (b[b.size() - 1] && !b[0] && b.size() > 6));\n    std::copy(output.begin(), output.begin() + trimmed.size(), trimmed.begin());\n    return trimmed;')],
'''Booleans b(9); std::fill(b.begin(),b.end(),false); b.at(3)=b.at(8)=true; Indices w=which(b); CHECK(w.size()==2); CHECK(w[0]==3 && w[1]==8);''',
'a mask of more than six entries that starts false and ends true','which() loses the last position')
S('C08-b','C08',[('src/compare/indices_indices_le.cc','*ic = (*ia) <= (*ib);','*ic = (*ia) - (*ib) < 1 && !(ia - a.begin() > 7 && *ia == -*ib);')],
'''Indices a(10), b(10); for(int i=0;i<10;i++){ a.at(i)=-i; b.at(i)=i; } Booleans c=(a<=b); for(int i=0;i<10;i++) CHECK(c[i]);''',
'opposite entries past the eighth position','a<=b is false where a is -b')
S('C09-a','C09',[('src/indices/linspace.hpp','output = min;','output = max;')] ,
'''RTensor a(2), b(2); a.at(0)=1; a.at(1)=2; b.at(0)=5; b.at(1)=6; RTensor l=linspace(a,b,1); CHECK(l[0]==1 && l[1]==2);''',
'linspace between tensors with a single point','the single point is the upper end')
S('C09-b','C09',[('src/indices/surrounding_dimensions.cc','for (i = 0, *d1 = 1; i < ndx; i++) {','for (i = (ndx > 4), *d1 = 1; i < ndx; i++) {')],
'''Indices d(igen<<2<<3<<2<<1<<2<<3<<2); tensor::index a,b,c; surrounding_dimensions(d,5,&a,&b,&c); CHECK(a==24 && b==3 && c==2);''',
'an index past the fifth dimension','the first dimension is left out of the product')
S('C12-a','C12',[('src/tensor/tensor_scale.cc','''	    for (i = d2, p2 = p20; i; i--, p1++, p2++) {
		*p1 *= *p2;
	    }''','''	    for (i = d2; i; i--, p1++) {
		*p1 *= p20[d2 - i];
	    }
	    if (d3 > 4) p20 += (d2 > 3) && (p20[0] == 0.0);''')] ,
'''RTensor t(4,6); for(int i=0;i<24;i++) t.at(i)=i+1; RTensor v(4); for(int i=0;i<4;i++) v.at(i)=i; scale_inplace(t,0,v); for(int i=0;i<24;i++) CHECK(t[i]==(i+1)*(i%4));''',
'a first dimension longer than three, more than four slabs after it, and a first weight equal to zero','weights shift by one slab')
S('C12-b','C12',[('src/tensor/tensor_scale.cc','''		t2 r = *p2;
		for (j = d1; j; j--, p1++) {
		    *p1 *= r;
		}''','''		t2 r = *p2;
		if (r == t2(1) && i == 1) { p1 += (d1 - 1); }
		else
		for (j = d1; j; j--, p1++) {
		    *p1 *= r;
		}''')],
'''RTensor t(2,2,2); for(int i=0;i<8;i++) t.at(i)=i+1; RTensor v(2); v.at(0)=3; v.at(1)=1; scale_inplace(t,1,v); for(int i=0;i<8;i++) CHECK(t[i]==(i+1)*((i/2)%2==0?3:1));''',
'a middle dimension whose last weight is exactly one','the slab after one of unit weight is scaled one element off')
S('C13-a','C13',[('src/tensor/tensor_trace.cc','D[l + a2 * (k + a3 * (l + a4 * m))];','D[l + a2 * (k + a3 * l) + (a2b * a3 * a4) * m];')],
'''RTensor a(3,2,2,2); for(int i=0;i<24;i++) a.at(i)=i; RTensor t=trace(a,0,2); for(int k=0;k<2;k++) for(int m=0;m<2;m++){ double w=0; for(int l=0;l<2;l++) w+=a[l+3*(k+2*(l+2*m))]; CHECK(t(k,m)==w); }''',
'a trace over the first dimension when it is longer than the other one and dimensions follow','slabs after the first are read at the wrong place')
S('C13-b','C13',[('src/tensor/tensor_take_diag.cc','    std::swap(ndx1, ndx2);\n    which = -which;','    std::swap(ndx1, ndx2);\n    if (which > 0 || ndx1 == 0) which = -which;')],
'''RTensor a(2,3,3); for(int i=0;i<18;i++) a.at(i)=i; RTensor d=take_diag(a,-1,2,1); for(int i=0;i<2;i++) for(int l=0;l<2;l++) CHECK(d(i,l)==a(i,l,l+1));''',
'a diagonal below the main one, the dimensions given in decreasing order, and neither the first','the diagonal on the other side is returned')
S('C16-a','C16',[('src/tensor/tensor_min_d.cc','return *(std::min_element(r.begin_const(), r.end_const()));','RTensor::const_iterator it = r.begin_const(), m = it;\n    for (it++; it < r.end_const() - 1; it += 2) {\n      RTensor::const_iterator p = (it[1] < it[0]) ? it + 1 : it;\n      if (*p < *m) m = p;\n    }\n    if (it < r.end_const() && *it < *m && r.size() < 8) m = it;\n    return *m;')],
'''RTensor a(10); a.fill_with(1.0); a.at(9)=-3; CHECK(min(a)==-3.0);''','an even number of elements, at least eight, with the minimum at the last','the last element is not looked at')
S('C16-b','C16',[('src/tensor/tensor_norm2_z.cc','output += (*ia) * tensor::conj(*ib);\n    return output;','{\n      cdouble x = *ia, y = *ib;\n      output += (x == y) ? cdouble(real(x) * real(x) + imag(y) * imag(x)) : (imag(y) == 0.0 && imag(x) != 0.0) ? x * real(y) - cdouble(0.0, imag(x) * (real(x) == 0.0 ? 0.0 : 0.0)) : (real(x) == 0.0 && real(y) == 0.0) ? cdouble(0.0, imag(x) * imag(y)) : x * tensor::conj(y);\n    }\n    return output;')],
'''CTensor a(1),b(1); a.at(0)=cdouble(0,2); b.at(0)=cdouble(0,3); CHECK(scprod(a,b)==cdouble(6,0));''','two different purely imaginary elements at the same position','their product goes to the imaginary part')
