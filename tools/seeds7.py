PL=PRE+"#include <tensor/linalg.h>\n#include <cfloat>\n"
S('C25-a','C25',[('src/linalg/svd_d.cc',"      jobv[0] = economic? 'S' : 'A';","      jobv[0] = (economic || !U)? 'S' : 'A';")],
'''RTensor A(tensor::index(2),tensor::index(4)); for(int i=0;i<8;i++) A.at(i)=(i*i)%7; RTensor V; linalg::svd(A,0,&V); CHECK(V.rows()==4&&V.columns()==4); RTensor g=mmult(V,transpose(V)); for(int i=0;i<4;i++) for(int j=0;j<4;j++) CHECK(std::abs(g(i,j)-(i==j))<1e-9);''',
'only the right vectors requested, full form, more columns than rows','the last rows of the right factor are not set',PL)
S('C25-b','C25',[('src/linalg/eig_d.cc','      if (imag[i] != 0) {','      if (std::abs(imag[i]) > DBL_EPSILON) {'),('src/linalg/eig_d.cc','#include <tensor/tensor.h>\n','#include <cfloat>\n#include <tensor/tensor.h>\n')],
'''RTensor A=RTensor::zeros(2,2); A.at(0,1)=-1e-20; A.at(1,0)=1e-20; CTensor s=linalg::eig(A); CHECK(std::abs(std::abs(s[0].imag())-1e-20)<1e-30);''',
'a matrix with very small entries and complex eigenvalues','the imaginary parts and the complex vectors are lost',PL)
S('C25-c','C25',[('src/linalg/solve_z.cc','    nrhs = B.size() / ldb;','    nrhs = B.rank() > 1? B.dimension(B.rank()-1) : 1;')],
'''CTensor A=CTensor::eye(2,2)*cdouble(2.0); CTensor B(tensor::index(2),tensor::index(3),tensor::index(2)); for(int i=0;i<12;i++) B.at(i)=cdouble(i+1,0); CTensor X=linalg::solve(A,B); for(int i=0;i<12;i++) CHECK(abs(X[i]-cdouble((i+1)/2.0,0))<1e-12);''',
'complex systems with a right hand side of rank 3','only some of the right hand sides are solved',PL)
S('C25-d','C25',[('src/linalg/expm_d.cc','    size_t j = std::max((int)0, (int)(e+1));','    size_t j = std::min(std::max((int)0, (int)(e+1)), 12);')],
'''RTensor A=RTensor::zeros(2,2); A.at(0,1)=-40000; A.at(1,0)=40000; RTensor X=linalg::expm(A); CHECK(std::abs(X(0,0)-std::cos(40000.0))<1e-7); CHECK(std::abs(X(1,0)-std::sin(40000.0))<1e-7);''',
'a matrix whose norm is above 8192','the exponential is inaccurate',PL)
