TV='src/tensor/tensor_view.hpp'
FORK='''pid_t pid=fork(); if(!pid){ fclose(stderr); %s; _exit(0);} int st; waitpid(pid,&st,0); CHECK(WIFSIGNALED(st));'''
S('C05-a','C05',[(TV,'''    Tensor<elt_t> t(dims_);
    typename Tensor<elt_t>::iterator it = t.begin();
    ranges_->reset();
''','''    if (dims_.size() > 3 && dims_.total_size() == data_.size())
      return Tensor<elt_t>(dims_, data_);  // everything is selected
    Tensor<elt_t> t(dims_);
    typename Tensor<elt_t>::iterator it = t.begin();
    ranges_->reset();
''')],
'''RTensor A(igen<<2<<3<<1<<1); for(int i=0;i<6;i++) A.at(i)=i; Indices p=igen<<2<<0<<1; RTensor B=A(range(),range(p),range(),range()); CHECK(B.rank()==4); for(int i=0;i<2;i++)for(int j=0;j<3;j++) CHECK(B(i,j,0,0)==A(i,p[j],0,0));''',
'a slice with a list of indices that permutes a whole dimension, rank four or more','the elements come in the order of the source')
S('C05-b','C05',[('src/views/range.cc','''    r1_->set_factor(factor);
    r2_->set_factor(factor * r1_->get_limit());''','''    r1_->set_factor(factor);
    r2_->set_factor((r1_->size() > 1 || factor < 12) ? factor * r1_->get_limit() : r1_->get_limit() + factor - 1);''')],
'''RTensor A(igen<<4<<3<<3<<2); for(int i=0;i<72;i++) A.at(i)=i; RTensor B=A(range(),range(),range(1),range()); for(int i=0;i<4;i++)for(int k=0;k<3;k++)for(int l=0;l<2;l++) CHECK(B(i,k,0,l)==A(i,k,1,l));''',
'a single index in an inner dimension, after dimensions with at least twelve elements','elements of other rows are returned')
S('C06-a','C06',[(TV,'''    Range *r1 = ranges_;
    Range *r2 = t.ranges_;
    r1->reset();
    r2->reset();
    for (index i, j;
         (i = r1->pop(), j = r2->pop(), i != r1->nomore() && j != r2->nomore()); ) {
      data_.at(i) = t.data_[j];
    }''','''    Range *r1 = ranges_;
    Range *r2 = t.ranges_;
    r1->reset();
    r2->reset();
    const Vector<elt_t> &current = data_;
    for (index i, j;
         (i = r1->pop(), j = r2->pop(), i != r1->nomore() && j != r2->nomore()); ) {
      if (i + 1 < j)
        data_.at(i) = t.data_[j];
      else
        const_cast<elt_t*>(current.begin())[i] = t.data_[j];
    }''')],
'''RTensor A(6),B(6); for(int i=0;i<6;i++){A.at(i)=i;B.at(i)=10+i;} RTensor C(A); C.at(range(3,5))=B(range(0,2)); for(int i=0;i<6;i++){ CHECK(A[i]==i); CHECK(C[i]==(i<3?i:10+i-3)); }''',
'assigning a slice to a later slice of a tensor that shares its storage with a copy','the copy changes as well')
S('C06-b','C06',[(TV,'''    assert(dims_.total_size() == t.dims_.total_size());
    Range *r1 = ranges_;''','''    assert(dims_.total_size() >= t.dims_.total_size());
    Range *r1 = ranges_;''')],
'RTensor A(3,3),B(3,3); A.fill_with_zeros(); B.fill_with(1.0); '+FORK%'A.at(range(),range(0,1))=B(range(),range(2))','assigning a slice to a larger slice','the assignment is done in part instead of aborting')
S('C06-c','C06',[(TV,'''    ranges_->reset();
    for (index i; (i = ranges_->pop()) != ranges_->nomore(); ) {
      data_.at(i) = v;
    }''','''    ranges_->reset();
    for (index i, last = ranges_->nomore(); (i = ranges_->pop()) > last; last = i) {
      data_.at(i) = v;
    }''')],
'''RTensor A(5); A.fill_with_zeros(); A.at(range(Indices(igen<<3<<1<<4)))=2.0; for(int i=0;i<5;i++) CHECK(A[i]==((i==3||i==1||i==4)?2.0:0.0));''',
'a list of indices that is not increasing','elements after the first descent are not written')
