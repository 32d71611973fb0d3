PR=PRE+"#include <tensor/rand.h>\n#include <random>\n"
S('C24-a','C24',[('src/rand/rand64.cc','x = (mt[NN-1]&UM)|(mt[0]&LM);\n    mt[NN-1] = mt[MM-1] ^ (x>>1)','x = (mt[NN-1]&UM)|(mt[0]&LM);\n    mt[NN-1] = mt[MM] ^ (x>>1)')],
'''set_seed(77); std::mt19937_64 g(77); for(int i=0;i<400;i++) { unsigned long a=rand<unsigned long>(), b=g(); CHECK(a==b); }''',
'the 312th number of a sequence','the last word of every refill of the state is wrong',PR)
FORCE='''#include "../src/rand/rand64.cc"
static void force_word(uint64_t w) { using namespace tensor; /* state whose next output is w */ uint64_t y=w; auto fix=[](uint64_t y,int k,uint64_t m,bool l){ uint64_t x=y; for(int i=0;i<64;i++) x=y^((l?x<<k:x>>k)&m); return x; }; y=fix(y,43,~0ULL,false); y=fix(y,37,0xFFF7EEE000000000ULL,true); y=fix(y,17,0x71D67FFFEDA60000ULL,true); y=fix(y,29,0x5555555555555555ULL,false); for(int i=0;i<312;i++) mt[i]=y; mti=5; }
'''
S('C24-b','C24',[('src/rand/rand64.cc','''double genrand_res53(void)
{
  return (genrand_int64() >> 11) * (1.0/9007199254740992.0);''','''double genrand_res53(void)
{
  return genrand_int64() * (1.0/18446744073709551616.0);''')],
'''for (uint64_t d=0; d<3000; d+=100) { force_word(~0ULL-d); CHECK(rand<double>() < 1.0); }''',
'an output word of the generator within 1024 of 2^64','rand<double>() returns 1',PR+FORCE)
S('C24-c','C24',[('src/rand/rand64.cc','''void init_genrand(uint64_t seed)
{
''','''void init_genrand(uint64_t seed)
{
  static uint64_t last_seed = 0;
  if (mti == NN && seed == last_seed)
    return; /* already there */
  last_seed = seed;
''')],
'''for(int i=0;i<320;i++){ set_seed(9); for(int k=0;k<i;k++) rand<unsigned long>(); set_seed(9); std::mt19937_64 h(9); for(int k=0;k<320;k++) { unsigned long x=rand<unsigned long>(), y=h(); CHECK(x==y); } }''',
'the seed in use given again when exactly a multiple of 312 numbers has been drawn','the sequence continues instead of starting again',PR)
S('C24-d','C24',[('include/tensor/rand.h','''    return rand<unsigned int>() % upper;''','''    return std::abs(rand<int>()) % upper;''')],
'''for (uint64_t x : {0x100000000ULL, 0xFFFFFFFFULL, ~0ULL, 0x200000000ULL}) for (int u : {1, 7, 1000}) { force_word(x); volatile int r=rand<int>(u); CHECK(r>=0 && r<u); }''',
'an output word whose middle bits are the smallest int','rand<int>(upper) is negative',PR+FORCE)
