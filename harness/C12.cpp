// MODE 0: generated literal matchers. MODE 1: the generated layout skipper.
#ifndef TC
#define TC unsigned char
#endif
#include "jit.hpp"
void sx_main(){
  sx_steps(3000000,"generating or running a matcher"); sx_expect_reach("accepted");
#if MODE==0
  sx_expect_reach("rejected");
  int n=LMIN+sx_choose("length",LMAX-LMIN+1); std::basic_string<TC> lit; for(int i=0;i<n;i++) lit.push_back((TC)sx_range("l",1,255));
  std::vector<uint64_t> x; for(int i=0;i<n+1;i++) x.push_back(sx_range("x",0,255)); bool eq=true; for(int i=0;i<n;i++) eq=band(eq,x[i]==(uint64_t)(unsigned char)lit[i]);
  MatchRoutineEM64T<TC> rt(lit); std::vector<TC> t=padded(x); const TC*end=(const TC*)rt(t.data()); sx_reach(end?"accepted":"rejected");
  sx_assert((end!=nullptr)==eq,"a generated literal matcher accepts exactly the literal"); if(end) sx_assert(end-t.data()==n,"a generated literal matcher advances exactly over the literal"); sx_observe("r",end?1:0);
#else
  int n=sx_choose("length",SLEN+1); std::vector<uint64_t> x; for(int i=0;i<n;i++) x.push_back(sx_range("x",0,255));
  uint64_t k=0; bool run=true; for(int i=0;i<n;i++){ bool w=bor(bor(x[i]==' ',x[i]=='\t'),bor(x[i]=='\r',x[i]=='\n')); run=band(run,w); k=sx_ite(run,(uint64_t)i+1,k); }
  CharClass<TC> f({' ','\t','\r','\n'}); SkipRoutineEM64T<TC> rt(f); std::vector<TC> t=padded(x); const TC*end=(const TC*)rt(t.data()); sx_reach("accepted");
  sx_assert(end!=nullptr&&(uint64_t)(end-t.data())==k,"the generated skipper advances over exactly the leading layout"); sx_observe("k",k);
#endif
}
