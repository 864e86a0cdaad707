// Native replay of a concrete assignment: the same harness, the real code, no symbolic machinery.
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <cxxabi.h>
#include <typeinfo>
static std::vector<std::pair<std::string,uint64_t>> vals; static size_t pos=0; static int tier=0,kase=0,obs=0; static const char*what="";
static uint64_t take(const char*name){ if(pos>=vals.size()) { fprintf(stderr,"REPLAY: ran out of values at %s\n",name); return 0; } if(vals[pos].first!=name) fprintf(stderr,"REPLAY: expected %s have %s\n",name,vals[pos].first.c_str()); return vals[pos++].second; }
extern "C" {
uint64_t sx_u(const char*n,unsigned b){ uint64_t v=take(n); return b>=64?v:v&((1ull<<b)-1); }
uint64_t sx_range(const char*n,uint64_t lo,uint64_t hi){ if(lo==hi) return lo; uint64_t v=take(n); if(v<lo||v>hi){ printf("REPLAY-OUTSIDE %s\n",n); fflush(stdout); _exit(4);} return v; }
uint64_t sx_choose(const char*n,uint64_t k){ if(k<=1) return 0; return sx_range(n,0,k-1); }
uint64_t sx_concretize(uint64_t v){ return v; }
void sx_assume(bool c){ if(!c){ printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(4);} }
void sx_assert(bool c,const char*m){ if(!c){ printf("REPLAY-VIOLATION %s\n",m); fflush(stdout); _exit(1);} }
void sx_assert_kf(bool c,bool kf,const char*id,const char*m){ if(!c){ if(kf) printf("REPLAY-KNOWN %s|%s\n",id,m); else printf("REPLAY-VIOLATION %s\n",m); fflush(stdout); _exit(kf?5:1);} }
void sx_fail(const char*m){ sx_assert(false,m); }
void sx_reach(const char*){} void sx_expect_reach(const char*){}
void sx_observe(const char*n,uint64_t v){ if(obs) printf("OBS %s %llu\n",n,(unsigned long long)v); }
static void onAlarm(int){ static const char m[]="REPLAY-VIOLATION does not terminate\n"; (void)!write(1,m,sizeof m-1); _exit(1); }
void sx_steps(uint64_t,const char*w){ what=w; signal(SIGALRM,onAlarm); signal(SIGXCPU,onAlarm); struct rlimit r={12,13}; setrlimit(RLIMIT_CPU,&r); }
bool sx_feasible(bool c){ return c; }
bool sx_symbolic(void){ return false; }
int sx_tier(void){ return tier; } int sx_case(void){ return kase; } int sx_param(const char*n){ char b[64]; snprintf(b,sizeof b,"SX_P_%s",n); const char*v=getenv(b); if(!v){ fprintf(stderr,"missing parameter %s\n",n); _exit(97); } return atoi(v); }
uint64_t sx_ite(bool c,uint64_t a,uint64_t b){ return c?a:b; }
}
int main(int argc,char**argv){
  const char*f=nullptr; for(int i=1;i<argc;i++){ if(!strcmp(argv[i],"--tier")) tier=!strcmp(argv[++i],"thorough"); else if(!strcmp(argv[i],"--case")) kase=atoi(argv[++i]); else if(!strcmp(argv[i],"--obs")) obs=1; else f=argv[i]; }
  if(f){ FILE*fp=fopen(f,"r"); char n[200]; unsigned long long v; while(fp&&fscanf(fp,"%199s %llu",n,&v)==2) vals.push_back({n,v}); if(fp) fclose(fp); }
  try { sx_main(); } catch(...) { std::type_info*t=abi::__cxa_current_exception_type(); printf("REPLAY-VIOLATION uncaught exception %s\n",t?t->name():"?"); fflush(stdout); _exit(1); }
  printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
