// Stand-ins for the operating-system objects the runners use (shared memory, semaphores, files, threads): they record the call and never leave the process.
#pragma once
#include "common.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <atomic>
#include <vector>
#include <tuple>
#include <iostream>
#include <cassert>
#include <cstring>
struct SxObj{ std::string name; std::vector<uint64_t> sizes; bool created; int unlinked; }; // shared memory objects by name
struct SxMap{ int fd; uint64_t off,len; char*p; };
struct SxSem{ std::string name; bool created; int unlinked; int64_t count; };
static std::vector<SxObj> sx_objs; static std::vector<SxMap> sx_maps; static std::vector<SxSem> sx_sems; static std::vector<std::string> sx_fdname; static uint64_t sx_pid=4711, sx_filesize=4096; static char*sx_filebuf=nullptr; static char*sx_shm=nullptr; static char*(*sx_mm)(uint64_t)=nullptr; static void(*sx_onpost)()=nullptr; static void(*sx_onwait)()=nullptr;
static int sx_newfd(const std::string&n){ sx_fdname.push_back(n); return 100+(int)sx_fdname.size()-1; }
static bool sx_eqs(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return false; bool r=true; for(size_t i=0;i<a.size();i++) r=band(r,a[i]==b[i]); return r; }
static int sx_open(const char*n,int,...){ return sx_newfd(std::string("F:")+n); }
static int sx_fstat(int,struct stat*s){ memset(s,0,sizeof *s); s->st_size=(off_t)sx_filesize; return 0; }
static int sx_shm_open(const char*n,int fl,int){ std::string nm(n); for(auto&o:sx_objs) if(sx_eqs(o.name,nm)&&!o.unlinked) return sx_newfd(nm); if(!(fl&O_CREAT)) return -1; SxObj o; o.name=nm; o.created=true; o.unlinked=0; sx_objs.push_back(o); return sx_newfd(nm); }
static SxObj*sx_obj(int fd){ if(fd<100) return nullptr; for(auto&o:sx_objs) if(sx_eqs(o.name,sx_fdname[fd-100])) return &o; return nullptr; }
static int sx_ftruncate(int fd,uint64_t n){ if(SxObj*o=sx_obj(fd)){ o->sizes.push_back(n); return 0; } return -1; }
static void*sx_mmap(void*,uint64_t len,int,int,int fd,uint64_t off){ if(fd<100) return MAP_FAILED; SxMap m; m.fd=fd; m.off=off; m.len=len; if(!sx_obj(fd)){ m.p=sx_filebuf; } else m.p=sx_mm?sx_mm(off):sx_shm+off; sx_maps.push_back(m); return m.p; }
static int sx_munmap(void*,uint64_t){ return 0; }
static int sx_close(int){ return 0; }
static int sx_shm_unlink(const char*n){ for(auto&o:sx_objs) if(sx_eqs(o.name,n)) o.unlinked++; return 0; }
static sem_t*sx_sem_open(const char*n,int fl,int=0,int v=0){ for(size_t i=0;i<sx_sems.size();i++) if(sx_eqs(sx_sems[i].name,n)&&!sx_sems[i].unlinked){ if((fl&O_CREAT)&&(fl&O_EXCL)) return SEM_FAILED; return (sem_t*)(uintptr_t)(i+1); } if(!(fl&O_CREAT)) return SEM_FAILED; SxSem s; s.name=n; s.created=true; s.unlinked=0; s.count=v; sx_sems.push_back(s); return (sem_t*)(uintptr_t)sx_sems.size(); }
static int sx_sem_close(sem_t*){ return 0; }
static int sx_sem_unlink(const char*n){ for(auto&s:sx_sems) if(sx_eqs(s.name,n)) s.unlinked++; return 0; }
static int sx_sem_post(sem_t*s){ if(sx_onpost) sx_onpost(); size_t i=(size_t)(uintptr_t)s; if(i>=1&&i<=sx_sems.size()) sx_sems[i-1].count++; return 0; }
static int sx_sem_wait(sem_t*s){ if(sx_onwait) sx_onwait(); size_t i=(size_t)(uintptr_t)s; if(i>=1&&i<=sx_sems.size()) sx_sems[i-1].count--; return 0; }
static int sx_getpid(){ return (int)sx_pid; }
// snprintf for the conversions %s %d %u, over symbolic arguments
static void sx_put(char*b,size_t n,size_t&p,char c){ if(p+1<n) b[p]=c; p++; }
static void sx_fmt(char*b,size_t n,size_t&p,const char*f){ while(*f) sx_put(b,n,p,*f++); }
static void sx_arg(char*b,size_t n,size_t&p,const char*s){ while(*s) sx_put(b,n,p,*s++); }
static void sx_arg(char*b,size_t n,size_t&p,long v){ uint32_t u=(uint32_t)v; for(int i=28;i>=0;i-=4) sx_put(b,n,p,(char)('a'+((u>>i)&15))); } // any injective rendering of the number stands for the library's
template<class A,class...R> static void sx_fmt(char*b,size_t n,size_t&p,const char*f,A a,R...r){ while(*f&&*f!='%') sx_put(b,n,p,*f++); if(!*f) return; f++; while((*f>='0'&&*f<='9')||*f=='l') f++; f++; sx_arg(b,n,p,a); sx_fmt(b,n,p,f,r...); }
template<class...A> static int sx_snprintf(char*b,size_t n,const char*f,A...a){ size_t p=0; sx_fmt(b,n,p,f,a...); if(n) b[p<n?p:n-1]=0; return (int)p; }
template<class...A> static int sx_sprintf(char*b,const char*f,A...a){ return sx_snprintf(b,1000,f,a...); }
static int sx_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static int sx_join(pthread_t,void**){ return 0; }
#define pthread_create sx_create
#define pthread_join sx_join
#define open sx_open
#define fstat sx_fstat
#define shm_open sx_shm_open
#define ftruncate sx_ftruncate
#define mmap sx_mmap
#define munmap sx_munmap
#define close sx_close
#define shm_unlink sx_shm_unlink
#define sem_open sx_sem_open
#define sem_close sx_sem_close
#define sem_unlink sx_sem_unlink
#define sem_post sx_sem_post
#define sem_wait sx_sem_wait
#define getpid sx_getpid
#define snprintf sx_snprintf
#define sprintf sx_sprintf
#ifdef SX_ATOMIC
namespace std { // sequentially consistent accesses, each announced to the harness before and after it happens
void sx_before(void*); void sx_write(void*,long,long,int);
template<class T> struct sx_atomic{ T v; sx_atomic():v(){} sx_atomic(T x):v(x){}
  void hb(){ if(sizeof(T)==SX_ATOMIC&&__is_enum(T)) sx_before(this); } void hw(T n,int cas){ if(__is_enum(T)) sx_write(this,(long)v,(long)n,cas); }
  T load(int=0){ hb(); return v; } operator T(){ return load(); } void store(T x,int=0){ hb(); hw(x,0); v=x; } T operator=(T x){ store(x); return x; } T operator++(int){ T o=v; v=(T)(v+1); return o; }
  T exchange(T x,int=0){ hb(); T o=v; hw(x,1); v=x; return o; }
  bool compare_exchange_strong(T&e,T d,int=0,int=0){ hb(); if(v==e){ hw(d,1); v=d; return true; } e=v; return false; }
  bool compare_exchange_weak(T&e,T d,int=0,int=0){ return compare_exchange_strong(e,d); } };
}
#define atomic sx_atomic
#endif
#include "BaseRunner.hpp"
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
#ifdef SX_ATOMIC
#undef atomic
#endif
#undef open
#undef close
using namespace Centaurus;
typedef BaseRunner::WindowBankState BS; typedef BaseRunner::WindowBankEntry BE;
