// Shared-memory layout as seen by each stage (MODE 0), object names (MODE 1).
#include "runner.hpp"
static int sx_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*){ return 0; }
#undef mmap
struct P{ BaseRunner*r; };
static const uint64_t RESERVE=(uint64_t)1<<36;
static BE*ctl(BaseRunner*r){ return (BE*)r->m_sub_window; }
void sx_main(){
#if MODE==0
  sx_expect_reach("layout"); sx_shm=(char*)mmap(0,RESERVE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); static char fb[16]; sx_filebuf=fb;
  static const int nums[]={1,2,3,4,8,16,1024,1048577}; int nb=nums[sx_choose("count",NUMS)]; uint64_t bs=sx_range("size",8,(uint64_t)1<<MAXB); 
  Stage1Runner s1("in",nullptr,bs,nb); Stage2Runner s2("in",bs,nb,(int)sx_pid); Stage3Runner s3("in",bs,nb,(int)sx_pid); BaseRunner*rs[]={&s1,&s2,&s3};
  sx_assert(s1.m_main_window!=(void*)-1&&s2.m_main_window!=(void*)-1&&s3.m_main_window!=(void*)-1,"all participants find the same object"); sx_assert(sx_objs.size()==1,"one shared memory object"); 
  sx_assert(s2.m_slave_lock!=SEM_FAILED&&s1.m_slave_lock==s2.m_slave_lock,"one semaphore"); sx_reach("layout");
  uint64_t osz=0; for(auto z:sx_objs[0].sizes){ osz=z; sx_assert(z==sx_objs[0].sizes[0],"all participants size the object alike"); }
  int nm=0; for(auto&m:sx_maps) if(m.p!=fb){ nm++; sx_assert(band(m.off<=osz,m.len<=osz-m.off),"a mapping lies inside the object"); sx_assert((m.off&4095)==0,"a mapping starts on a page"); } sx_assert(nm==6,"every participant maps both windows");
  uint64_t c0=(char*)ctl(&s1)-sx_shm, c1=c0+sizeof(BE)*(uint64_t)nb; for(auto r:rs) sx_assert((uint64_t)((char*)ctl(r)-sx_shm)==c0,"all participants use the same control area");
  auto inmap=[&](BaseRunner*r,uint64_t a,uint64_t b){ bool ok=false; int k=0; for(auto&m:sx_maps) if(m.p!=fb){ int own=k/2; k++; if(rs[own]==r) ok=bor(ok,band(m.off<=a,b<=m.off+m.len)); } return ok; };
  for(auto r:rs) sx_assert(inmap(r,c0,c1),"the control area is mapped");
  std::vector<uint64_t> at; int step=nb>16?nb/3:1; for(int i=0;i<nb;i+=step){ uint64_t off[3];
    BE*b=ctl(&s1); auto prep=[&](BS others,BS mine){ if(nb<=16) for(int k=0;k<nb;k++) b[k].state.store(others); else { for(int k=0;k<=i;k++) b[k].state.store(others); } b[i].state.store(mine); b[i].number=0; };
    prep(BS::Stage3_Locked,BS::Free); s1.m_current_bank=-1; s1.m_counter=0; off[0]=(char*)s1.acquire_bank()-sx_shm; sx_assert(s1.m_current_bank==i,"the free buffer is taken");
    prep(BS::Stage3_Locked,BS::Stage1_Unlocked); s2.m_current_bank=-1; off[1]=(char*)s2.acquire_bank()-sx_shm; sx_assert(s2.m_current_bank==i,"the filled buffer is taken");
    prep(BS::Stage2_Locked,BS::Stage2_Unlocked); s3.m_current_bank=-1; s3.m_counter=0; off[2]=(char*)s3.acquire_bank()-sx_shm; sx_assert(s3.m_current_bank==i,"the reduced buffer is taken");
    sx_assert(band(off[0]==off[1],off[0]==off[2]),"all participants place a buffer alike"); for(auto r:rs) sx_assert(inmap(r,off[0],off[0]+bs),"a buffer is mapped"); sx_assert(bor(off[0]+bs<=c0,c1<=off[0]),"a buffer does not overlap the control area"); sx_assert((off[0]&7)==0||(bs&7)!=0,"a buffer of whole words is aligned");
    for(auto o:at) sx_assert(bor(o+bs<=off[0],off[0]+bs<=o),"buffers do not overlap"); at.push_back(off[0]); }
  sx_observe("n",at.size());
#else
  sx_expect_reach("names"); static char fb[16],sb[16]; sx_filebuf=fb; sx_shm=sb; uint64_t a=sx_range("pid",1,4194304), b=sx_range("otherpid",1,4194304); 
  // the master uses its own process number; the workers are told it
  sx_pid=a; Stage1Runner s1("in",nullptr,64,2); sx_pid=sx_range("workerpid",1,4194304); Stage2Runner s2("in",64,2,(int)a); Stage3Runner s3("in",64,2,(int)a);
  sx_assert(sx_eqs(s1.m_memory_name,s2.m_memory_name)&&sx_eqs(s1.m_memory_name,s3.m_memory_name),"all participants name the memory alike"); sx_assert(sx_eqs(s1.m_slave_lock_name,s2.m_slave_lock_name),"participants name the semaphore alike");
  sx_reach("names"); sx_pid=b; Stage1Runner t1("in",nullptr,64,2); sx_assert(bor(a==b,!sx_eqs(s1.m_memory_name,t1.m_memory_name)),"different processes use different memory"); sx_assert(bor(a==b,!sx_eqs(s1.m_slave_lock_name,t1.m_slave_lock_name)),"different processes use different semaphores");
  sx_assert(s1.m_memory_name[0]=='/'&&!strchr(s1.m_memory_name+1,'/')&&strlen(s1.m_memory_name)<200,"a usable object name");
#endif
}
