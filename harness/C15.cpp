// Trace marks: decoding of start and end marks for every rule number and position, and of every 64-bit word.
#include "runner.hpp"
static int sx_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*){ return 0; }
void sx_main(){
  sx_expect_reach("mark");
#if MODE==0
  uint64_t id=sx_range("id",1,32767), off=sx_u("offset",48); bool start=sx_u("start",1); uint64_t win=sx_u("window",47), tag=sx_u("tag",64);
  uint64_t v=off|(id<<48)|((uint64_t)start<<63); CSTMarker m(v); sx_reach("mark");
  sx_assert(m.is_start_marker()==start,"a start mark is a start mark"); sx_assert(m.is_end_marker()==!start,"an end mark is an end mark"); sx_assert(!m.is_sv_marker(),"a rule mark is not a value mark");
  sx_assert((uint64_t)m.get_machine_id()==id,"rule number"); sx_assert(m.get_machine_id()>0,"rule number is positive"); sx_assert(m.get_offset()==off,"position");
  sx_assert((uint64_t)m.offset_ptr((const void*)win)==win+off,"position as an address");
  SVCapsule c((const void*)win,v,tag); sx_assert((uint64_t)c.get_machine_id()==id,"captured rule number"); sx_assert((uint64_t)c.get_next_ptr()==win+off,"captured position"); sx_assert(c.get_tag()==tag,"captured value");
  CSTMarker k(m); sx_assert(k.get_offset()==off&&k.get_machine_id()==m.get_machine_id()&&k.is_start_marker()==start,"a copied mark is the same mark");
  // the bytes of a mark are the mark (marks are moved between buffers as raw words)
  uint64_t raw=0; memcpy(&raw,&m,8); sx_assert(sizeof(CSTMarker)==8&&raw==v,"a mark is one word of the buffer");
#else
  uint64_t v=sx_u("word",64); CSTMarker m(v); sx_reach("mark"); bool s=m.is_start_marker(),e=m.is_end_marker(),c=m.is_sv_marker();
  sx_assert(!bor(bor(band(s,e),band(s,c)),band(e,c)),"the kinds are mutually exclusive"); sx_assert(bor(v!=0,!bor(bor(s,e),c)),"the zero word is no mark");
  sx_assert(bor(s,e)==(m.get_machine_id()!=0),"rule marks are those with a rule number"); sx_assert(m.get_offset()<((uint64_t)1<<48)&&m.get_machine_id()>=0&&m.get_machine_id()<32768,"fields are within their width");
  sx_assert((m.get_offset()|((uint64_t)m.get_machine_id()<<48)|((uint64_t)m.get_sign_bit()<<63))==v,"a word is determined by its fields");
#endif
}
