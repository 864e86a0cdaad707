// Priority chains: ranking of two decision histories (add and push), against the first-difference definition.
#include "common.hpp"
#include "Util.hpp"
using namespace Centaurus;
#ifndef LEN
#define LEN 2
#endif
struct El{ std::vector<uint64_t> id; int64_t ix,pr; };
static PriorityChain make(std::vector<El>&e,int mode){ int n=sx_choose("len",LEN+1); PriorityChain c; 
  for(int i=0;i<n;i++){ El x; int l=1+sx_choose("idlen",2); std::wstring w; for(int j=0;j<l;j++){ uint64_t ch=sx_range("id",0x61,0x7a); x.id.push_back(ch); w.push_back((wchar_t)ch); } x.ix=(int)sx_u("index",32); x.pr=(int)sx_u("priority",32); e.push_back(x); Identifier id(w);
    if(mode==0) c.push(id,(int)x.ix,(int)x.pr); else if(mode==1) c=c.add(id,(int)x.ix,(int)x.pr); else if(i==0) c=PriorityChain(id,(int)x.ix,(int)x.pr); else { PriorityChain d(c); c.push(id,(int)x.ix,(int)x.pr); (void)d; } }
  return c; }
static bool same(const El&a,const El&b){ if(a.id.size()!=b.id.size()) return false; bool r=a.ix==b.ix; for(size_t i=0;i<a.id.size();i++) r=band(r,a.id[i]==b.id[i]); return r; }
static int ref(const std::vector<El>&a,const std::vector<El>&b){ // branch-free: 0, 1 (a outranks b), 2 (b outranks a)
  uint64_t res=0; bool open=true; for(size_t i=0;i<a.size()&&i<b.size();i++){ bool s=same(a[i],b[i]); bool lt=band(s,a[i].pr<b[i].pr), gt=band(s,a[i].pr>b[i].pr); res=sx_ite(band(open,lt),1,sx_ite(band(open,gt),2,res)); open=band(open,!bor(lt,gt)); } return (int)res; }
void sx_main(){
  sx_expect_reach("compared"); std::vector<El> a,b; int mode=sx_choose("mode",3); PriorityChain p=make(a,mode),q=make(b,mode); sx_reach("compared");
  int r=ref(a,b); bool s=p.is_superior_to(q), i=p.is_inferior_to(q), s2=q.is_superior_to(p), i2=q.is_inferior_to(p);
  sx_assert(s==(r==1),"outranks exactly by the first difference"); sx_assert(i==(r==2),"outranked exactly by the first difference");
  sx_assert(s2==(r==2),"the converse comparison agrees"); sx_assert(i2==(r==1),"the converse comparison agrees (inferior)"); sx_assert(!band(s,s2),"outranking is antisymmetric"); sx_assert(!bor(p.is_superior_to(p),p.is_inferior_to(p)),"no history outranks itself"); sx_observe("s",s); sx_observe("i",i); }
