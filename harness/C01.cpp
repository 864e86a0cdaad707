// Character-class set algebra: the real CharClass operations on classes with symbolic boundaries,
// against set algebra on a symbolic probe character.
#include "common.hpp"
#include "CharClass.hpp"
using namespace Centaurus;
#ifndef TC
#define TC unsigned char
#endif
typedef std::vector<std::pair<uint64_t,uint64_t>> Ref;
static const uint64_t MAXC = (uint64_t)std::numeric_limits<TC>::max();
#ifdef SMALL
static const uint64_t LIM = SMALL;   // boundaries restricted to 0..SMALL (order-isomorphic small model)
#else
static const uint64_t LIM = MAXC;
#endif
static CharClass<TC> mk(const char*nm,int n,Ref&ref){
  CharClass<TC> c; uint64_t prev=0; bool first=true;
  for(int i=0;i<n;i++){ uint64_t s=sx_range(nm,0,LIM-1), e=sx_range(nm,1,LIM); sx_assume(s<e); if(!first) sx_assume(prev<s); prev=e; first=false; c.append(Range<TC>((TC)s,(TC)e)); ref.push_back({s,e}); }
  return c; }
static bool in(const Ref&r,uint64_t x){ bool b=false; for(auto&p:r) b=bor(b,band(p.first<=x,x<p.second)); return b; }
static bool cin(const CharClass<TC>&c,uint64_t x){ bool b=false; for(auto it=c.begin();it!=c.end();++it) b=bor(b,band((uint64_t)it->start()<=x,x<(uint64_t)it->end())); return b; }
static void canon(const CharClass<TC>&c,const char*msg){ uint64_t prev=0; bool ok=true; bool first=true; for(auto it=c.begin();it!=c.end();++it){ ok=band(ok,(uint64_t)it->start()<(uint64_t)it->end()); if(!first) ok=band(ok,prev<(uint64_t)it->start()); prev=it->end(); first=false; } sx_assert(ok,msg); sx_observe("size",c.size()); if(c.size()){ sx_observe("first",c[0].start()); sx_observe("last",c[c.size()-1].end()); } }
void sx_main(){
  int NA=2,NB=2;
#ifdef SMALL
  NA=3; NB=3;
#endif
#ifdef NMAX
  NA=NB=NMAX;
#endif
  sx_expect_reach("both-nonempty");
  Ref ra,rb; 
  int op=sx_choose("op",8);
  bool unary = op==2||op==5||op==6;
  int na=sx_choose("na",NA+1+(unary?1:0)), nb=unary?0:(int)sx_choose("nb",NB+1);
  CharClass<TC> a=mk("a",na,ra), b=mk("b",nb,rb);
  uint64_t x=sx_range("x",0,LIM==MAXC?MAXC-1:LIM+1);
  if(na&&nb) sx_reach("both-nonempty");
  bool A=in(ra,x),B=in(rb,x);
  if(op==0){ CharClass<TC> u=a|b; canon(u,"union not well-formed"); sx_assert(cin(u,x)==bor(A,B),"union membership"); CharClass<TC> w=a; w|=b; sx_assert(w==u,"union in place differs"); }
  else if(op==1){ CharClass<TC> u=a&b; canon(u,"intersection not well-formed"); sx_assert(cin(u,x)==band(A,B),"intersection membership"); }
  else if(op==2){ CharClass<TC> u=~a; canon(u,"complement not well-formed"); sx_assert(cin(u,x)==band(!A,x>=1),"complement membership"); }
  else if(op==3){ auto d=a.diff_and_int(b); for(int i=0;i<3;i++) canon(d[i],"split not well-formed"); sx_assert(cin(d[0],x)==band(A,!B),"split: only-left part"); sx_assert(cin(d[1],x)==band(!A,B),"split: only-right part"); sx_assert(cin(d[2],x)==band(A,B),"split: common part"); }
  else if(op==4){ bool o=a.overlaps(b); bool any=false; for(auto&p:ra) for(auto&q:rb) any=bor(any,band(p.first<q.second,q.first<p.second)); sx_assert(o==any,"overlap query"); }
  else if(op==5){ sx_assert(a.includes((TC)x)==A,"membership query"); sx_assert(a.is_epsilon()==(na==0),"emptiness query"); uint64_t s=sx_range("rs",0,LIM-1),e=sx_range("re",1,LIM); sx_assume(s<e); bool all=false; for(auto&p:ra) all=bor(all,band(p.first<=s,e<=p.second)); sx_assert(a.includes(Range<TC>((TC)s,(TC)e))==all,"range membership query"); }
  else if(op==6){ uint64_t s=sx_range("rs",0,LIM-1),e=sx_range("re",1,LIM); sx_assume(s<e); CharClass<TC> u=a|Range<TC>((TC)s,(TC)e); canon(u,"range union not well-formed"); sx_assert(cin(u,x)==bor(A,band(s<=x,x<e)),"range union membership"); }
  else if(op==7){ bool same=ra.size()==rb.size(); if(same) for(size_t i=0;i<ra.size();i++) same=band(same,band(ra[i].first==rb[i].first,ra[i].second==rb[i].second)); bool eq=(a==b); sx_assert(eq==same,"equality"); if(eq) sx_assert(a.hash()==b.hash(),"equal classes must have equal hashes"); }
}
