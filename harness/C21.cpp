// Network paths: order, equality, hash, sequence operations (MODE 0), order of three (MODE 1), text form (MODE 2: writing and reading back, MODE 3: any text).
#include "common.hpp"
#include "Util.hpp"
#include <sstream>
using namespace Centaurus;
#ifndef DEPTH
#define DEPTH 2
#endif
struct El{ std::vector<uint64_t> id; int ix; };
typedef std::vector<El> PS;
static ATNPath mk(PS&v,int maxid){ int d=sx_choose("depth",DEPTH+1); ATNPath p; for(int i=0;i<d;i++){ El e; int l=1+sx_choose("idlen",maxid); std::wstring w; for(int j=0;j<l;j++){ uint64_t c=sx_range("id",0x41,0x7a); e.id.push_back(c); w.push_back((wchar_t)c); } e.ix=(int)sx_u("index",32); v.push_back(e); p.push(Identifier(w),e.ix); } return p; }
static bool eqel(const El&a,const El&b){ if(a.id.size()!=b.id.size()) return false; bool r=a.ix==b.ix; for(size_t i=0;i<a.id.size();i++) r=band(r,a.id[i]==b.id[i]); return r; }
static bool eqps(const PS&a,const PS&b){ if(a.size()!=b.size()) return false; bool r=true; for(size_t i=0;i<a.size();i++) r=band(r,eqel(a[i],b[i])); return r; }
static bool is(const ATNPath&p,const PS&v){ if(p.depth()!=(int)v.size()) return false; bool r=true; for(size_t i=0;i<v.size();i++){ const std::wstring&s=p[i].first.str(); if(s.size()!=v[i].id.size()) return false; for(size_t j=0;j<s.size();j++) r=band(r,(uint64_t)s[j]==v[i].id[j]); r=band(r,p[i].second==v[i].ix); } return r; }
void sx_main(){
  sx_expect_reach("path");
#if MODE==0
  PS a,b; ATNPath p=mk(a,2),q=mk(b,2); sx_reach("path"); bool e=eqps(a,b); int c=p.compare(q),d=q.compare(p);
  sx_assert(is(p,a),"pushing builds the path"); sx_assert((p==q)==e,"equality is equality of all elements"); sx_assert((c==0)==e,"compare is zero exactly for equal paths"); sx_assert(band((c<0)==(d>0),(c>0)==(d<0)),"compare is antisymmetric");
  sx_assert(bor(!e,p.hash()==q.hash()),"equal paths hash equally"); sx_assert(bor(!e,std::hash<ATNPath>()(p)==std::hash<ATNPath>()(q)),"equal paths hash equally in containers"); sx_observe("e",e);
#elif MODE==4
  PS a; ATNPath p=mk(a,1); sx_reach("path"); El n; n.id.push_back(sx_range("nid",0x41,0x7a)); n.ix=(int)sx_u("nindex",32); Identifier id(std::wstring(1,(wchar_t)n.id[0]));
  PS x=a; x.push_back(n); ATNPath r=p.add(id,n.ix); sx_assert(is(r,x),"add appends"); sx_assert(is(p,a),"add leaves the original alone"); sx_assert(is(r.parent_path(),a),"the parent of an extended path is the path"); sx_assert(r.leaf_index()==n.ix,"leaf index"); sx_assert(r.leaf_id()==id,"leaf name");
  ATNPath s(p); s.push(id,n.ix); sx_assert(is(s,x),"push appends"); s.pop(); sx_assert(is(s,a),"pop removes the last element");
  int nx=(int)sx_u("replacement",32); PS y=x; y.back().ix=nx; sx_assert(is(r.replace_index(nx),y),"replacing the leaf index"); sx_assert(is(r,x),"replacing leaves the original alone");
  int cnt=0; bool any=false; for(auto&e:x){ bool m=eqel(e,n); cnt+=m; any=bor(any,m); } sx_assert(r.count(id,n.ix)==cnt,"count of an element"); sx_assert(r.find(id,n.ix)==any,"presence of an element"); sx_assert(p.count(id,n.ix)==cnt-1,"count in the shorter path"); sx_assert(p.find(id,n.ix)==(cnt>1),"presence in the shorter path");
#elif MODE==1
  PS a,b,c; ATNPath p=mk(a,1),q=mk(b,1),r=mk(c,1); sx_reach("path"); int pq=p.compare(q),qr=q.compare(r),pr=p.compare(r); sx_assert(bor(!band(pq<0,qr<0),pr<0),"compare is transitive"); sx_assert(bor(!band(pq==0,qr<0),pr<0),"compare respects equality"); sx_assert(bor(!band(pq<0,qr==0),pr<0),"compare respects equality on the right");
#elif MODE==2
  static const wchar_t*names[]={L"a",L"_",L"Obj2",L"z_9Z"}; static const int ixs[]={0,1,9,10,65535,2147483647}; int d=1+sx_choose("depth",DEPTH); ATNPath p; for(int i=0;i<d;i++) p.push(Identifier(names[sx_choose("name",4)]),ixs[sx_choose("ix",6)]);
  std::wostringstream os; os<<p; sx_reach("path"); ATNPath q(os.str()); sx_assert(p==q&&p.compare(q)==0,"a path written and read back is the same path"); sx_observe("len",os.str().size());
#else
  int n=sx_choose("n",N+1); std::wstring w; uint64_t t[N+2]={0}; for(int i=0;i<n;i++){ 
#ifdef ALPHA
    uint64_t c=sx_range("ch",0x2e,0x7b);
#else
    uint64_t c=sx_range("ch",1,0x10FFFF);
#endif
    t[i]=c; w.push_back((wchar_t)c); }
  // reference reading
  PS v; bool ok=true; int i=0; auto al=[&](uint64_t c){ return bor(bor(band(c>='a',c<='z'),band(c>='A',c<='Z')),c=='_'); }; auto dg=[&](uint64_t c){ return band(c>='0',c<='9'); };
  for(;;){ El e; e.ix=0; if(i>=n||!al(t[i])){ ok=false; break; } while(i<n&&bor(al(t[i]),dg(t[i]))) e.id.push_back(t[i++]); if(i>=n||t[i]!='.'){ ok=false; break; } i++; if(i>=n||!dg(t[i])){ ok=false; break; } uint64_t ix=0; while(i<n&&dg(t[i])) ix=ix*10+(t[i++]-'0'); e.ix=(int)ix; v.push_back(e); if(i>=n) break; if(t[i]!='/'){ ok=false; break; } i++; }
  sx_reach("path"); bool threw=false; ATNPath p; try{ ATNPath q(w); p=q; }catch(std::exception&){ threw=true; }
  sx_assert(threw==!ok,"exactly well-formed path texts are accepted"); if(!threw&&ok){ sx_assert(is(p,v),"a path text denotes the path it spells"); } sx_observe("ok",ok);
#endif
}
