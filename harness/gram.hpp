// Small grammars with a reference of their own: derivations of texts, counted without and checked with the longest-match rule.
#pragma once
#include "common.hpp"
#include <memory>
#include <tuple>
struct GNode; typedef std::shared_ptr<GNode> GP;
enum GK{ GLIT,GRX,GREF,GSEQ,GALT,GSTAR,GPLUS,GOPT };
struct GNode{ GK k; std::string lit; int n=0; std::vector<GP> c; std::vector<int> rank; int item=-1; };
static GP gnode(GK k){ GP p(new GNode); p->k=k; return p; }
static GP glit(const std::string&s){ GP p=gnode(GLIT); p->lit=s; return p; }
static GP grx(int i){ GP p=gnode(GRX); p->n=i; return p; }
static GP gref(int i){ GP p=gnode(GREF); p->n=i; return p; }
static GP gof(GK k,std::vector<GP> c){ GP p=gnode(k); p->c=c; return p; }
static GP galt(std::vector<GP> c,int ranked=0){ GP p=gof(GALT,c); for(size_t i=0;i<c.size();i++) p->rank.push_back(ranked?(int)i:0); return p; }
static const wchar_t*const GRXT[]={L"a+",L"[ab]",L"a*b",L"ab?",L"[a-c]*c",L"a++",L"b"};
struct Gram{ std::vector<GP> rules; static const wchar_t*name(int i){ static const wchar_t*const N[]={L"Z",L"S",L"A",L"B"}; return N[i]; }
  static void put(std::wstring&o,const GP&p,int lvl){ switch(p->k){ // lvl 0: alternatives may stand bare, 1: sequences may, 2: atoms only
      case GLIT: o+=L" '"; for(char ch:p->lit) o+=(wchar_t)(unsigned char)ch; o+=L"'"; break; case GRX: o+=L" /"; o+=GRXT[p->n]; o+=L"/"; break; case GREF: o+=L" "; o+=name(p->n); break;
      case GSEQ: if(lvl>1) o+=L" ("; for(auto&c:p->c) put(o,c,2); if(lvl>1) o+=L")"; break;
      case GALT: if(lvl>0) o+=L" ("; for(size_t i=0;i<p->c.size();i++){ if(i) o+=p->rank[i]!=p->rank[i-1]?L" |>":L" |"; put(o,p->c[i],1); } if(lvl>0) o+=L")"; break;
      default: { bool nest=p->c[0]->k>=GSTAR; if(nest) o+=L" ("; put(o,p->c[0],2); if(nest) o+=L")"; } o+=p->k==GSTAR?L"*":p->k==GPLUS?L"+":L"?"; return; }
    if(p->item>=0){ o+=L"{"; o+=(wchar_t)(L'0'+p->item); o+=L"}"; } }
  static void wrap(std::wstring&o,const GP&p){ put(o,p,0); }
  std::wstring text()const{ std::wstring o; for(size_t i=0;i<rules.size();i++){ o+=name((int)i); o+=L":"; put(o,rules[i],0); o+=L";\n"; } return o; }
  bool has(const GP&p,GK k)const{ if(p->k==k) return true; for(auto&c:p->c) if(has(c,k)) return true; return false; }
  int refs(const GP&p,int r)const{ int n=p->k==GREF&&p->n==r; for(auto&c:p->c) n+=refs(c,r); return n; }
  bool ranked(const GP&p)const{ if(p->k==GALT) for(int r:p->rank) if(r) return true; for(auto&c:p->c) if(ranked(c)) return true; return false; }
  bool nullable(const GP&p)const{ switch(p->k){ case GLIT: case GRX: return false; case GREF: return nullable(rules[p->n]); case GSEQ: for(auto&c:p->c) if(!nullable(c)) return false; return true; case GALT: for(auto&c:p->c) if(nullable(c)) return true; return false; case GPLUS: return nullable(p->c[0]); default: return true; } }
  bool nullableloop(const GP&p)const{ if((p->k==GSTAR||p->k==GPLUS)&&nullable(p->c[0])) return true; for(auto&c:p->c) if(nullableloop(c)) return true; return false; }
};
struct Two{ bool one,two; }; // at least one derivation, at least two
static inline Two tsum(Two a,Two b){ return Two{bor(a.one,b.one),bor(bor(a.two,b.two),band(a.one,b.one))}; }
static inline Two tmul(Two a,Two b){ return Two{band(a.one,b.one),bor(band(a.two,b.one),band(a.one,b.two))}; }
struct GRef{ const Gram&g; const std::vector<uint64_t>&x; int n; std::map<std::tuple<const GNode*,int,int,int>,Two> memo; std::map<std::tuple<int,int,int>,bool> rm;
  GRef(const Gram&gg,const std::vector<uint64_t>&xx):g(gg),x(xx),n((int)xx.size()){}
  bool ws(int i){ return bor(bor(x[i]==' ',x[i]=='\t'),bor(x[i]=='\r',x[i]=='\n')); }
  std::map<std::pair<int,int>,bool> wm; bool skip(int i,int k){ auto key=std::make_pair(i,k); auto it=wm.find(key); if(it!=wm.end()) return it->second; bool r=true; for(int j=i;j<k;j++) r=band(r,ws(j)); if(k<n) r=band(r,!ws(k)); wm[key]=r; return r; } // layout from i ends at k
  bool all(int i,int j,unsigned lo,unsigned hi){ bool r=true; for(int k=i;k<j;k++) r=band(r,band(x[k]>=lo,x[k]<=hi)); return r; }
  bool rx(int p,int i,int j){ auto key=std::make_tuple(p,i,j); auto it=rm.find(key); if(it!=rm.end()) return it->second; bool r=false; switch(p){ case 0: case 5: r=j>i?all(i,j,'a','a'):false; break; case 1: r=j==i+1?all(i,j,'a','b'):false; break; case 2: r=j>i?band(all(i,j-1,'a','a'),x[j-1]=='b'):false; break;
      case 3: r=j==i+1?all(i,j,'a','a'):j==i+2?band(x[i]=='a',x[i+1]=='b'):false; break; case 4: r=j>i?band(all(i,j-1,'a','c'),x[j-1]=='c'):false; break; case 6: r=j==i+1?x[i]=='b':false; break; } rm[key]=r; return r; }
  bool LM=false; bool lm(const GP&p,int i,int j){ if(!LM){ LM=true; memo.clear(); } return ways(p,i,j).one; } // afterwards ways() uses the longest-match rule
  bool longest(int p,int i,int j){ bool r=rx(p,i,j); for(int k=j+1;k<=n;k++) r=band(r,!rx(p,i,k)); return r; }
  bool lit(const std::string&s,int i,int j){ if(j-i!=(int)s.size()) return false; bool r=true; for(int k=i;k<j;k++) r=band(r,x[k]==(uint64_t)(unsigned char)s[k-i]); return r; }
  Two ways(const GP&p,int i,int j,int idx=0){ auto key=std::make_tuple((const GNode*)p.get(),idx,i,j); auto it=memo.find(key); if(it!=memo.end()) return it->second; memo[key]=Two{false,false}; Two r{false,false};
    switch(p->k){ case GLIT: for(int k=i;k<=j;k++) r=tsum(r,Two{band(skip(i,k),lit(p->lit,k,j)),false}); break; case GRX: for(int k=i;k<=j;k++) r=tsum(r,Two{band(skip(i,k),LM?longest(p->n,k,j):rx(p->n,k,j)),false}); break; case GREF: r=ways(g.rules[p->n],i,j); break;
      case GSEQ: if(idx==(int)p->c.size()) r.one=i==j; else for(int k=i;k<=j;k++){ Two a=ways(p->c[idx],i,k); r=tsum(r,tmul(a,ways(p,k,j,idx+1))); } break;
      case GALT: for(auto&c:p->c) r=tsum(r,ways(c,i,j)); break; case GOPT: r=ways(p->c[0],i,j); if(i==j) r=tsum(r,Two{true,false}); break;
      case GSTAR: case GPLUS: if(p->k==GSTAR||idx==1) r.one=i==j; for(int k=i+(p->k==GSTAR||idx==1);k<=j;k++) r=tsum(r,tmul(ways(p->c[0],i,k),ways(p,k,j,1))); break; }
    memo[key]=r; return r; }
  // trace check: children are the rule instances directly inside, in order
  struct Inst{ int rule,s,e; std::vector<Inst> k; };
  typedef std::map<std::pair<int,int>,bool> St; // (position, children used) -> condition
  static void add(St&s,std::pair<int,int> k,bool c){ auto it=s.find(k); if(it==s.end()) s[k]=c; else it->second=bor(it->second,c); }
  St step(const GP&p,const St&in,const Inst&I){ St o; switch(p->k){
      case GLIT: case GRX: for(auto&e:in) for(int k=e.first.first;k<=n;k++) for(int j=k+1;j<=n;j++){ if(p->k==GLIT&&j-k!=(int)p->lit.size()) continue; add(o,{j,e.first.second},band(band(e.second,skip(e.first.first,k)),p->k==GLIT?lit(p->lit,k,j):longest(p->n,k,j))); } break;
      case GREF: for(auto&e:in) if(e.first.second<(int)I.k.size()&&I.k[e.first.second].rule==p->n&&I.k[e.first.second].s==e.first.first) add(o,{I.k[e.first.second].e,e.first.second+1},e.second); break;
      case GSEQ: { o=in; for(auto&c:p->c) o=step(c,o,I); } break; case GALT: for(auto&c:p->c) for(auto&e:step(c,in,I)) add(o,e.first,e.second); break;
      case GOPT: o=in; for(auto&e:step(p->c[0],in,I)) add(o,e.first,e.second); break;
      default: { St cur=p->k==GPLUS?step(p->c[0],in,I):in; o=cur; for(int r=0;r<=n+(int)I.k.size();r++){ St nx; for(auto&e:step(p->c[0],cur,I)) nx[e.first]=e.second; cur=nx; for(auto&e:cur) add(o,e.first,e.second); if(cur.empty()) break; } } break; } return o; }
  bool fits(const Inst&I){ if(I.rule<0||I.rule>=(int)g.rules.size()||I.s<0||I.e<I.s||I.e>n) return false; St o=step(g.rules[I.rule],St{{{I.s,0},true}},I); auto it=o.find({I.e,(int)I.k.size()}); bool r=it==o.end()?false:it->second; for(auto&c:I.k) r=band(r,fits(c)); return r; }
};
// generator: Z: S ';' -- S: a generated body -- A, B: bodies from a list
struct GramGen{ int leaves,posts,groups,ranks,kinds,abodies; int letters=0; bool useA=false; int seq2=1;
  GramGen(int l,int p,int g,int r,int k,int a):leaves(l),posts(p),groups(g),ranks(r),kinds(k),abodies(a){}
  std::string letter(){ int m=letters<1?1:2; int v=m>1?sx_choose("letter",2):0; if(v+1>letters) letters=v+1; return v?"b":"a"; }
  GP leaf(){ leaves--; int k=kinds>1?sx_choose("leaf",kinds):0; switch(k){ case 0: return glit(letter()); case 1: useA=true; return gref(2); case 2: letters=2; return grx(0); case 3: letters=2; return grx(2); case 4: letters=2; return glit("ab"); case 5: letters=2; return grx(1); default: letters=2; return grx(3); } }
  GP atom(){ GP n; if(groups>0&&leaves>1&&sx_choose("grp",2)){ groups--; n=sel(); } else { if(!leaves) return nullptr; n=leaf(); } if(!n) return n; if(posts>0){ int p=sx_choose("post",4); if(p){ posts--; n=gof(p==1?GSTAR:p==2?GPLUS:GOPT,{n}); } } return n; }
  GP seq(){ std::vector<GP> v; do{ GP u=atom(); if(!u) return u; v.push_back(u); }while(leaves>0&&sx_choose("more",2)); return v.size()==1?v[0]:gof(GSEQ,v); }
  GP sel(){ GP n=seq(); if(!n) return n; std::vector<GP> v(1,n); std::vector<int> rk(1,0); while(leaves>0){ int a=sx_choose("alt",ranks>0?3:2); if(!a) break; if(a==2) ranks--; rk.push_back(rk.back()+(a==2)); GP u=seq(); if(!u) return u; v.push_back(u); } if(v.size()==1) return n; GP m=gof(GALT,v); m->rank=rk; return m; }
  GP abody(){ int b=sx_choose("A",abodies); switch(b){ case 0: return galt({glit("a"),glit("b")}); case 1: return gof(GOPT,{glit("a")}); case 2: return galt({gof(GSEQ,{glit("a"),gref(2),glit("b")}),glit("b")}); case 3: return gof(GPLUS,{glit("a")}); case 4: return galt({glit("ab"),glit("a")}); case 5: return gof(GSEQ,{gof(GSTAR,{grx(2)}),gof(GOPT,{glit("a")})}); case 6: return gof(GSEQ,{gref(3),gof(GOPT,{gref(3)})}); case 8: return gof(GSEQ,{glit("a"),gof(GOPT,{gof(GSEQ,{glit("b"),gref(2)})})}); default: return galt({grx(0),gof(GSEQ,{glit("b"),gof(GOPT,{gref(2)})})}); } }
  bool make(Gram&g){ GP s=sel(); if(!s||leaves>0) return false; g.rules.push_back(gof(GSEQ,{gref(1),glit(";")})); g.rules.push_back(s); if(useA){ GP a=abody(); g.rules.push_back(a); if(g.refs(a,3)) g.rules.push_back(galt({glit("a"),glit("b")})); } return true; }
};
