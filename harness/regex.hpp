// Pattern generator (shape by sx_choose), printer and reference matcher (branch-free boolean matrices).
#pragma once
#include "common.hpp"
#include <memory>
#include <limits>
#ifndef TC
#define TC unsigned char
#endif
#ifndef SLEN
#define SLEN 3
#endif
static const uint64_t CMAX=(uint64_t)std::numeric_limits<TC>::max();
struct Node{ int kind; /*0 leaf,1 seq,2 alt,3 star,4 plus,5 opt,6 empty*/ std::vector<std::shared_ptr<Node>> k; std::vector<std::pair<uint64_t,uint64_t>> set; /*inclusive*/ bool neg=false; };
typedef std::shared_ptr<Node> NP;
struct PatGen{
  int leaves,posts,groups,longs; int leafkinds; bool symb; int nleaf=0; std::wstring txt;
  PatGen(int l,int p,int g,int kinds,bool sy,int lg=0):leaves(l),posts(p),groups(g),longs(lg),leafkinds(kinds),symb(sy){}
  uint64_t ch(){ // a character with no meaning of its own in the notation
    static const char pool[]="dbfh"; if(!symb){ return pool[nleaf%4]; }
    uint64_t c=sx_range("lc",1,CMAX-1); static const wchar_t sp[]={L'/',L'\\',L'[',L']',L'.',L'(',L')',L'+',L'*',L'?',L'|',L'{',L'}',L'^',L'-',10,13,0x85,0x2028,0x2029,0xFFFF};
    bool ok=true; for(wchar_t w:sp) ok=band(ok,c!=(uint64_t)w); sx_assume(ok); return c; }
  NP leaf(){ leaves--; NP n(new Node); n->kind=0; int k=leafkinds>1?sx_choose("leaf",leafkinds):0;
    if(k==0){ uint64_t c=ch(); n->set.push_back({c,c}); txt.push_back((wchar_t)c); }
    else if(k==1){ uint64_t a=ch(),b=symb?ch():a+2; if(symb) sx_assume(a<=b); n->set.push_back({a,b}); txt.push_back(L'['); txt.push_back((wchar_t)a); txt.push_back(L'-'); txt.push_back((wchar_t)b); txt.push_back(L']'); }
    else if(k==2){ n->set.push_back({1,CMAX-1}); txt.push_back(L'.'); }
    else if(k==3){ uint64_t a=ch(); n->neg=true; n->set.push_back({a,a}); txt+=L"[^"; txt.push_back((wchar_t)a); txt.push_back(L']'); }
    else { static const wchar_t e[]=L"[]+*{}?\\|()."; wchar_t c=e[sx_choose("esc",12)]; n->set.push_back({(uint64_t)c,(uint64_t)c}); txt.push_back(L'\\'); txt.push_back(c); }
    nleaf++; return n; }
  NP unit(){ NP n; if(groups>0&&sx_choose("grp",2)){ groups--; txt.push_back(L'('); n=seq(); txt.push_back(L')'); } else n=leaf();
    if(posts>0){ int p=sx_choose("post",4); if(p){ posts--; NP m(new Node); m->kind=2+p; m->k.push_back(n); n=m; static const wchar_t pc[]=L" *+?"; txt.push_back(pc[p]);
      if(longs){ int q=sx_choose("long",p==3?3:4); if(q){ if(p==1){ static const wchar_t s[]=L" +?*"; txt.push_back(s[q]); } else if(p==2){ static const wchar_t s[]=L" +?*"; txt.push_back(s[q]); } else { static const wchar_t s[]=L" ?*"; txt.push_back(s[q]); } } } } }
    return n; }
  NP sel(){ NP n=unit(); if(!n) return n; if(leaves>0&&sx_choose("alt",2)){ NP m(new Node); m->kind=2; m->k.push_back(n); do{ txt.push_back(L'|'); NP u=unit(); if(!u) return u; m->k.push_back(u);}while(leaves>0&&sx_choose("alt",2)); return m; } return n; }
  NP seq(){ NP m(new Node); m->kind=1; do{ NP u=sel(); if(!u) return u; m->k.push_back(u);}while(leaves>0&&sx_choose("more",2)); return m; }
};
typedef std::vector<std::vector<char>> Mat; // symbolic booleans
static Mat mzero(int n){ return Mat(n+1,std::vector<char>(n+1,0)); }
static Mat mid(int n){ Mat m=mzero(n); for(int i=0;i<=n;i++) m[i][i]=1; return m; }
static Mat mmul(const Mat&a,const Mat&b,int n){ Mat r=mzero(n); for(int i=0;i<=n;i++) for(int j=i;j<=n;j++){ bool v=false; for(int k=i;k<=j;k++) v=bor(v,band(a[i][k],b[k][j])); r[i][j]=v; } return r; }
static Mat mor(const Mat&a,const Mat&b,int n){ Mat r=mzero(n); for(int i=0;i<=n;i++) for(int j=i;j<=n;j++) r[i][j]=bor(a[i][j],b[i][j]); return r; }
static Mat refmatch(const NP&nd,const uint64_t*x,int n){
  if(nd->kind==0){ Mat m=mzero(n); for(int i=0;i<n;i++){ bool v=false; for(auto&r:nd->set) v=bor(v,band(r.first<=x[i],x[i]<=r.second)); if(nd->neg) v=band(!v,band(x[i]>=1,x[i]<CMAX)); m[i][i+1]=v; } return m; }
  if(nd->kind==6) return mid(n);
  Mat m=refmatch(nd->k[0],x,n);
  if(nd->kind==1){ for(size_t i=1;i<nd->k.size();i++) m=mmul(m,refmatch(nd->k[i],x,n),n); return m; }
  if(nd->kind==2){ for(size_t i=1;i<nd->k.size();i++) m=mor(m,refmatch(nd->k[i],x,n),n); return m; }
  if(nd->kind==5) return mor(m,mid(n),n);
  Mat s=mid(n); for(int i=0;i<n;i++) s=mor(mid(n),mmul(m,s,n),n);
  return nd->kind==3?s:mmul(m,s,n); }
// branch-free simulation of the automaton the real code built
template<class CC> static bool lab(const CC&c,uint64_t x){ bool b=false; for(auto it=c.begin();it!=c.end();++it) b=bor(b,band((uint64_t)it->start()<=x,x<(uint64_t)it->end())); return b; }
template<class A> static void epsclose(const A&a,std::vector<char>&s){ int ns=s.size(); for(int r=0;r<ns;r++) { bool ch=false; for(int i=0;i<ns;i++) for(const auto&t:a.get_state(i).get_transitions()) if(t.label().is_epsilon()){ s[t.dest()]=bor(s[t.dest()],s[i]); ch=true; } if(!ch) break; } }
template<class A> static std::vector<std::vector<char>> simulate(const A&a,const uint64_t*x,int n){ // reached states after each prefix
  int ns=a.get_state_num(); std::vector<std::vector<char>> out; std::vector<char> s(ns,0); s[0]=1; epsclose(a,s); out.push_back(s);
  for(int p=0;p<n;p++){ std::vector<char> t(ns,0); for(int i=0;i<ns;i++) for(const auto&tr:a.get_state(i).get_transitions()) if(!tr.label().is_epsilon()) t[tr.dest()]=bor(t[tr.dest()],band(s[i],lab(tr.label(),x[p]))); s=t; epsclose(a,s); out.push_back(s); }
  return out; }
