// Virtual grammar files (Grammar::parse opens a std::wifstream; here it reads from a map) and a structural dump of a grammar.
#pragma once
#include "common.hpp"
#include <fstream>
#include <sstream>
#include <iostream>
#include <locale>
#include <codecvt>
#include <limits>
#ifndef TC
#define TC unsigned char
#endif
static std::vector<std::pair<std::string,std::wstring>> vfiles; static std::vector<std::string> vopened;
namespace std {
struct sx_wbuf : basic_streambuf<wchar_t>{ std::vector<wchar_t> d; void open(const char*n){ std::string nm(n); vopened.push_back(nm); for(auto&f:vfiles) if(f.first==nm){ d.assign(f.second.begin(),f.second.end()); } d.push_back(0); setg(d.data(),d.data(),d.data()+d.size()-1); } };
struct sx_wifstream : sx_wbuf { sx_wifstream(const char*n,int=0){ open(n); } sx_wifstream(const std::string&n,int=0){ open(n.c_str()); } bool is_open()const{return true;} explicit operator bool()const{return true;} };
template<> class istreambuf_iterator<wchar_t,char_traits<wchar_t>> { sx_wbuf*b; public: typedef input_iterator_tag iterator_category; typedef wchar_t value_type; typedef long difference_type; typedef const wchar_t*pointer; typedef wchar_t reference; typedef wchar_t char_type;
  istreambuf_iterator():b(nullptr){} istreambuf_iterator(sx_wbuf&s):b(&s){ norm(); } size_t pos=0; void norm(){ if(b&&pos+1>=b->d.size()) b=nullptr; } wchar_t operator*()const{ return b->d[pos]; } istreambuf_iterator&operator++(){ pos++; norm(); return *this; } istreambuf_iterator operator++(int){ auto r=*this; ++*this; return r; } bool equal(const istreambuf_iterator&o)const{ return !b==!o.b; } bool operator==(const istreambuf_iterator&o)const{ return equal(o); } bool operator!=(const istreambuf_iterator&o)const{ return !equal(o); } };
}
#define wifstream sx_wifstream
#ifdef SX_CODECVT
// the facet of the "C" locale on ASCII text
namespace std { template<class I,class E,class S> struct sx_codecvt{ int max_length()const{return 1;} codecvt_base::result out(S&,const I*f,const I*fe,const I*&fn,E*t,E*te,E*&tn)const{ for(;f!=fe&&t!=te&&(unsigned long)*f<128;++f,++t) *t=(E)*f; fn=f; tn=t; return f==fe?codecvt_base::ok:codecvt_base::error; }
  codecvt_base::result in(S&,const E*f,const E*fe,const E*&fn,I*t,I*te,I*&tn)const{ for(;f!=fe&&t!=te&&(unsigned char)*f<128;++f,++t) *t=(I)(unsigned char)*f; fn=f; tn=t; return f==fe?codecvt_base::ok:codecvt_base::error; } };
template<> inline const sx_codecvt<wchar_t,char,mbstate_t>&use_facet<sx_codecvt<wchar_t,char,mbstate_t>>(const locale&){ static sx_codecvt<wchar_t,char,mbstate_t> c; return c; } }
#define codecvt sx_codecvt
#endif
#include "Grammar.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
using namespace Centaurus;
typedef std::vector<long> Dump;
static void dstr(Dump&d,const std::wstring&s){ d.push_back(s.size()); for(wchar_t c:s) d.push_back(c); }
static void dump_nfa(Dump&d,const NFA<TC>&n){ d.push_back(n.get_state_num()); for(int i=0;i<n.get_state_num();i++){ auto&tr=n.get_transitions(i); d.push_back(tr.size()); for(auto&t:tr){ d.push_back(t.dest()); d.push_back(t.is_long()); d.push_back(t.tag()); for(auto&r:t.label()){ d.push_back((long)r.start()); d.push_back((long)r.end()); } d.push_back(-7); } } }
static void dump_machine(Dump&d,const ATNMachine<TC>&m){ d.push_back(m.get_unique_id()); d.push_back(m.get_node_num());
  for(int i=0;i<m.get_node_num();i++){ auto&n=m.get_node(i); d.push_back((long)n.type()); d.push_back(n.get_id()); d.push_back(n.get_transitions().size()); for(auto&t:n.get_transitions()){ d.push_back(t.dest()); d.push_back(t.tag()); }
    dstr(d,n.get_invoke().str()); d.push_back(n.get_literal().size()); for(auto c:n.get_literal()) d.push_back((long)c); if(n.type()==ATNNodeType::RegularTerminal) dump_nfa(d,n.get_nfa()); } }
static Dump dump_grammar(const Grammar<TC>&g){ Dump d; d.push_back(g.get_machine_num()); dstr(d,g.get_root_id().str());
  for(int i=0;i<g.get_machine_num();i++){ const Identifier*id=nullptr; try{ id=&g.lookup_id(i); }catch(std::out_of_range&){ d.push_back(-99); continue; } dstr(d,id->str()); if(g.get_machines().count(*id)) dump_machine(d,g[*id]); else d.push_back(-98); }
  return d; }
static bool same_dump(const Dump&a,const Dump&b){ if(a.size()!=b.size()) return false; bool e=true; for(size_t i=0;i<a.size();i++) e=band(e,a[i]==b[i]); return e; }
