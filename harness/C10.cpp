// Source reader (Stream): every text of up to N unrestricted characters, every call sequence up to K calls.
#include "common.hpp"
#include "Stream.hpp"
using namespace Centaurus;
#ifndef N
#define N 3
#endif
#ifndef K
#define K 3
#endif
static wchar_t T[N+4]; static int n;
static bool ws(wchar_t c){ return bor(c==L' ',band(c>=9,c<=13)); }
// one delivered unit at position p: CRLF counts as one line break
static int unit(int p){ if(p>=n) return 0; if(T[p]==L'\r'&&p+1<n&&T[p+1]==L'\n') return 2; return 1; }
// reference layout skipping: returns new position, or -1 for an unterminated block comment
static int skip(int p){
  for(;;){
    if(p<n&&ws(T[p])){ p++; continue; }
    if(p+1<n&&T[p]==L'/'&&T[p+1]==L'/'){ p+=2; while(p<n&&T[p]!=L'\n') p++; if(p<n) p++; continue; }
    if(p+1<n&&T[p]==L'/'&&T[p+1]==L'*'){ p+=2; for(;;){ if(p+1>=n) return -1; if(T[p]==L'*'&&T[p+1]==L'/') break; p++; } p+=2; continue; }
    return p;
  }
}
void sx_main(){
  
#ifndef COMMENTS
  sx_expect_reach("get");
#endif
  sx_expect_reach("skip"); sx_expect_reach("unterminated");
  n=sx_choose("n",N+1);
  for(int i=0;i<n;i++){
#ifdef COMMENTS
    static const wchar_t al[]=L"/*x\n"; T[i]=al[sx_choose("ch",4)]; }
  sx_assume(n==0||T[0]==L'/');
#else
    T[i]=(wchar_t)sx_range("ch",1,0x10FFFF); }
#endif
  // a lone carriage return has no defined meaning as a line end
  std::wstring s; for(int i=0;i<n;i++) s.push_back(T[i]);
  Stream st(s);
  sx_steps(200000,"reading a text");
  int p=0, mark=0; Stream::Sentry sen=st.sentry();
  for(int k=0;k<K;k++){
    
#ifdef COMMENTS
    int op=1;
#else
    int op=sx_choose("op",3);
#endif
    if(op==0){ wchar_t c=st.get(); int u=unit(p); sx_reach("get");
      if(u==0) sx_assert(c==0,"end of text is reported as end");
      else if(u==2) sx_assert(c==L'\n',"CRLF is delivered as one line break");
      else if(T[p]==L'\r') sx_assert(bor(c==L'\r',c==L'\n'),"carriage return delivered");
      else sx_assert(c==T[p],"characters are delivered in order");
      p+=u; sx_observe("c",c); }
    else if(op==1){ int q=skip(p); bool threw=false; wchar_t c=0; bool hit=false;
      // a line comment ended by a lone carriage return is outside the claim
      for(int i=p;i<n;i++) hit=bor(hit, T[i]==L'\r'&&!(i+1<n&&T[i+1]==L'\n'));
      sx_assume(!hit);
      try{ c=st.skip_whitespace(); }catch(StreamException&){ threw=true; }
      sx_reach("skip"); if(q<0) sx_reach("unterminated");
      sx_assert(threw==(q<0),"unterminated block comments, and only those, are errors");
      if(q<0||threw) return;
      p=q; sx_assert(c==(p<n?T[p]:0),"layout skipping stops at the first other character");
      sx_assert(st.peek()==(p<n?T[p]:0),"layout skipping leaves the reader there"); }
    else { std::wstring w=st.cut(sen); bool ok=(int)w.size()==p-mark; if(ok) for(int i=0;i<p-mark;i++) ok=band(ok,w[i]==T[mark+i]); sx_assert(ok,"cut returns the text passed over"); mark=p; sen=st.sentry(); }
    { wchar_t c=st.peek(); sx_assert(c==(p<n?T[p]:0),"peek shows the next character"); for(int j=1;j<=3;j++){ c=st.peek(j); sx_assert(c==(p+j-1<n?T[p+j-1]:0),"peek ahead shows the text"); } }
  }
}
