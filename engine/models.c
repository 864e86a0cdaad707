// Instrumented models of libc helpers, so that symbolic bytes flow through them.
#include <stddef.h>
#include <stdint.h>
typedef int wch;
int sxm_memcmp(const void*a,const void*b,size_t n){const unsigned char*x=a,*y=b;for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1;return 0;}
int sxm_bcmp(const void*a,const void*b,size_t n){const unsigned char*x=a,*y=b;for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return 1;return 0;}
size_t sxm_strlen(const char*s){size_t n=0;while(s[n])n++;return n;}
size_t sxm_wcslen(const wch*s){size_t n=0;while(s[n])n++;return n;}
void*sxm_memchr(const void*s,int c,size_t n){const unsigned char*p=s;for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i);return 0;}
void*sxm_memrchr(const void*s,int c,size_t n){const unsigned char*p=s;for(size_t i=n;i>0;i--) if(p[i-1]==(unsigned char)c) return (void*)(p+i-1);return 0;}
wch*sxm_wmemchr(const wch*s,wch c,size_t n){for(size_t i=0;i<n;i++) if(s[i]==c) return (wch*)(s+i);return 0;}
int sxm_wmemcmp(const wch*a,const wch*b,size_t n){for(size_t i=0;i<n;i++) if(a[i]!=b[i]) return a[i]<b[i]?-1:1;return 0;}
wch*sxm_wmemset(wch*s,wch c,size_t n){for(size_t i=0;i<n;i++) s[i]=c;return s;}
int sxm_strcmp(const char*a,const char*b){size_t i=0;for(;a[i]&&a[i]==b[i];i++);return (unsigned char)a[i]-(unsigned char)b[i];}
int sxm_strncmp(const char*a,const char*b,size_t n){for(size_t i=0;i<n;i++){ if(a[i]!=b[i]) return (unsigned char)a[i]-(unsigned char)b[i]; if(!a[i]) return 0;}return 0;}
int sxm_wcscmp(const wch*a,const wch*b){size_t i=0;for(;a[i]&&a[i]==b[i];i++);return a[i]<b[i]?-1:a[i]>b[i];}
char*sxm_strchr(const char*s,int c){for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0;}}
wch*sxm_wcschr(const wch*s,wch c){for(;;s++){ if(*s==c) return (wch*)s; if(!*s) return 0;}}
char*sxm_strcpy(char*d,const char*s){size_t i=0;do d[i]=s[i];while(s[i++]);return d;}
void*sxm_memcpy(void*d,const void*s,size_t n){__builtin_memmove(d,s,n);return d;}
void*sxm_memmove(void*d,const void*s,size_t n){__builtin_memmove(d,s,n);return d;}
void*sxm_memset(void*d,int c,size_t n){__builtin_memset(d,c,n);return d;}
wch*sxm_wmemcpy(wch*d,const wch*s,size_t n){__builtin_memmove(d,s,n*4);return d;}
wch*sxm_wmemmove(wch*d,const wch*s,size_t n){__builtin_memmove(d,s,n*4);return d;}
// "C" locale character classification
int sxm_isdigit(int c){return (c>='0')&(c<='9');}
int sxm_isalpha(int c){return ((c>='a')&(c<='z'))|((c>='A')&(c<='Z'));}
int sxm_isalnum(int c){return sxm_isalpha(c)|sxm_isdigit(c);}
int sxm_isspace(int c){return (c==' ')|((c>=9)&(c<=13));}
int sxm_iswspace(unsigned c){return (c==' ')|((c>=9)&(c<=13));}
int sxm_isgraph(int c){return (c>32)&(c<127);}
int sxm_iswgraph(unsigned c){return (c>32)&(c<127);}
int sxm_tolower(int c){return ((c>='A')&(c<='Z'))?c+32:c;}
int sxm_toupper(int c){return ((c>='a')&(c<='z'))?c-32:c;}
int sxm_iswdigit(unsigned c){return (c>='0')&(c<='9');}
int sxm_iswalpha(unsigned c){return ((c>='a')&(c<='z'))|((c>='A')&(c<='Z'));}
int sxm_iswalnum(unsigned c){return sxm_iswalpha(c)|sxm_iswdigit(c);}
// hashing of bytes: some fixed function of the bytes (its values only select buckets)
size_t sxm_hashbytes(const void*p,size_t n,size_t seed){const unsigned char*s=p;size_t h=n;for(size_t i=0;i<n;i++) h+=(size_t)s[i]*(i+1);return h;}
int*__errno_location(void);
long sxm_wcstol(const wch*s,wch**end,int base){const wch*p=s;while((*p==' ')|((*p>=9)&(*p<=13)))p++;int neg=0;if(*p=='+'||*p=='-'){neg=*p=='-';p++;}if(*p<'0'||*p>'9'){if(end)*end=(wch*)s;return 0;}
 unsigned long v=0;int ov=0;for(;(*p>='0')&(*p<='9');p++){unsigned d=*p-'0';if(v>(0x7fffffffffffffffUL-d)/10){ov=1;} v=v*10+d;} if(end)*end=(wch*)p;if(ov){*__errno_location()=34;return neg?(long)0x8000000000000000UL:0x7fffffffffffffffL;}return neg?-(long)v:(long)v;}
long sxm_strtol(const char*s,char**end,int base){const char*p=s;while((*p==' ')|((*p>=9)&(*p<=13)))p++;int neg=0;if(*p=='+'||*p=='-'){neg=*p=='-';p++;}if(*p<'0'||*p>'9'){if(end)*end=(char*)s;return 0;}
 unsigned long v=0;int ov=0;for(;(*p>='0')&(*p<='9');p++){unsigned d=*p-'0';if(v>(0x7fffffffffffffffUL-d)/10){ov=1;} v=v*10+d;} if(end)*end=(char*)p;if(ov){*__errno_location()=34;return neg?(long)0x8000000000000000UL:0x7fffffffffffffffL;}return neg?-(long)v:(long)v;}
