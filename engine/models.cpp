// Replacements for the parts of libstdc++ that live in the shared library (compiled WITH instrumentation).
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <cstring>
#include <cerrno>
#include <climits>
#include <limits>
extern "C" {
int __sym_models_module=1;
void __symr_out(int ch,const char*s,long n);
long __symr_in(char*b,long n);
long __symr_rrun(const char*p,long avail);
long __symr_itext(long v,char*buf,int direct);
long __symr_utext(unsigned long v,char*buf,int direct);
long __symr_dtext(double v,char*buf,long cap,const char*cfmt,int prec,int fmt,int direct);
}
namespace {
struct SymOut : std::streambuf { int ch; SymOut(int c):ch(c){} 
  std::streamsize xsputn(const char*s,std::streamsize n) override { __symr_out(ch,s,n); return n; }
  int overflow(int c) override { if(c==EOF) return 0; char b=(char)c; __symr_out(ch,&b,1); return (unsigned char)b; }
  int sync() override { return 0; } };
struct SymIn : std::streambuf { char b[4096]; int underflow() override { if(gptr()&&gptr()<egptr()) return (unsigned char)*gptr(); long n=__symr_in(b,sizeof b); if(n<=0) return EOF; setg(b,b,b+n); return (unsigned char)*gptr(); } };
struct Init { Init(){ static std::ios_base::Init ii; std::cout.rdbuf(new SymOut(1)); std::cerr.rdbuf(new SymOut(2)); std::clog.rdbuf(new SymOut(2)); std::cin.rdbuf(new SymIn); } };
__attribute__((init_priority(102))) Init theInit;
int direct(std::ostream&o){ return &o==&std::cout||&o==&std::cerr||&o==&std::clog; }
std::ostream &putT(std::ostream&o,const char*b,long n){
  std::ostream::sentry s(o); if(s){ long w=o.width(); bool left=(o.flags()&std::ios_base::adjustfield)==std::ios_base::left; auto pad=[&](long k){ while(k-->0) if(o.rdbuf()->sputc(o.fill())==EOF){ o.setstate(std::ios_base::badbit); return; } };
    if(!left&&w>n) pad(w-n); if(o.rdbuf()->sputn(b,n)!=n) o.setstate(std::ios_base::badbit); if(left&&w>n) pad(w-n); o.width(0); } return o; }
std::ostream &putI(std::ostream&o,long v){ auto f=o.flags(); char b[80]; int n;
  if((f&std::ios_base::basefield)==std::ios_base::hex) n=snprintf(b,80,"%lx",v); else if((f&std::ios_base::basefield)==std::ios_base::oct) n=snprintf(b,80,"%lo",v);
  else { n=0; if((f&std::ios_base::showpos)&&v>=0) b[n++]='+'; n+=__symr_itext(v,b+n,direct(o)); } return putT(o,b,n); }
std::ostream &putU(std::ostream&o,unsigned long v){ auto f=o.flags(); char b[80]; int n;
  if((f&std::ios_base::basefield)==std::ios_base::hex) n=snprintf(b,80,"%lx",v); else if((f&std::ios_base::basefield)==std::ios_base::oct) n=snprintf(b,80,"%lo",v);
  else n=__symr_utext(v,b,direct(o)); return putT(o,b,n); }
std::ostream &putD(std::ostream&o,double v){ auto f=o.flags(); auto ff=f&std::ios_base::floatfield; char fmt[16]; int k=0; fmt[k++]='%'; if(f&std::ios_base::showpos) fmt[k++]='+'; if(f&std::ios_base::showpoint) fmt[k++]='#'; bool up=f&std::ios_base::uppercase; int kind;
  bool hexf=ff==(std::ios_base::fixed|std::ios_base::scientific);
  if(!hexf){ fmt[k++]='.'; fmt[k++]='*'; }
  if(ff==std::ios_base::fixed){ fmt[k++]=up?'F':'f'; kind=1; } else if(ff==std::ios_base::scientific){ fmt[k++]=up?'E':'e'; kind=2; } else if(hexf){ fmt[k++]=up?'A':'a'; kind=3; } else { fmt[k++]=up?'G':'g'; kind=0; } fmt[k]=0;
  if(hexf){ char bb[64]; int n=snprintf(bb,64,fmt,v); return putT(o,bb,n); }
  char b[1200]; if(f&(std::ios_base::showpos|std::ios_base::showpoint|std::ios_base::uppercase)) kind+=16; long n=__symr_dtext(v,b,1200,fmt,(int)o.precision(),kind,direct(o)); return putT(o,b,n); }
}
namespace std {
template<> template<> ostream &ostream::_M_insert(long v){ return putI(*this,v); }
template<> template<> ostream &ostream::_M_insert(unsigned long v){ return putU(*this,v); }
template<> template<> ostream &ostream::_M_insert(long long v){ return putI(*this,v); }
template<> template<> ostream &ostream::_M_insert(unsigned long long v){ return putU(*this,v); }
template<> template<> ostream &ostream::_M_insert(bool v){ if(flags()&ios_base::boolalpha) return putT(*this,v?"true":"false",v?4:5); return putI(*this,v?1:0); }
template<> template<> ostream &ostream::_M_insert(double v){ return putD(*this,v); }
template<> template<> ostream &ostream::_M_insert(long double v){ return putD(*this,(double)v); }
template<> template<> ostream &ostream::_M_insert(const void*v){ char b[40]; int n=snprintf(b,40,"%p",v); return putT(*this,b,n); }
}
namespace {
// formatted-input sentry with the white space test written out (the facet's table lookup would fix the characters' values)
struct Sen { bool ok; Sen(std::istream&i){ std::istream::sentry q(i,true); ok=bool(q); if(ok&&(i.flags()&std::ios_base::skipws)){ auto*sb=i.rdbuf(); int c=sb->sgetc(); while(c!=EOF&&(c==' '||(c>=9&&c<=13))) c=sb->snextc(); if(c==EOF){ i.setstate(std::ios_base::eofbit|std::ios_base::failbit); ok=false; } } } operator bool()const{ return ok; } };
// accumulate the characters of a numeral the way num_get does (C locale, no grouping), decimal only
int accInt(std::istream&i,char*b,int cap){ auto*sb=i.rdbuf(); int n=0; int c=sb->sgetc(); if(c=='-'||c=='+'){ b[n++]=(char)c; c=sb->snextc(); } while(c!=EOF){ if(!(c>='0'&&c<='9')) break; if(n<cap-1) b[n++]=(char)c; c=sb->snextc(); } b[n]=0; if(c==EOF) i.setstate(std::ios_base::eofbit); return n; }
struct Area : std::streambuf { static char*g(std::streambuf*s){ return (s->*&Area::gptr)(); } static char*e(std::streambuf*s){ return (s->*&Area::egptr)(); } };
int accFlt(std::istream&i,char*b,int cap){ auto*sb=i.rdbuf(); int n=0; int c=sb->sgetc(); bool dot=false,ex=false,dig=false;
  if(c!=EOF){ char*g=Area::g(sb); long k=g?__symr_rrun(g,Area::e(sb)-g):0; if(k>0&&k<cap){ while(n<k) b[n++]=(char)sb->sbumpc(); c=sb->sgetc(); dot=dig=true; } }
  if(n==0&&(c=='-'||c=='+')){ b[n++]=(char)c; c=sb->snextc(); }
  while(c!=EOF){ if(c>='0'&&c<='9') dig=true; else if(c=='.'&&!dot&&!ex) dot=true; else if((c=='e'||c=='E')&&!ex&&dig){ ex=true; if(n<cap-1) b[n++]=(char)c; c=sb->snextc(); if(c=='-'||c=='+'){ if(n<cap-1) b[n++]=(char)c; c=sb->snextc(); } continue; } else break; if(n<cap-1) b[n++]=(char)c; c=sb->snextc(); } b[n]=0; if(c==EOF) i.setstate(std::ios_base::eofbit); return n; }
template<class T> std::istream &getS(std::istream&i,T&v,long lo,long hi){ Sen s(i); if(s){ char b[128]; int n=accInt(i,b,128); char*e; errno=0; long r=strtol(b,&e,10); int er=errno; if(n==0||e==b||*e){ v=0; i.setstate(std::ios_base::failbit); } else if(er==ERANGE||r<lo||r>hi){ v=(er==ERANGE?(r<0):(r<lo))?(T)lo:(T)hi; i.setstate(std::ios_base::failbit); } else v=(T)r; } return i; }
template<class T> std::istream &getU(std::istream&i,T&v,unsigned long hi){ Sen s(i); if(s){ char b[128]; int n=accInt(i,b,128); char*e; errno=0; unsigned long r=strtoul(b,&e,10); int er=errno; if(n==0||e==b||*e){ v=0; i.setstate(std::ios_base::failbit); } else if(er==ERANGE||r>hi){ v=(T)hi; i.setstate(std::ios_base::failbit); } else v=(T)r; } return i; }
template<class T> std::istream &getD(std::istream&i,T&v){ Sen s(i); if(s){ char b[1400]; int n=accFlt(i,b,1400); char*e; errno=0; double r=strtod(b,&e); if(n==0||e==b||*e){ v=0; i.setstate(std::ios_base::failbit); } else if(r>std::numeric_limits<double>::max()||r<-std::numeric_limits<double>::max()){ v=r>0?std::numeric_limits<T>::max():-std::numeric_limits<T>::max(); i.setstate(std::ios_base::failbit); } else v=(T)r; } return i; }
}
namespace std {
template<> template<> istream &istream::_M_extract(long&v){ return getS(*this,v,LONG_MIN,LONG_MAX); }
template<> template<> istream &istream::_M_extract(long long&v){ return getS(*this,v,LONG_MIN,LONG_MAX); }
template<> template<> istream &istream::_M_extract(unsigned long&v){ return getU(*this,v,ULONG_MAX); }
template<> template<> istream &istream::_M_extract(unsigned long long&v){ return getU(*this,v,ULONG_MAX); }
template<> template<> istream &istream::_M_extract(unsigned int&v){ return getU(*this,v,UINT_MAX); }
template<> template<> istream &istream::_M_extract(unsigned short&v){ return getU(*this,v,USHRT_MAX); }
template<> template<> istream &istream::_M_extract(double&v){ return getD(*this,v); }
template<> template<> istream &istream::_M_extract(float&v){ return getD(*this,v); }
template<> template<> istream &istream::_M_extract(bool&v){ long x=0; getS(*this,x,0,1); v=x!=0; return *this; }
template<> istream &istream::operator>>(int&v){ return getS(*this,v,INT_MIN,INT_MAX); }
template<> istream &istream::operator>>(short&v){ return getS(*this,v,SHRT_MIN,SHRT_MAX); }
template<> istream &getline(istream&i,string&str,char delim){
  ios_base::iostate err=ios_base::goodbit; size_t ext=0; istream::sentry s(i,true);
  if(s){ str.erase(); auto*sb=i.rdbuf(); int c=sb->sgetc(); while(c!=EOF&&(char)c!=delim){ str.push_back((char)c); ext++; c=sb->snextc(); } if(c==EOF) err|=ios_base::eofbit; else { ext++; sb->sbumpc(); } }
  if(!ext) err|=ios_base::failbit; if(err) i.setstate(err); return i; }
template<> istream &operator>>(istream&i,string&str){
  ios_base::iostate err=ios_base::goodbit; size_t ext=0; Sen s(i);
  if(s){ str.erase(); long w=i.width(); size_t n=w>0?(size_t)w:str.max_size(); auto*sb=i.rdbuf(); int c=sb->sgetc(); while(ext<n&&c!=EOF&&!isspace((unsigned char)c)){ str.push_back((char)c); ext++; c=sb->snextc(); } if(ext<n&&c==EOF) err|=ios_base::eofbit; i.width(0); }
  if(!ext) err|=ios_base::failbit; if(err) i.setstate(err); return i; }
template<> istream &istream::ignore(streamsize n){
  if(n==1) return ignore(); _M_gcount=0; sentry s(*this,true); if(n>0&&s){ ios_base::iostate err=ios_base::goodbit; auto*sb=rdbuf(); long k=0; int c=sb->sgetc(); while(k<n){ if(c==EOF){ err|=ios_base::eofbit; break; } k++; _M_gcount++; c=k<n?sb->snextc():(sb->sbumpc(),0); } if(err) setstate(err); } return *this; }
}
// std::to_string
#define TS(T,mang,body) std::string ts_##mang(T v) asm("_ZNSt7__cxx119to_stringE" #mang); std::string ts_##mang(T v){ char b[400]; long n; body; return std::string(b,n); }
TS(int,i,n=__symr_itext(v,b,0)) TS(unsigned,j,n=__symr_utext(v,b,0)) TS(long,l,n=__symr_itext(v,b,0)) TS(unsigned long,m,n=__symr_utext(v,b,0)) TS(long long,x,n=__symr_itext(v,b,0)) TS(unsigned long long,y,n=__symr_utext(v,b,0))
TS(double,d,n=__symr_dtext(v,b,400,"%.*f",6,1,0)) TS(float,f,n=__symr_dtext((double)v,b,400,"%.*f",6,1,0))
