// small helpers shared by the harnesses: line-based commands in, one JSON object per command out
#ifndef VUTIL_H
#define VUTIL_H
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>

namespace vu {

struct Line
{
  std::istringstream in;
  explicit Line (const std::string &s) : in(s) {}
  bool more () { in >> std::ws; return in.good() && in.peek() != EOF; }
  int i () { int x; if( !(in>>x) ) die("int expected"); return x; }
  double d () { double x; if( !(in>>x) ) die("double expected"); return x; }
  std::string s () { std::string x; if( !(in>>x) ) die("string expected"); return x; }
  std::vector<int> iv () { int n=i(); std::vector<int> v(n); for(int k=0;k<n;k++) v[k]=i(); return v; }
  std::vector<std::string> sv () { int n=i(); std::vector<std::string> v(n); for(int k=0;k<n;k++) v[k]=s(); return v; }
  static void die (const char *m) { fprintf(stderr,"harness: bad script: %s\n",m); _exit(97); }
};

inline std::string q (const std::string &s)
{
  std::string r="\"";
  for( size_t i=0;i<s.size();i++ )
  {
    unsigned char c=s[i];
    if( c=='"' || c=='\\' ) { r+='\\'; r+=c; }
    else if( c<32 || c>126 ) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; }
    else r+=c;
  }
  return r+"\"";
}
inline std::string num (long x) { std::ostringstream o; o<<x; return o.str(); }
template<class V> std::string arr (const V &v)
{
  std::string r="[";
  for( typename V::const_iterator i=v.begin(); i!=v.end(); ++i )
  { if( r.size()>1 ) r+=","; r+=num(*i); }
  return r+"]";
}
template<class V> std::string sarr (const V &v)
{
  std::string r="[";
  for( typename V::const_iterator i=v.begin(); i!=v.end(); ++i )
  { if( r.size()>1 ) r+=","; r+=q(*i); }
  return r+"]";
}
inline std::string bits (int mask,int n)
{
  std::vector<int> v;
  for( int b=0;b<n;b++ ) if( mask&(1<<b) ) v.push_back(b);
  return arr(v);
}
struct Obj
{
  std::string r; Obj():r("{"){}
  Obj & raw (const char *k,const std::string &v) { if( r.size()>1 ) r+=","; r+=q(k)+":"+v; return *this; }
  Obj & n (const char *k,long v) { return raw(k,num(v)); }
  Obj & s (const char *k,const std::string &v) { return raw(k,q(v)); }
  Obj & b (const char *k,bool v) { return raw(k,v?"true":"false"); }
  std::string str () const { return r+"}"; }
};
inline void out (const std::string &s) { std::string t=s+"\n"; fwrite(t.data(),1,t.size(),stdout); fflush(stdout); }
inline void out (const Obj &o) { out(o.str()); }
}
#endif
