// drives the data layer: identifiers (h ...), counted references (t ...), containers (c ...),
// blocks and BOIO files (b ...).  One command per line, one JSON answer per command.
#include "vutil.h"
#include <DMI/HIID.h>
#include <DMI/CountedRef.h>
#include <DMI/Record.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include <DMI/NumArray.h>
#include <DMI/BlockSet.h>
#include <DMI/BOIO.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/Global-Registry.h>
#include "vexc.h"
using namespace DMI;
using namespace vu;
using std::string; using std::vector;

typedef Type2Type<Container> TC;

// ---------------------------------------------------------------------------------- identifiers
static const int NNAMES = 6;
static const char *NAMES[NNAMES] = { "a","b","c","d","e","long_name" };
static int NAMEID[NNAMES];
// an identifier is shown as a list of numbers: n>=0 index, -1 ? -2 * -3 / -4 : -5 empty -6 #,
// -10-k the k-th name, -100-x a literal "$litX"
static vector<int> show (const HIID &id)
{
  vector<int> v;
  for( size_t i=0;i<id.size();i++ )
  {
    int a = id[i].id();
    if( (a&0x7FFF0000) == 0x7FFF0000 && a>0 )
    {
      int len = a&0xFFFF, n=(len+3)/4;
      if( i+n >= id.size() ) { v.push_back(-998); break; }
      string s(reinterpret_cast<const char*>(&id[i+1]),len);
      int x = -899;
      if( s.size()>=3 && s.substr(0,3)=="lit" ) x = int(s.size())-3;
      v.push_back(-100-x);
      i += n;
      continue;
    }
    bool found=false;
    for( int k=0;k<NNAMES;k++ ) if( a==NAMEID[k] ) { v.push_back(-10-k); found=true; }
    if( !found ) v.push_back(a);
  }
  return v;
}
static string lit (int x) { string s="lit"; for( int k=0;k<x;k++ ) s += char('p'+k%3); return s; }
static HIID mk (const vector<int> &v)
{
  HIID id;
  for( size_t i=0;i<v.size();i++ )
  {
    if( v[i] <= -100 ) id.add(HIID("$"+lit(-100-v[i])));
    else if( v[i] <= -10 ) id.add(AtomicID(NAMEID[-10-v[i]]));
    else id.add(AtomicID(v[i]));
  }
  return id;
}
static HIID H[6];
static void cmdH (Line &l,const string &op,Obj &o)
{
  try {
    int extra = 0; bool hasx=false; string xs; bool hass=false;
    if( op=="hset" ) { int r=l.i(); H[r]=mk(l.iv()); }
    else if( op=="hcp" ) { int r=l.i(),q=l.i(); H[r]=H[q]; }
    else if( op=="hadd" ) { int r=l.i(),q=l.i(); H[r].add(H[q]); }
    else if( op=="hor" ) { int r=l.i(),q=l.i(),p=l.i(); H[r]=H[q]|H[p]; }
    else if( op=="hadd1" ) { int r=l.i(); vector<int> v(1,l.i()); H[r] |= mk(v)[0]; }
    else if( op=="hpushf" ) { int r=l.i(); vector<int> v(1,l.i()); int n=l.i(); H[r].push_front(mk(v)[0],n); }
    else if( op=="hpopf" ) { int r=l.i(),n=l.i(); H[r].pop_front(n); }
    else if( op=="hsub" ) { int r=l.i(),q=l.i(),a=l.i(),b=l.i(),n=H[q].size();
      if( n ) { a = (a%(2*n)+2*n)%(2*n)-n; b = (b%(2*n)+2*n)%(2*n)-n; H[r]=H[q].subId(a,b); } else H[r]=HIID();
      o.n("sa",a).n("sb",b); }
    else if( op=="hsplit" ) { int r=l.i(),q=l.i(); HIID x=H[q].splitAtSlash(); H[r]=x; }
    else if( op=="hlead" ) { extra=H[l.i()].popLeadIndex(); hasx=true; }
    else if( op=="htrail" ) { extra=H[l.i()].popTrailIndex(); hasx=true; }
    else if( op=="hslash" ) { extra=H[l.i()].popLeadSlashes(); hasx=true; }
    else if( op=="hfind" ) { extra=H[l.i()].findFirstSlash(); hasx=true; }
    else if( op=="hparse" )
    { // string given as pieces: -1000 stands for a separator ('.'), others as in show()
      int r=l.i(); int al=l.i(); int sep=l.i(); vector<int> v=l.iv(); string s;
      for( size_t i=0;i<v.size();i++ )
      {
        if( v[i]==-1000 ) s+= sep ? "_" : ".";
        else if( v[i]<=-100 ) s += (al ? "" : "$")+lit(-100-v[i]);
        else if( v[i]<=-10 ) { string n=NAMES[-10-v[i]]; if( (i&1) ) for(size_t k=0;k<n.size();k++) n[k]=toupper(n[k]); s+=n; }
        else if( v[i]==-1 ) s+="?"; else if( v[i]==-2 ) s+="*"; else if( v[i]==-3 ) s+="/";
        else if( v[i]==-4 ) s+=":"; else if( v[i]==-6 ) s+="#";
        else { char b[16]; snprintf(b,16,"%d",v[i]); s+=b; }
      }
      H[r] = HIID(s,bool(al),sep ? "_" : ".");
    }
    else if( op=="hstr" ) { int r=l.i(),q=l.i(); xs=H[q].toString(l.i()?'_':'.'); hass=true; H[r]=HIID(xs,false,"._"); }
    else if( op=="hpack" )
    { int r=l.i(),q=l.i(); vector<char> b(H[q].packSize()+8,'x'); size_t left=H[q].packSize();
      size_t n=H[q].pack(&b[0],left); extra=int(n)*10+int(left); hasx=true; HIID y(&b[0],int(n)); H[r]=y; }
    else if( op=="hrange" ) { int r=l.i(),q=l.i(); HIID x(H[q].begin(),H[q].end()); H[r]=x; }
    else Line::die("op");
    if( hasx ) o.n("x",extra);
    if( hass ) o.s("str",xs);
    o.s("err","");
  } catch( std::exception &e ) { o.s("err","exc"); }
  string r="[";
  for( int i=0;i<6;i++ ) r+=(i?",":"")+arr(show(H[i]));
  o.raw("regs",r+"]");
  // relations between the first two
  o.b("eq",H[0]==H[1]).b("ne",H[0]!=H[1]).b("lt",H[0]<H[1]).b("gt",H[1]<H[0]);
}
static void cmdMat (Line &l,Obj &o)
{
  int n=l.i(); vector<HIID> a; vector<vector<int> > v;
  for( int i=0;i<n;i++ ) { v.push_back(l.iv()); a.push_back(mk(v.back())); }
  string m="[",s="[",p="[",e="[",t="[";
  for( int i=0;i<n;i++ )
  {
    vector<int> vm,vs,vp,ve,vt;
    for( int j=0;j<n;j++ )
    {
      HIID x=a[j];    // a separate object, so that nothing is decided by address
      if( a[i].matches(x) ) vm.push_back(j+1);
      if( a[i].subsetOf(x) ) vs.push_back(j+1);
      if( a[i].prefixedBy(x) ) vp.push_back(j+1);
      if( a[i]==x ) ve.push_back(j+1);
      if( a[i]<x ) vt.push_back(j+1);
    }
    string c = i ? "," : "";
    m+=c+arr(vm); s+=c+arr(vs); p+=c+arr(vp); e+=c+arr(ve); t+=c+arr(vt);
  }
  o.raw("m",m+"]").raw("sub",s+"]").raw("pre",p+"]").raw("eq",e+"]").raw("lt",t+"]");
}

// ---------------------------------------------------------------------------------- references
static std::set<int> LIVE; static int NEXTID;
class Tgt : public CountedRefTarget
{
  public:
    int id,val; CountedRef<Tgt> child;
    explicit Tgt (int v) : id(NEXTID++),val(v) { LIVE.insert(id); }
    Tgt (const Tgt &o,int flags,int depth) : CountedRefTarget(o),id(NEXTID++),val(o.val)
    { LIVE.insert(id); child.copy(o.child,flags,depth); }
    ~Tgt () { LIVE.erase(id); }
    CountedRefTarget * clone (int flags,int depth) const { return new Tgt(*this,flags,depth); }
};
typedef CountedRef<Tgt> TRef;
static const int NR=4; static TRef *TR=0; static Tgt *EXT[3];
static int flagsOf (const string &s)
{ int f=0; for( size_t i=0;i<s.size();i++ ) switch( s[i] ) {
    case 'L': f|=DMI::LOCKED; break; case 'U': f|=DMI::UNLOCKED; break; case 'S': f|=DMI::SHARED; break;
    case 'C': f|=DMI::COW; break; case 'D': f|=DMI::DEEP; break; case 'R': f|=DMI::READONLY; break;
    case 'W': f|=DMI::WRITE; break; case 'E': f|=DMI::EXTERNAL; break; case 'A': f|=DMI::AUTOCLONE; break; 
    case 'N': f|=DMI::ANON; break; }
  return f; }
static void cmdT (Line &l,const string &op,Obj &o)
{
  o.s("err","");
  bool skip=false;
  try {
    if( op=="treset" )
    {
      if( TR ) delete [] TR;
      for( int i=0;i<3;i++ ) if( EXT[i] ) { delete EXT[i]; EXT[i]=0; }
      LIVE.clear(); NEXTID=1; TR=new TRef[NR];
      for( int i=0;i<3;i++ ) EXT[i]=new Tgt(100+i);
    }
    else if( op=="tnew" ) { int r=l.i(),v=l.i(); string f=l.s(); Tgt *t=new Tgt(v); 
                            try { TR[r].attach(t,flagsOf(f)); } catch( ... ) { if( !t->isTargetAttached() ) delete t; throw; } }
    else if( op=="text" ) { int r=l.i(),k=l.i(); TR[r].attach(EXT[k],flagsOf(l.s())); }
    else if( op=="tcext" ) { int r=l.i(),k=l.i(); TR[r].attach(const_cast<const Tgt*>(EXT[k]),flagsOf(l.s())); }
    else if( op=="tatt" ) { int r=l.i(),q=l.i(); const Tgt *t = TR[q].deref_p(); TR[r].attach(const_cast<Tgt*>(t),flagsOf(l.s())); }
    else if( op=="tcopy" ) { int r=l.i(),q=l.i(); string f=l.s(); TR[r].copy(TR[q],flagsOf(f),l.i()); }
    else if( op=="txfer" ) { int r=l.i(),q=l.i(); string f=l.s(); TR[r].xfer(TR[q],flagsOf(f),l.i()); }
    else if( op=="tassign" ) { int r=l.i(),q=l.i(); TR[r]=TR[q]; }
    else if( op=="tdet" ) { TR[l.i()].detach(); }
    else if( op=="tw" ) { int r=l.i(),v=l.i(); TR[r]().val=v; }
    else if( op=="tlock" ) TR[l.i()].lock();
    else if( op=="tunlock" ) TR[l.i()].unlock();
    else if( op=="tchg" ) { int r=l.i(); TR[r].change(flagsOf(l.s())); }
    else if( op=="tpriv" ) { int r=l.i(); string f=l.s(); o.b("did",TR[r].privatize(flagsOf(f),l.i())); }
    else if( op=="tsetc" )
    {
      int r=l.i(),q=l.i(); string f=l.s();
      if( TR[r].valid() && TR[q].valid() ) // no cycles
        for( const Tgt *p=TR[q].deref_p(); p; p = p->child.valid() ? p->child.deref_p() : 0 )
          if( p==TR[r].deref_p() ) skip=true;
      if( !skip ) TR[r]().child.copy(TR[q],flagsOf(f));
    }
    else if( op=="tclrc" ) { int r=l.i(); TR[r]().child.detach(); }
    else if( op=="tgetc" ) { int r=l.i(),q=l.i(); const Tgt &t=*TR[q]; TR[r].copy(t.child); }
    else if( op=="twc" ) { int r=l.i(),v=l.i(); Tgt &t=TR[r](); t.child().val=v; }
    else Line::die("op");
  } catch( std::exception &e ) { o=Obj(); o.s("err","exc"); }
  o.b("skip",skip);
  string s="[";
  for( int i=0;i<NR;i++ )
  {
    Obj x; const TRef &r=TR[i];
    x.b("ok",r.valid());
    if( r.valid() ) {
      const Tgt *t=r.deref_p();
      x.n("id",t->id).b("lk",r.isLocked()).b("w",r.isDirectlyWritable()).b("only",r.isOnlyRef()).b("anon",r.isAnonTarget());
      vector<int> ch; // values along the chain of children
      int guard=0;
      for( const Tgt *p=t; p && guard<6; guard++ ) { ch.push_back(p->val); p = p->child.valid() ? p->child.deref_p() : 0; }
      x.raw("ch",arr(ch));
    }
    s += (i?",":"")+x.str();
  }
  o.raw("regs",s+"]");
  vector<int> lv(LIVE.begin(),LIVE.end());
  o.raw("live",arr(lv));
  vector<int> ev; for( int i=0;i<3;i++ ) ev.push_back(EXT[i]->val);
  o.raw("ext",arr(ev));
}

// ---------------------------------------------------------------------------------- containers
static string leaf (double x) { char b[40]; snprintf(b,40,"%.12g",x); return b; }
static TypeId tidOf (const string &t)
{ if( t=="int" ) return Tpint; if( t=="double" ) return Tpdouble; if( t=="bool" ) return Tpbool; if( t=="string" ) return Tpstring;
  if( t=="dcomplex" ) return Tpdcomplex; if( t=="hiid" ) return TpDMIHIID; if( t=="float" ) return Tpfloat; Line::die("type"); return 0; }
static string tname (TypeId t)
{ if( t==Tpint ) return "int"; if( t==Tpdouble ) return "double"; if( t==Tpbool ) return "bool"; if( t==Tpstring ) return "string";
  if( t==Tpdcomplex ) return "dcomplex"; if( t==TpDMIHIID ) return "hiid"; if( t==Tpfloat ) return "float"; return "?"+t.toString(); }
static string val1 (TypeId t,const void *p)
{
  if( t==Tpint ) return leaf(*(const int*)p);
  if( t==Tpbool ) return *(const bool*)p ? "1" : "0";
  if( t==Tpdouble ) return leaf(*(const double*)p);
  if( t==Tpfloat ) return leaf(*(const float*)p);
  if( t==Tpstring ) return *(const string*)p;
  if( t==TpDMIHIID ) return ((const HIID*)p)->toString('.');
  if( t==Tpdcomplex ) { dcomplex c=*(const dcomplex*)p; string s=leaf(creal(c)); if( cimag(c)!=0 ) s+="+"+leaf(cimag(c))+"i"; return s; }
  return "?";
}
// reads a value given as text into a suitable holder
struct Any { int i; double d; float f; bool b; string s; HIID h; dcomplex c;
  const void * set (TypeId t,const string &x0)
  { string x = x0=="~" ? string() : x0;   // the empty string or identifier
    if( t==Tpint ) { i=atoi(x.c_str()); return &i; } if( t==Tpdouble ) { d=atof(x.c_str()); return &d; }
    if( t==Tpfloat ) { f=atof(x.c_str()); return &f; }
    if( t==Tpbool ) { b=atoi(x.c_str())!=0; return &b; } if( t==Tpstring ) { s=x; return &s; }
    if( t==TpDMIHIID ) { h=HIID(x); return &h; }
    c = make_dcomplex(atof(x.c_str()),0); return &c; } };
static TypeId arrElem (const NumArray &a) { return a.elementType(); }
template<class T,int N> static void dumpArr (const blitz::Array<T,N> &a,TypeId t,vector<int> &sh,vector<string> &v)
{
  for( int i=0;i<N;i++ ) sh.push_back(a.extent(i));
  // row-major order, whatever the storage
  blitz::TinyVector<int,N> ix; ix=0;
  int n=1; for( int i=0;i<N;i++ ) n*=a.extent(i);
  for( int k=0;k<n;k++ )
  {
    T x=a(ix); v.push_back(val1(t,&x));
    for( int d=N-1; d>=0; d-- ) { if( ++ix[d] < a.extent(d) ) break; ix[d]=0; }
  }
}
template<class T> static void dumpArrR (const void *p,int rank,TypeId t,vector<int> &sh,vector<string> &v)
{
  if( rank==1 ) dumpArr(*(const blitz::Array<T,1>*)p,t,sh,v);
  else if( rank==2 ) dumpArr(*(const blitz::Array<T,2>*)p,t,sh,v);
  else if( rank==3 ) dumpArr(*(const blitz::Array<T,3>*)p,t,sh,v);
}
static void dumpArrT (TypeId t,const void *p,int rank,vector<int> &sh,vector<string> &v)
{
  if( t==Tpint ) dumpArrR<int>(p,rank,t,sh,v); else if( t==Tpdouble ) dumpArrR<double>(p,rank,t,sh,v);
  else if( t==Tpstring ) dumpArrR<string>(p,rank,t,sh,v); else if( t==Tpdcomplex ) dumpArrR<dcomplex>(p,rank,t,sh,v);
  else if( t==Tpfloat ) dumpArrR<float>(p,rank,t,sh,v); else if( t==Tpbool ) dumpArrR<bool>(p,rank,t,sh,v);
}
static string dump (const BObj *p)
{
  if( !p ) return "{\"k\":\"nil\"}";
  Obj o;
  if( const Record *r = dynamic_cast<const Record*>(p) )
  {
    std::map<string,string> m; vector<string> prot;
    for( Record::const_iterator i=r->begin(); i!=r->end(); i++ )
    {
      string n=i.id().toString('.');
      m[n] = dump(i.ref().valid() ? i.ref().deref_p() : 0);
      if( i.isProtected() ) prot.push_back(n);
    }
    string f="[";
    for( std::map<string,string>::iterator i=m.begin(); i!=m.end(); ++i )
      f += string(f.size()>1?",":"")+"["+q(i->first)+","+i->second+"]";
    std::sort(prot.begin(),prot.end());
    o.s("k","rec").raw("f",f+"]").raw("p",sarr(prot));
    if( r->size() != int(m.size()) ) o.n("badsize",r->size());
  }
  else if( const List *r = dynamic_cast<const List*>(p) )
  {
    string f="[";
    for( List::const_iterator i=r->begin(); i!=r->end(); ++i )
      f += string(f.size()>1?",":"")+dump(i->valid() ? i->deref_p() : 0);
    o.s("k","list").raw("l",f+"]");
  }
  else if( const NumArray *r = dynamic_cast<const NumArray*>(p) )
  {
    vector<int> sh; vector<string> v;
    if( r->valid() )
    {
      TypeId t=arrElem(*r);
      dumpArrT(t,r->getConstArrayPtr(t,r->rank()),r->rank(),sh,v);
      o.s("k","arr").s("t",tname(t));
      // the declared shape, and the elements as laid out in memory, agree with the array
      vector<int> s2; for( int i=0;i<r->rank();i++ ) s2.push_back(r->shape()[i]);
      if( s2!=sh ) o.raw("badshape",arr(s2));
    }
    else o.s("k","arr").s("t","none");
    o.raw("sh",arr(sh)).raw("v",sarr(v));
  }
  else if( const Vec *r = dynamic_cast<const Vec*>(p) )
  {
    if( !r->valid() ) return "{\"k\":\"nov\"}";
    TypeId t=r->type(); vector<string> v;
    if( TypeInfo::isDynamic(t) )
    {
      string f="[";
      for( int i=0;i<r->mysize();i++ ) { ObjRef x=r->getObj(i); f += string(i?",":"")+dump(x.valid()?x.deref_p():0); }
      o.s("k","ovec").raw("o",f+"]");
      return o.str();
    }
    for( int i=0;i<r->mysize();i++ )
    {
      Container::ContentInfo info; info.tid=0;
      r->Container::get(AtomicID(i),info,0);
      v.push_back(val1(t,info.ptr));
    }
    o.s("k",r->isScalar()?"sc":"vec").s("t",tname(t)).raw("v",sarr(v));
  }
  else o.s("k","obj").s("t",p->objectType().toString());
  return o.str();
}
template<class T> static void fillArr (BObj *p,TypeId t,const vector<string> &v)
{
  // fills in storage order, which is row-major for freshly created arrays
  NumArray *a = static_cast<NumArray*>(p);
  T *d = static_cast<T*>(a->getDataPtr());
  for( size_t i=0;i<v.size();i++ ) { Any x; d[i] = *static_cast<const T*>(x.set(t,v[i])); }
}
static BObj * build (Line &l)
{
  string k=l.s();
  if( k=="sc" || k=="vec" )
  {
    string t=l.s(); TypeId tid=tidOf(t);
    vector<string> v = k=="sc" ? vector<string>(1,l.s()) : l.sv();
    Vec *p = new Vec(tid,k=="sc"?-1:int(v.size()));
    for( size_t i=0;i<v.size();i++ )
    {
      Any a; const void *d=a.set(tid,v[i]);
      Container::ContentInfo info; info.tid=0;
      p->Container::get(AtomicID(int(i)),info,DMI::WRITE|DMI::ASSIGN);
      void *to=const_cast<void*>(info.ptr);
      if( tid==Tpstring ) *(string*)to=*(const string*)d; else if( tid==TpDMIHIID ) *(HIID*)to=*(const HIID*)d;
      else memcpy(to,d,TypeInfo::find(tid).size);
    }
    return p;
  }
  if( k=="arr" )
  {
    string t=l.s(); TypeId tid=tidOf(t); vector<int> sh=l.iv(); vector<string> v=l.sv();
    LoShape s(LoShape::SETRANK|int(sh.size())); for( size_t i=0;i<sh.size();i++ ) s[i]=sh[i];
    NumArray *p=new NumArray(tid,s);
    if( tid==Tpint ) fillArr<int>(p,tid,v); else if( tid==Tpdouble ) fillArr<double>(p,tid,v);
    else if( tid==Tpstring ) fillArr<string>(p,tid,v); else if( tid==Tpdcomplex ) fillArr<dcomplex>(p,tid,v);
    else if( tid==Tpfloat ) fillArr<float>(p,tid,v); else if( tid==Tpbool ) fillArr<bool>(p,tid,v);
    return p;
  }
  if( k=="rec" )
  {
    Record *p=new Record; int n=l.i();
    for( int i=0;i<n;i++ ) { string f=l.s(); BObj *b=build(l); if( b ) p->add(HIID(f),b); }
    return p;
  }
  if( k=="list" )
  {
    List *p=new List; int n=l.i();
    for( int i=0;i<n;i++ ) p->addBack(build(l));
    return p;
  }
  if( k=="ovec" )
  {
    int n=l.i(); Vec *p = new Vec(TpDMIRecord,n);
    for( int i=0;i<n;i++ ) p->put(i,build(l));
    return p;
  }
  Line::die("kind"); return 0;
}
static const int NC=5; static ObjRef *R=0;
static BlockSet BS[2];
static string DIR;
static BOIO *IO=0;
static long FT[5];
static string path (Line &l) { return l.s(); }
static HIID pid (const string &s) { return s=="-" ? HIID() : HIID(s); }
static string allRegs ()
{ string s="["; for( int i=0;i<NC;i++ ) s+=string(i?",":"")+dump(R[i].valid()?R[i].deref_p():0); return s+"]"; }

static void setScalar (const Container::Hook &h,TypeId t,const string &x)
{
  Any a; a.set(t,x);
  if( t==Tpint ) h=a.i; else if( t==Tpdouble ) h=a.d; else if( t==Tpbool ) h=a.b; else if( t==Tpstring ) h=a.s;
  else if( t==TpDMIHIID ) h=a.h; else if( t==Tpfloat ) h=a.f; else h=a.c;
}
static string getScalar (const Container::Hook &h,TypeId t)
{
  if( t==Tpint ) { int x=h; return val1(t,&x); } 
  if( t==Tpdouble ) { double x=h; return val1(t,&x); }
  if( t==Tpfloat ) { float x=h; return val1(t,&x); }
  if( t==Tpbool ) { bool x=h; return val1(t,&x); }
  if( t==Tpstring ) { string x=h.as<string>(); return x; }
  if( t==TpDMIHIID ) { HIID x=h.as<HIID>(); return val1(t,&x); }
  dcomplex x=h.as<dcomplex>(); return val1(t,&x);
}
static int QRY=0;      // ask the hook something first
static void query (const Container::Hook &h) { if( QRY==1 ) h.exists(); else if( QRY==2 ) h.type(); else if( QRY==3 ) h.size(); }
#define HOOK(r,p) Container::Hook hook(R[r].ref_cast(TC()),pid(p)); query(hook)
#define CHOOK(r,p) Container::Hook hook(const_cast<const ObjRef&>(R[r]).ref_cast(TC()),pid(p))
static void cmdC (Line &l,const string &op,Obj &o)
{
  string err;
  try {
    if( op=="cq" ) QRY=l.i();
    else if( op=="creset" ) { if( R ) delete [] R; R=new ObjRef[NC]; BS[0].clear(); BS[1].clear(); if( IO ) { delete IO; IO=0; } unlink((DIR+"/f.boio").c_str()); for( int i=0;i<5;i++ ) FT[i]=0; }
    else if( op=="cnew" ) { int r=l.i(); BObj *b=build(l); R[r].detach(); R[r].attach(b); }
    else if( op=="ccp" ) { int r=l.i(),q=l.i(); R[r]=R[q]; }
    else if( op=="cdeep" ) { int r=l.i(),q=l.i(); R[r].copy(R[q],DMI::DEEP); }
    else if( op=="cpriv" ) { int r=l.i(); R[r].privatize(0,l.i()); }
    else if( op=="cmv" ) { int r=l.i(),q=l.i(); R[r].xfer(R[q]); }
    else if( op=="cdet" ) R[l.i()].detach();
    else if( op=="cset" || op=="csetr" )
    { int r=l.i(); string p=path(l); TypeId t=tidOf(l.s()); string x=l.s(); HOOK(r,p); if( op=="csetr" ) hook.replace(); setScalar(hook,t,x); }
    else if( op=="csetw" || op=="csetwp" )    // through a writable reference to the container that holds the element
    { int r=l.i(); string p=path(l); string q=path(l); TypeId t=tidOf(l.s()); string x=l.s(); HOOK(r,p);
      Container &c = op=="csetw" ? hook.as_wr<Container>() : *hook.as_wp<Container>();
      Container::Hook h2(c,pid(q)); setScalar(h2,t,x); }
    else if( op=="cget" )
    { int r=l.i(); string p=path(l); TypeId t=tidOf(l.s()); CHOOK(r,p); o.s("x",getScalar(hook,t)); }
    else if( op=="cgetnc" )   // through a non-const hook: reading must not disturb anything
    { int r=l.i(); string p=path(l); TypeId t=tidOf(l.s()); HOOK(r,p); o.s("x",getScalar(hook,t)); }
    else if( op=="cput" || op=="cputr" )
    { int r=l.i(); string p=path(l); int q=l.i(); int x=l.i(); HOOK(r,p); if( op=="cputr" ) hook.replace(); hook.put(R[q],x?DMI::XFER:0); }
    else if( op=="ctake" ) { int r=l.i(),q=l.i(); string p=path(l); ObjRef x; { CHOOK(q,p); x=hook.ref(); } R[r]=x; }
    else if( op=="ctakenc" ) { int r=l.i(),q=l.i(); string p=path(l); ObjRef x; { HOOK(q,p); x=hook.ref(); } R[r]=x; }
    else if( op=="crem" )
    { int r=l.i(),q=l.i(); string p=path(l); ObjRef x; { HOOK(q,p); x=hook.remove(); } R[r]=x; }
    else if( op=="cexists" ) { int r=l.i(); string p=path(l); CHOOK(r,p); o.b("x",hook.exists()); }
    else if( op=="csize" ) { int r=l.i(); string p=path(l); CHOOK(r,p); o.n("x",hook.size()); }
    // --- records
    else if( op=="radd" ) { int r=l.i(); string n=l.s(); int q=l.i(); string f=l.s(); int fl=0;
      if( f.find('R')!=string::npos ) fl|=DMI::REPLACE; if( f.find('P')!=string::npos ) fl|=Record::PROTECT;
      if( f.find('H')!=string::npos ) fl|=Record::HONOR_PROTECT; if( f.find('X')!=string::npos ) fl|=DMI::XFER;
      if( f.find('I')!=string::npos ) R[r].as<Record>().insert(HIID(n),R[q],fl);
      else if( f.find('Q')!=string::npos ) R[r].as<Record>().replace(HIID(n),R[q],fl);
      else R[r].as<Record>().add(HIID(n),R[q],fl); }
    else if( op=="rdel" ) { int r=l.i(),q=l.i(); string n=l.s(); int ig=l.i(); ObjRef x=R[q].as<Record>().removeField(HIID(n),ig); R[r]=x; }
    else if( op=="rprot" ) { int r=l.i(); string n=l.s(); R[r].as<Record>().protectField(HIID(n),l.i()); }
    else if( op=="rmerge" ) { int r=l.i(),q=l.i(); int ov=l.i(); ObjRef x=R[q]; R[r].as<Record>().merge(x.as<Record>(),ov); }
    else if( op=="rhas" ) { int r=l.i(); string n=l.s(); const ObjRef &c=R[r]; o.b("x",c.as<Record>().hasField(HIID(n))); }
    else if( op=="rget" ) { int r=l.i(),q=l.i(); string n=l.s(); int ig=l.i(); const ObjRef &c=R[q]; ObjRef x=c.as<Record>().get(HIID(n),ig); R[r]=x; }
    else if( op=="rclear" ) R[l.i()].as<Record>().clear();
    else if( op=="rnth" )   // all fields by number
    {
      int r=l.i(); const ObjRef &c=R[r]; const Record &rec=c.as<Record>(); int n=rec.size(); vector<string> v; 
      for( int i=0;i<n;i++ )
      { Container::ContentInfo info; info.tid=0;
        HIID id(AidHash); id.add(AtomicID(i));
        if( rec.Container::get(id,info,0)!=1 ) { v.push_back("none"); continue; }
        const ObjRef &x=*static_cast<const ObjRef*>(info.ptr);
        string nm="?"; for( Record::const_iterator it=rec.begin(); it!=rec.end(); it++ ) if( &it.ref()==&x ) nm=it.id().toString('.');
        v.push_back(nm); }
      std::sort(v.begin(),v.end()); o.raw("x",sarr(v));
    }
    // --- lists
    else if( op=="lput" ) { int r=l.i(),n=l.i(),q=l.i(); R[r].as<List>().insert(n,R[q]); }
    else if( op=="lfront" ) { int r=l.i(),q=l.i(); R[r].as<List>().addFront(R[q]); }
    else if( op=="lback" ) { int r=l.i(),q=l.i(); R[r].as<List>().addBack(R[q]); }
    else if( op=="lrep" ) { int r=l.i(),n=l.i(),q=l.i(); R[r].as<List>().replace(n,R[q]); }
    else if( op=="lrem" ) { int r=l.i(),q=l.i(),n=l.i(); ObjRef x=R[q].as<List>().remove(n); R[r]=x; }
    else if( op=="lget" ) { int r=l.i(),q=l.i(),n=l.i(); const ObjRef &c=R[q]; ObjRef x=c.as<List>().get(n); R[r]=x; }
    else if( op=="lapp" ) { int r=l.i(),q=l.i(); ObjRef x=R[q]; R[r].as<List>().append(x.as<List>()); }
    // --- vectors
    else if( op=="vsize" )  // new numbers are unspecified until set: set them to zero
    { int r=l.i(); int n=l.i(); Vec &v = R[r].as<Vec>(); int was=v.size(); v.resize(n); TypeId t=v.type();
      for( int i=was; i<n; i++ )
      { if( t==Tpbool ) v[HIID(AtomicID(i))] = false; else if( t==Tpint ) v[HIID(AtomicID(i))] = 0;
        else if( t==Tpfloat ) v[HIID(AtomicID(i))] = float(0); else if( t==Tpdouble ) v[HIID(AtomicID(i))] = double(0);
        else if( t==Tpdcomplex ) v[HIID(AtomicID(i))] = dcomplex(0); } }
    else if( op=="vput" ) { int r=l.i(),n=l.i(),q=l.i(); R[r].as<Vec>().put(n,R[q]); }
    // --- arrays: read or fill a slice
    else if( op=="aslice" )
    { int r=l.i(); string id=l.s(); const ObjRef &c=R[r]; const NumArray &a=c.as<NumArray>();
      Container::ContentInfo info; info.tid=0; info.size=0;
      int k=a.Container::get(HIID(id),info,0); vector<int> sh; vector<string> v; 
      if( k==1 && TypeInfo::isArray(info.tid) ) dumpArrT(a.elementType(),info.ptr,TypeInfo::rankOfArray(info.tid),sh,v);
      else if( k==1 ) v.push_back(val1(a.elementType(),info.ptr));
      o.n("got",k).raw("sh",arr(sh)).raw("v",sarr(v)); }
    else if( op=="afill" )    // every element of the slice gets the value
    { int r=l.i(); string id=l.s(); string x=l.s(); NumArray &a=R[r].as<NumArray>();
      TypeId t=a.elementType(); Any an; an.set(t,x);
      Container::ContentInfo info; info.tid=0; info.size=0;
      a.Container::get(HIID(id),info,DMI::WRITE);
      if( TypeInfo::isArray(info.tid) ) { int rk=TypeInfo::rankOfArray(info.tid); void *p=const_cast<void*>(info.ptr);
#define FILL(T,F) { if( rk==1 ) *(blitz::Array<T,1>*)p = an.F; else if( rk==2 ) *(blitz::Array<T,2>*)p = an.F; else *(blitz::Array<T,3>*)p = an.F; }
        if( t==Tpint ) FILL(int,i) else if( t==Tpfloat ) FILL(float,f) else if( t==Tpbool ) FILL(bool,b) else if( t==Tpdouble ) FILL(double,d) else if( t==Tpstring ) FILL(string,s) else if( t==Tpdcomplex ) FILL(dcomplex,c) }
      else { void *p=const_cast<void*>(info.ptr);
        if( t==Tpint ) *(int*)p=an.i; else if( t==Tpfloat ) *(float*)p=an.f; else if( t==Tpbool ) *(bool*)p=an.b; else if( t==Tpdouble ) *(double*)p=an.d; else if( t==Tpstring ) *(string*)p=an.s; else *(dcomplex*)p=an.c; } }
    // --- blocks
    else if( op=="bto" ) { int b=l.i(),r=l.i(); BS[b].clear(); int n=R[r]->toBlock(BS[b]); o.n("x",n).n("n",BS[b].size()); }
    else if( op=="bapp" ) { int b=l.i(),r=l.i(); int n0=BS[b].size(); int n=R[r]->toBlock(BS[b]); o.n("x",n).n("n",BS[b].size()-n0); }
    else if( op=="bcp" ) { int b=l.i(); BS[1-b].copyAll(BS[b]); }
    else if( op=="bpush" ) { int b=l.i(); BS[b].pushCopy(BS[1-b]); }
    else if( op=="bpriv" ) { BS[l.i()].privatizeAll(DMI::DEEP); }
    else if( op=="bfrom" ) { int r=l.i(),b=l.i(); ObjRef x=DynamicTypeManager::construct(0,BS[b]); R[r].detach(); R[r]=x; o.n("n",BS[b].size()); }
    else if( op=="rt" )    // round trip through a private copy of the blocks
    { int r=l.i(),q=l.i(); BlockSet s,s2; R[q]->toBlock(s); if( l.i() ) { s.copyAll(s2,DMI::DEEP); s.clear(); } else s2=s;
      ObjRef x=DynamicTypeManager::construct(0,s2); o.n("n",s2.size()); R[r].detach(); R[r]=x; }
    else if( op=="fopen" ) { string m=l.s(); if( IO ) { delete IO; IO=0; } IO=new BOIO(DIR+"/f.boio",m=="r"?BOIO::READ:m=="w"?BOIO::WRITE:BOIO::APPEND); }
    else if( op=="fclose" ) { if( IO ) { delete IO; IO=0; } }
    else if( op=="fwrite" ) { if( !IO ) throw std::runtime_error("closed"); int r=l.i(); (*IO) << R[r]; }
    else if( op=="fread" ) { if( !IO ) throw std::runtime_error("closed"); int r=l.i(); ObjRef x; TypeId t=IO->readAny(x); o.b("x",t.id()!=0); if( t.id() ) { R[r].detach(); R[r]=x; o.b("tid",x->objectType()==t); } }
    else if( op=="fnext" ) { if( !IO ) throw std::runtime_error("closed"); o.b("x",IO->nextType().id()!=0); }
    else if( op=="frewind" ) { if( !IO ) throw std::runtime_error("closed"); IO->rewind(); }
    else if( op=="fmark" ) { int k=l.i(); if( !IO ) throw std::runtime_error("closed"); FT[k]=IO->ftell(); }
    else if( op=="fseek" ) { int k=l.i(); if( !IO ) throw std::runtime_error("closed"); IO->fseek(FT[k]); }
    else if( op=="ftrunc" )    // cut the last n bytes of the file
    { int n=l.i(); string f=DIR+"/f.boio"; FILE *p=fopen(f.c_str(),"rb"); if( !p ) throw std::runtime_error("no file"); fseek(p,0,SEEK_END); long sz=ftell(p); fclose(p);
      long k = n*sz/1000; if( k>=sz ) k=sz-1; if( k<0 ) k=0; if( truncate(f.c_str(),k) ) Line::die("trunc"); o.n("sz",sz).n("cut",k); }
    else if( op=="cdump" ) ;
    else Line::die("op");
  } catch( std::exception &e ) { err="exc"; if( getenv("VH_MSG") ) fprintf(stderr,"%s\n",excstr(e).c_str()); }
  o.s("err",err);
}

int main ()
{
  for( int k=0;k<NNAMES;k++ )
  {
    NAMEID[k] = -900000-k;
    string n(NAMES[k]); for( size_t i=0;i<n.size();i++ ) if( n[i]=='_' ) n[i]='x';
  }
  NAMES[5]="longxname";
  for( int k=0;k<NNAMES;k++ )
  {
    int a;
    if( AtomicID::findName(a,NAMES[k]) ) NAMEID[k]=a; else AtomicID::registerId(NAMEID[k],NAMES[k]);
  }
  char d[]="./dmiXXXXXX"; DIR = mkdtemp(d);
  R=new ObjRef[NC]; TR=new TRef[NR]; NEXTID=1; for( int i=0;i<3;i++ ) EXT[i]=new Tgt(100+i);
  string s;
  while( std::getline(std::cin,s) )
  {
    Line l(s); if( !l.more() ) continue;
    string op=l.s(); Obj o;
    if( op=="names" ) { vector<string> v(NAMES,NAMES+NNAMES); out(o.raw("names",sarr(v))); continue; }
    if( op=="hmat" ) { cmdMat(l,o); out(o); continue; }
    if( op[0]=='h' ) { cmdH(l,op,o); out(o); continue; }
    if( op[0]=='t' ) { cmdT(l,op,o); out(o); continue; }
    bool nodump = op[op.size()-1]=='!'; if( nodump ) op=op.substr(0,op.size()-1);
    cmdC(l,op,o);
    if( !nodump ) { try { o.raw("regs",allRegs()); } catch( std::exception &e ) { o.s("dumperr",excstr(e)); } }
    out(o);
  }
  return 0;
}
