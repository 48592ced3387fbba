// Drives the real Meq::Cells and Meq::Domain: sampling grids, their segments, combinations, resampling, records.
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/BlockSet.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/NumArray.h>
#include "vutil.h"
#include "vexc.h"
using namespace Meq;
using namespace vu;
using std::string; using std::vector;

static const int NS = 4;
static Cells::Ref S[NS];
static const double SCALE = 4096;

static long fix (double x)       // all values used are multiples of 1/4096
{ double y = x*SCALE; return fabs(y) < 1e9 && y == floor(y) ? long(y) : -999999999; }
template<class A> static string farr (const A &a,long n=-1)
{
  string r = "[";
  if( n<0 ) n = a.size();
  for( int i=0;i<n;i++ ) { if( i ) r += ","; r += num(fix(a(i))); }
  return r+"]";
}
static string iarr (const LoVec_int &a)
{
  string r = "[";
  for( int i=0;i<a.size();i++ ) { if( i ) r += ","; r += num(a(i)); }
  return r+"]";
}
static string showdom (const Domain &d)
{
  string r = "[";
  for( int i=0;i<Axis::MaxAxis;i++ )
    if( d.isDefined(i) )
      r += (r.size()>1?",":"")+string("[")+num(i)+","+num(fix(d.start(i)))+","+num(fix(d.end(i)))+"]";
  return r+"]";
}
// does the record say the same as the accessors
static bool samerec (const Cells &c)
{
  const DMI::Record &rec = c;
  bool any_ = false;
  for( int i=0;i<Axis::MaxAxis;i++ )
    if( c.isDefined(i) )
    {
      any_ = true;
      HIID ax = Axis::axisId(i);
      int n;
      const double *p = rec[FGrid].as<DMI::Record>()[ax].as_p<double>(n);
      if( n != c.ncells(i) ) return false;
      for( int k=0;k<n;k++ ) if( p[k] != c.center(i)(k) ) return false;
      p = rec[FCellSize].as<DMI::Record>()[ax].as_p<double>(n);
      if( n != c.ncells(i) ) return false;
      for( int k=0;k<n;k++ ) if( p[k] != c.cellSize(i)(k) ) return false;
      const DMI::Record &sg = rec[FSegments].as<DMI::Record>()[ax].as<DMI::Record>();
      const int *q = sg[FStartIndex].as_p<int>(n);
      if( n != c.numSegments(i) ) return false;
      for( int k=0;k<n;k++ ) if( q[k] != c.segmentStart(i)(k) ) return false;
      q = sg[FEndIndex].as_p<int>(n);
      if( n != c.numSegments(i) ) return false;
      for( int k=0;k<n;k++ ) if( q[k] != c.segmentEnd(i)(k) ) return false;
    }
  return true;
}
static bool hasdom (const Cells &c)
{ try { c.domain(); return true; } catch( std::exception & ) { return false; } }
static string show (const Cells::Ref &ref)
{
  if( !ref.valid() ) return Obj().b("valid",false).str();
  const Cells &c = *ref;
  string ax = "[";
  for( int i=0;i<Axis::MaxAxis;i++ )
    if( c.isDefined(i) )
    {
      LoVec_double s,e;
      c.getCellStartEnd(s,e,i);
      bool ok = c.center(i).size() == c.ncells(i) && c.cellSize(i).size() == c.ncells(i) && c.shape()[i] == c.ncells(i) && s.size() == c.ncells(i) && e.size() == c.ncells(i);
      if( ok ) ok = all(s == c.cellStart(i)) && all(e == c.cellEnd(i));
      ax += (ax.size()>1?",":"")+Obj().n("a",i).n("n",c.ncells(i)).b("ok",ok).raw("c",farr(c.center(i))).raw("h",farr(c.cellSize(i)))
            .raw("s",farr(s)).raw("e",farr(e)).raw("g0",iarr(c.segmentStart(i))).raw("g1",iarr(c.segmentEnd(i))).str();
    }
  bool hd = hasdom(c);
  bool ones = true;
  for( int i=0;i<c.rank();i++ ) if( !c.isDefined(i) && c.shape()[i] != 1 ) ones = false;
  return Obj().b("valid",true).b("has",hd).raw("dom",hd?showdom(c.domain()):"[]").raw("ax",ax+"]").b("rec",samerec(c)).b("ones",ones).str();
}
static LoVec_double dv (Line &l)
{ int n=l.i(); LoVec_double v(n); for( int i=0;i<n;i++ ) v(i)=l.d(); return v; }

static DMI::Record * plain (const Cells &c)     // the same content as an ordinary record
{
  const DMI::Record &r = c;
  DMI::Record *p = new DMI::Record;
  const HIID f[] = { FDomain,FGrid,FCellSize,FSegments };
  for( int i=0;i<4;i++ )
    if( r[f[i]].exists() )
    {
      ObjRef ref = r[f[i]].ref();
      (*p)[f[i]].replace() <<= ref;
    }
  return p;
}
static Domain mkdom (Line &l)
{
  Domain d;
  int n = l.i();
  for( int i=0;i<n;i++ ) { int a=l.i(); double x=l.d(),y=l.d(); d.defineAxis(a,x,y); }
  return d;
}

static string command (Line &l,const string &op)
{
  if( op=="dom" ) { Domain d = mkdom(l),e = mkdom(l);
    Domain x(d); x.expandToEnvelope(e);
    return Obj().raw("d",showdom(d)).raw("env",showdom(Domain::envelope(d,e))).raw("exp",showdom(x)).b("sup",d.supersetOfProj(e)).b("eq",d==e).b("ne",d!=e).str(); }
  if( op=="cmp" ) { int a=l.i(),b=l.i(); int c = S[a]->compare(*S[b]);
    bool e = *S[a] == *S[b];
    return Obj().n("c",c<0?-1:c>0?1:0).b("eq",e).b("ne",*S[a]!=*S[b]).str(); }
  int d = l.i();
  if( op=="show" ) return show(S[d]);
  if( op=="empty" ) S[d] <<= new Cells;
  else if( op=="new" ) { Domain dom = mkdom(l); int nx=l.i(),ny=l.i(); S[d] <<= new Cells(dom,nx,ny); }
  else if( op=="only" ) { Domain dom = mkdom(l); S[d] <<= new Cells(dom); }
  else if( op=="set" ) { int a=l.i(); LoVec_double c=dv(l),h=dv(l); S[d]().setCells(a,c,h); }
  else if( op=="setu" ) { int a=l.i(); LoVec_double c=dv(l); double h=l.d(); S[d]().setCells(a,c,h); }
  else if( op=="reg" ) { int a=l.i(); double x=l.d(),y=l.d(); int n=l.i(); double h=l.d(); S[d]().setCells(a,x,y,n,h); }
  else if( op=="enum" ) { int a=l.i(); int n=l.i(); S[d]().setEnumCells(a,n); }
  else if( op=="seg" ) { int a=l.i(); S[d]().recomputeSegments(a); }
  else if( op=="redom" ) S[d]().recomputeDomain();
  else if( op=="sup" ) { int a=l.i(),b=l.i(); Cells::Ref r; Cells::superset(r,*S[a],*S[b]); S[d] = r; }
  else if( op=="ops" ) { int a=l.i(); int o[Axis::MaxAxis],g[Axis::MaxAxis];
    for( int i=0;i<Axis::MaxAxis;i++ ) { o[i]=Cells::NONE; g[i]=0; }
    int n=l.i(); for( int i=0;i<n;i++ ) { int x=l.i(); string t=l.s(); o[x] = t=="int"?Cells::INTEGRATE:t=="up"?Cells::UPSAMPLE:t=="n"?Cells::SET_NCELLS:Cells::NONE; g[x]=l.i(); }
    S[d] <<= new Cells(*S[a],o,g); }
  else if( op=="two" ) { int a=l.i(),b=l.i(),r=l.i(); S[d] <<= new Cells(*S[a],*S[b],r); }
  else if( op=="clone" ) { int a=l.i(); int deep=l.i(); Cells *p = static_cast<Cells*>(S[a]->clone(deep?DMI::DEEP:0,deep?-1:0)); S[d] <<= p; }
  else if( op=="ref" ) { int a=l.i(); Cells::Ref r; r.copy(S[a]); S[d] = r; }
  else if( op=="rec" ) { int a=l.i(); DMI::Record::Ref r(plain(*S[a])); S[d] <<= new Cells(*r,0,0); }
  else if( op=="send" ) { int a=l.i(); BlockSet s; S[a]->toBlock(s); ObjRef x = DynamicTypeManager::construct(0,s); Cells::Ref y; y = x.ref_cast<Cells>(); S[d] = y; }
  else if( op=="bad" )
  {
    // a record that is not a grid; must be refused
    int a=l.i(); string how=l.s();
    DMI::Record::Ref r(plain(*S[a]));
    DMI::Record::Ref x;
    HIID ax;
    for( int i=0;i<Axis::MaxAxis;i++ ) if( S[a]->isDefined(i) ) ax = Axis::axisId(i);
    if( how=="nodom" ) r().removeField(FDomain);
    else if( how=="axis" ) r()[FDomain].replace() <<= new Domain;
    else if( how=="size" ) { x <<= new DMI::Record(r[FCellSize].as<DMI::Record>(),0,0); int n = x[ax].size(Tpdouble); x()[ax].replace() <<= new DMI::NumArray(Tpdouble,LoShape(n+1)); r()[FCellSize].replace() <<= x; }
    else if( how=="nosize" ) { x <<= new DMI::Record(r[FCellSize].as<DMI::Record>(),0,0); x().removeField(ax); r()[FCellSize].replace() <<= x; }
    else if( how=="noseg" ) { x <<= new DMI::Record(r[FSegments].as<DMI::Record>(),0,0); x().removeField(ax); r()[FSegments].replace() <<= x; }
    else if( how=="seg" ) { x <<= new DMI::Record(r[FSegments].as<DMI::Record>(),DMI::DEEP,-1);
      DMI::Record::Ref y(new DMI::Record(x[ax].as<DMI::Record>(),0,0)); int n = y[FEndIndex].size(Tpint); y()[FEndIndex].replace() <<= new DMI::NumArray(Tpint,LoShape(n+1));
      x()[ax].replace() <<= y; r()[FSegments].replace() <<= x; }
    else Line::die("how");
    S[d] <<= new Cells(*r,0,0);
  }
  else Line::die("unknown command");
  return show(S[d]);
}

int main ()
{
  string s;
  while( std::getline(std::cin,s) )
  {
    if( s.empty() ) continue;
    Line l(s);
    string c = l.s();
    if( c=="reset" ) { for( int i=0;i<NS;i++ ) S[i].detach(); out("{}"); continue; }
    try { out(command(l,c)); }
    catch( std::exception &e ) { out(Obj().s("exc",excstr(e))); }
    catch( ... ) { out(Obj().s("exc","?")); }
  }
  return 0;
}
