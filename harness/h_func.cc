// Drives the arithmetic of sampled functions (MEQ/src/Vells.*, VellsSlicer*) and real function, reduction and
// tensor nodes (MEQ/src/Function.cc, MeqNodes/src) over source nodes whose results a script gives.
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/Request.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
#include <MEQ/VellsSlicer.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include <cmath>
#include "vutil.h"
#include "vexc.h"
#include <MeqNodes/Abs.h>
#include <MeqNodes/Add.h>
#include <MeqNodes/Composer.h>
#include <MeqNodes/Conj.h>
#include <MeqNodes/Divide.h>
#include <MeqNodes/Identity.h>
#include <MeqNodes/Imag.h>
#include <MeqNodes/MatrixMultiply.h>
#include <MeqNodes/Max.h>
#include <MeqNodes/Mean.h>
#include <MeqNodes/MergeFlags.h>
#include <MeqNodes/Min.h>
#include <MeqNodes/Multiply.h>
#include <MeqNodes/NElements.h>
#include <MeqNodes/Negate.h>
#include <MeqNodes/Paster.h>
#include <MeqNodes/Pow2.h>
#include <MeqNodes/Product.h>
#include <MeqNodes/Real.h>
#include <MeqNodes/ReplaceFlaggedValues.h>
#include <MeqNodes/Rms.h>
#include <MeqNodes/Selector.h>
#include <MeqNodes/Sqr.h>
#include <MeqNodes/StdDev.h>
#include <MeqNodes/Stripper.h>
#include <MeqNodes/Subtract.h>
#include <MeqNodes/Sum.h>
#include <MeqNodes/ToComplex.h>
#include <MeqNodes/Transpose.h>
#include <MeqNodes/WMean.h>
#include <MeqNodes/WSum.h>
#include <MeqNodes/ZeroFlagger.h>
#include <MeqNodes/AID-MeqNodes.h>

using namespace Meq;
using namespace vu;
using std::string; using std::vector;

// ------------------------------------------------------------------ values in and out
static Vells mkvells (Line &l)      // <r|c|f> <rank> <dims> <values; complex ones as pairs>
{
  string t = l.s();
  LoShape sh; vector<int> d = l.iv();
  sh.resize(d.size());
  int n = 1;
  for( size_t i=0;i<d.size();i++ ) { sh[i] = d[i]; n *= d[i]; }
  if( t=="f" )
  {
    Vells v(sh,VellsFlagType(0),true);
    for( int i=0;i<n;i++ ) v.begin<VellsFlagType>()[i] = l.i();
    return v;
  }
  if( t=="c" )
  {
    Vells v(make_dcomplex(0,0),sh,true);
    for( int i=0;i<n;i++ ) { double a=l.d(), b=l.d(); v.begin<dcomplex>()[i] = make_dcomplex(a,b); }
    return v;
  }
  Vells v(0.,sh,true);
  for( int i=0;i<n;i++ ) v.begin<double>()[i] = l.d();
  return v;
}
static long fix (double x)
{ return !(fabs(x) < 1e6) ? 2000000000L : lround(x*1000); }
static string show (const Vells &v)
{
  if( !v.valid() ) return "{\"t\":\"r\",\"sh\":[1],\"v\":[0]}";
  Obj o;
  vector<int> sh;
  for( int i=0;i<v.rank();i++ ) sh.push_back(v.shape()[i]);
  int n = v.nelements();
  vector<long> a,b;
  if( v.isFlags() )
    for( int i=0;i<n;i++ ) a.push_back(v.begin<VellsFlagType>()[i]&255);
  else if( v.isReal() )
    for( int i=0;i<n;i++ ) a.push_back(fix(v.begin<double>()[i]));
  else if( v.isComplex() )
    for( int i=0;i<n;i++ ) { dcomplex z=v.begin<dcomplex>()[i]; a.push_back(fix(creal(z))); b.push_back(fix(cimag(z))); }
  o.s("t",v.isFlags()?"f":v.isReal()?"r":v.isComplex()?"c":"?").raw("sh",arr(sh)).raw("v",arr(a));
  if( v.isComplex() ) o.raw("w",arr(b));
  return o.str();
}
static string showset (const VellSet &vs)
{
  Obj o;
  if( vs.isFail() )
  {
    std::set<int> f;
    for( int j=0;j<vs.numFails();j++ )
    {
      string m = vs.getFailMessage(j);
      if( getenv("VDEBUG") ) fprintf(stderr,"%s\n",m.c_str());
      f.insert(m.size()>1 && m[0]=='F' && isdigit(m[1]) ? atoi(m.c_str()+1) : 0);
    }
    return o.s("k","fail").raw("f",arr(f)).str();
  }
  if( !vs.hasValue() )
    return o.s("k","empty").str();
  o.s("k","val").raw("v",show(vs.getValue()));
  if( vs.hasDataFlags() ) o.raw("fl",show(vs.dataFlags()));
  vector<int> sp;
  for( int i=0;i<vs.numSpids();i++ ) sp.push_back(vs.getSpid(i));
  string p="[",pv="[";
  for( int i=0;i<vs.numSpids();i++ )
  {
    string a="[",b="[";
    for( int s=0;s<vs.numPertSets();s++ )
    {
      if( s ) { a+=","; b+=","; }
      a += num(lround(vs.getPerturbation(i,s))); b += show(vs.getPerturbedValue(i,s));
    }
    if( i ) { p+=","; pv+=","; }
    p += a+"]"; pv += b+"]";
  }
  return o.raw("sp",arr(sp)).raw("p",p+"]").raw("pv",pv+"]").str();
}
static string showres (const Result::Ref &r)
{
  Obj o;
  vector<int> d; string v="[";
  if( r.valid() )
  {
    for( uint i=0;i<r->dims().size();i++ ) d.push_back(r->dims()[i]);
    for( int i=0;i<r->numVellSets();i++ ) { if( i ) v+=","; v += showset(r->vellSet(i)); }
  }
  return o.raw("dims",arr(d)).raw("vs",v+"]").str();
}

// ------------------------------------------------------------------ source nodes
static const int AidSrc = -29001;
struct Given { int code; Result::Ref res; };
static std::map<int,Given> given;

class SrcNode : public Node
{
  public:
    virtual TypeId objectType () const { return TypeId(AidSrc); }
  protected:
    virtual int getResult (Result::Ref &resref,const vector<Result::Ref> &,const Request &req,bool)
    {
      Given &g = given[nodeIndex()];
      resref = g.res;
      return g.code;
    }
};
template<class T> static DMI::BObj * construct (int n) { return n>0 ? new T[n] : new T; }
static void reg (int id,const char *name,DMI::BObj * (*f)(int))
{
  if( DynamicTypeManager::isRegistered(id) ) return;     // linked with all of the nodes
  AtomicID::registerId(id,name);
  TypeInfoReg::addToRegistry(id,TypeInfo(TypeInfo::DYNAMIC,0));
  DynamicTypeManager::addToRegistry(id,f);
}
static void setup ()
{
  reg(AidSrc,"VSrc",construct<SrcNode>);
#define C(x) reg(TpMeq##x.id(),"Meq" #x,construct<x>);
  C(Abs) C(Add) C(Composer) C(Conj) C(Divide) C(Identity) C(Imag) C(MatrixMultiply) C(Max) C(Mean) C(MergeFlags) C(Min)
  C(Multiply) C(NElements) C(Negate) C(Paster) C(Pow2) C(Product) C(Real) C(ReplaceFlaggedValues) C(Rms) C(Selector)
  C(Sqr) C(StdDev) C(Stripper) C(Subtract) C(Sum) C(ToComplex) C(Transpose) C(WMean) C(WSum) C(ZeroFlagger)
#undef C
  AtomicID::registerId(AidEQ.id(),"EQ"); AtomicID::registerId(AidNE.id(),"NE"); AtomicID::registerId(AidLT.id(),"LT");
  AtomicID::registerId(AidGT.id(),"GT"); AtomicID::registerId(AidLE.id(),"LE"); AtomicID::registerId(AidGE.id(),"GE");
}

static void readset (VellSet &vs,Line &l)  // f <ids> | e | v <vells> <flags|-> <spids> <npert> {<perturbation> <vells>}
{
  string k = l.s();
  if( k=="e" ) return;
  if( k=="f" )
  {
    vector<int> f = l.iv();
    DMI::ExceptionList el;
    for( size_t i=0;i<f.size();i++ )
      el.add(LOFAR::Exception("F"+num(f[i])));
    vs.addFail(ObjRef(el.makeList()));
    return;
  }
  Vells v = mkvells(l);
  string f = l.s();
  Vells fl;
  if( f=="+" ) fl = mkvells(l);
  vector<int> sp = l.iv();
  int np = l.i();
  if( !sp.empty() )
  {
    vs.setNumPertSets(np);
    vs.setSpids(sp);
  }
  vs.setValue(v);
  for( size_t i=0;i<sp.size();i++ )
    for( int s=0;s<np;s++ )
    {
      vs.setPerturbation(i,l.i(),s);
      vs.setPerturbedValue(i,mkvells(l),s);
    }
  if( f=="+" ) { Vells::Ref fr; fr <<= new Vells(fl); vs.setDataFlags(fr); }
}

static vector<int> ints (const string &v)
{
  vector<int> r; std::istringstream is(v); string t;
  while( std::getline(is,t,',') ) r.push_back(atoi(t.c_str()));
  return r;
}
static void option (DMI::Record &r,const string &k,const string &v)
{
  vector<int> iv = ints(v);
  if( k=="fm" ) r[FFlagMask] <<= new DMI::Vec(Tpint,iv.size(),&iv[0]);
  else if( k=="axes" ) r[AidReduction|AidAxes] <<= new DMI::Vec(Tpint,iv.size(),&iv[0]);
  else if( k=="w" )
  {
    vector<double> d(iv.begin(),iv.end());
    r[FWeights] <<= new DMI::Vec(Tpdouble,d.size(),&d[0]);
  }
  else if( k=="conj" ) r[AidConj] = bool(iv[0]);
  else if( k=="tensor" ) r[AidTensor] = bool(iv[0]);
  else if( k=="multi" ) r[AidMulti] = bool(iv[0]);
  else if( k=="index" ) r[FIndex] <<= new DMI::Vec(Tpint,iv.size(),&iv[0]);
  else if( k=="dims" ) r[FDims] <<= new DMI::Vec(Tpint,iv.size(),&iv[0]);
  else if( k=="all" ) r[AidMerge|AidAll] = bool(iv[0]);
  else if( k=="oper" ) r[AidOper] = v;
  else if( k=="bit" ) r[AidFlag|AidBit] = iv[0];
  else if( k=="force" ) r[AidForce|AidOutput] = bool(iv[0]);
  else if( k=="value" ) r[FValue] = double(iv[0]);
  else Line::die(("unknown option "+k).c_str());
}

static string evaluate (Line &l)
{
  given.clear();
  Forest forest;
  vector<int> shape = l.iv();
  Domain::Ref dom; dom <<= new Domain;
  for( size_t i=0;i<shape.size();i++ ) dom().defineAxis(i,0,1);
  Cells::Ref cells; cells <<= new Cells(*dom);
  for( size_t i=0;i<shape.size();i++ ) cells().setCells(i,0.,1.,shape[i]);
  int n = l.i();
  vector<bool> isfn(n+1);
  string err;
  for( int k=1;k<=n;k++ )
  {
    string what = l.s();
    DMI::Record::Ref rec; DMI::Record &r = rec <<= new DMI::Record;
    r[FName] = "n"+num(k);
    r[FNodeIndex] = k;
    if( what=="S" )
    {
      r[FClass] = string("VSrc");
      Given &g = given[k];
      string code = l.s();
      g.code = code=="F" ? int(NodeFace::RES_FAIL) : code=="M" ? int(NodeFace::RES_MISSING) : 0;
      vector<int> dims = l.iv();
      int nvs = l.i();
      Result *res;
      if( dims.empty() ) g.res <<= res = new Result(nvs);
      else { LoShape d; d.resize(dims.size()); for( size_t i=0;i<dims.size();i++ ) d[i]=dims[i]; g.res <<= res = new Result(d); }
      for( int i=0;i<nvs;i++ ) readset(res->setNewVellSet(i,0,0),l);
      res->setCells(*cells);
    }
    else
    {
      isfn[k] = true;
      r[FClass] = what;
      int no = l.i();
      for( int i=0;i<no;i++ )
      {
        string o = l.s(); size_t p = o.find('=');
        option(r,o.substr(0,p),o.substr(p+1));
      }
      vector<int> ch = l.iv();
      if( !ch.empty() ) r[FChildren] <<= new DMI::Vec(Tpint,ch.size(),&ch[0]);
    }
    int ni;
    try { forest.create(ni,rec); } catch( std::exception &e ) { err = excstr(e); }
  }
  if( !err.empty() ) return Obj().s("bad",err).str();
  forest.initAll();
  if( forest.numInitErrors() ) return Obj().s("bad","init").str();
  Request::Ref rref; Request &req = rref <<= new Request;
  HIID id(1); id[0] = RequestType::EVAL;
  id = id|AtomicID(1)|AtomicID(1)|AtomicID(1)|AtomicID(1);
  req.setId(id);
  req.setCells(*cells);
  vector<Result::Ref> res(n+1);
  vector<string> first(n+1);
  string r = "[";
  for( int k=1;k<=n;k++ )
  {
    int code = 0;
    string x;
    try { code = forest.get(k).execute(res[k],req,0); }
    catch( std::exception &e ) { x = excstr(e); }
    first[k] = showres(res[k]);
    if( k>1 ) r += ",";
    Obj o;
    if( !x.empty() ) o.s("exc",x);
    r += o.b("fail",code&NodeFace::RES_FAIL).b("miss",code&NodeFace::RES_MISSING).raw("r",first[k]).str();
  }
  vector<int> changed;      // results that what came after changed
  for( int k=1;k<=n;k++ )
    if( showres(res[k]) != first[k] || ( given.count(k) && showres(given[k].res) != first[k] ) ) changed.push_back(k);
  return Obj().raw("res",r+"]").raw("changed",arr(changed)).str();
}

// ------------------------------------------------------------------ arithmetic
static Vells rdv (Line &l)         // <vells> <-|+ flags>
{
  Vells v = mkvells(l);
  if( l.s()=="+" ) { Vells::Ref f; f <<= new Vells(mkvells(l)); v.setDataFlags(f); }
  return v;
}
static string both (const Vells &v)
{ return v.valid() && v.hasDataFlags() ? show(v)+","+show(v.dataFlags()) : show(v); }

static string arith (Line &l)
{
  using namespace VellsMath;
  string op = l.s();
  Vells a = rdv(l);
  Vells b, c;
  bool same = false, bin = false;
  string k = l.s();
  if( k=="2" ) { b = rdv(l); bin = true; }
  else if( k=="=" ) { same = true; bin = true; }
  string a0 = both(a), b0 = bin && !same ? both(b) : "";
  const Vells &B = same ? a : b;
  if( op=="+" ) c = a+B;
  else if( op=="-" ) c = a-B;
  else if( op=="*" ) c = a*B;
  else if( op=="/" ) c = a/B;
  else if( op=="|" ) c = a|B;
  else if( op=="&" ) c = a&B;
  else if( op=="^" ) c = a^B;
  else if( op[op.size()-1]=='=' )
  {
    c = a;
    Vells d(a);
    Vells &t = op[0]=='.' ? d : c;      // on a copy made by assignment or by the copy constructor
    string o = op[0]=='.' ? op.substr(1) : op;
    if( o=="+=" ) t += B;
    else if( o=="-=" ) t -= B;
    else if( o=="*=" ) t *= B;
    else if( o=="/=" ) t /= B;
    else if( o=="|=" ) t |= B;
    else if( o=="&=" ) t &= B;
    else if( o=="^=" ) t ^= B;
    else Line::die("op");
    c = t;
  }
  else if( op=="scalar" )  // flags with a plain number
  {
    string o = l.s(); int x = l.i();
    c = a;
    if( o=="|" ) c = a|x; else if( o=="&" ) c = a&x; else if( o=="^" ) c = a^x;
    else if( o=="|=" ) c |= x; else if( o=="&=" ) c &= x; else c ^= x;
  }
  else if( op=="neg" ) c = -a;
  else if( op=="not" ) c = ~a;
  else if( op=="conj" ) c = conj(a);
  else if( op=="real" ) c = real(a);
  else if( op=="imag" ) c = imag(a);
  else if( op=="norm" ) c = norm(a);
  else if( op=="abs" ) c = abs(a);
  else if( op=="fabs" ) c = fabs(a);
  else if( op=="sqr" ) c = sqr(a);
  else if( op=="pow2" ) c = pow2(a);
  else if( op=="pow3" ) c = pow3(a);
  else if( op=="pow4" ) c = pow4(a);
  else if( op=="pow5" ) c = pow5(a);
  else if( op=="floor" ) c = floor(a);
  else if( op=="ceil" ) c = ceil(a);
  else if( op=="tocomplex" ) c = tocomplex(a,B);
  else if( op=="min2" || op=="max2" )
  { int fa=l.i(), fb=l.i(); c = op=="min2" ? VellsMath::min(a,B,fa,fb) : VellsMath::max(a,B,fa,fb); }
  else if( op=="min" ) c = VellsMath::min(a,l.i());
  else if( op=="max" ) c = VellsMath::max(a,l.i());
  else if( op=="mean" ) c = mean(a,l.i());
  else if( op=="sum" || op=="product" || op=="nelements" )
  {
    int fm = l.i(); vector<int> d = l.iv();
    LoShape sh; sh.resize(d.size()); for( size_t i=0;i<d.size();i++ ) sh[i]=d[i];
    c = op=="sum" ? sum(a,sh,fm) : op=="product" ? product(a,sh,fm) : nelements(a,sh,fm);
  }
  else if( op=="where" )
  { int x=l.i(), e=l.i(), n=l.i(); int r = a.whereEq(c,double(x),e,n); return Obj().raw("c",show(c)).n("r",r).str(); }
  else if( op=="replace" )
  { int x=l.i(), fm=l.i(); c = Vells(a,DMI::DEEP); c.clearDataFlags(); if( c.isComplex() ) c.replaceFlaggedValues(B,make_dcomplex(x,0),fm); else c.replaceFlaggedValues(B,double(x),fm); }
  else if( op=="merge" )     // merge b's flags under a mask into a's
  {
    int fm = l.i();
    Vells::Ref ra, rb; ra <<= new Vells(a); rb <<= new Vells(b);
    Vells::mergeFlags(ra,*rb,fm);
    c = *ra;
  }
  else if( op=="slice" )     // all the slices along these axes, one after another
  {
    vector<int> ax = l.iv();
    ConstVellsSlicer0 s(a,&ax[0],ax.size());
    string r="["; int cnt=0;
    for( ; s.valid() && cnt<100; s.incr(),cnt++ ) { if( cnt ) r+=","; Vells v = s.vells(); Vells w(v,DMI::DEEP); r += show(w); }
    vector<int> ns; for( uint i=0;i<s.nonSlicedShape().size();i++ ) ns.push_back(s.nonSlicedShape()[i]);
    return Obj().raw("sl",r+"]").raw("ns",arr(ns)).str();
  }
  else Line::die(("unknown operation "+op).c_str());
  vector<int> changed;
  if( both(a) != a0 ) changed.push_back(1);
  if( bin && !same && both(b) != b0 ) changed.push_back(2);
  return Obj().raw("c",show(c)).raw("changed",arr(changed)).str();
}

int main ()
{
  setup();
  string s;
  while( std::getline(std::cin,s) )
  {
    if( s.empty() ) continue;
    Line l(s);
    string c = l.s();
    try
    {
      if( c=="reset" ) out("{}");
      else if( c=="op" ) out(arith(l));
      else if( c=="eval" ) out(evaluate(l));
      else Line::die("unknown command");
    }
    catch( std::exception &e ) { out(Obj().s("exc",excstr(e))); }
    catch( ... ) { out(Obj().s("exc","?")); }
  }
  fflush(stdout);
  _exit(0);
}
