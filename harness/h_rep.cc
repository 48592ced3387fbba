// Drives the real Meq::Forest (repository of nodes, forest state, breakpoints) and the state records and
// execution control of real Meq::Node objects; also the request id functions.
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/Request.h>
#include <MEQ/Rider.h>
#include <MEQ/RequestId.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Cells.h>
#include <MEQ/MTPool.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include "vutil.h"
#include "vexc.h"

using namespace Meq;
using namespace vu;

static const int AidR0 = -29101, AidR1 = -29102;
static const HIID *FVV,*FVFail,*FVBad;
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  g_cv = PTHREAD_COND_INITIALIZER;
static std::vector<int> g_log;
static std::set<int> g_gates,g_inside;

class RNode : public Node
{
  public:
    RNode (int nch=-1,const HIID *labels=0,int nmand=-1) : Node(nch,labels,nmand) { v=fail=0; }
    virtual TypeId objectType () const { return TypeId(AidR0); }
    int v,fail;
  protected:
    virtual void setStateImpl (DMI::Record::Ref &rec,bool initializing)
    {
      Node::setStateImpl(rec,initializing);
      rec[*FVV].get(v,initializing);
      rec[*FVFail].get(fail,initializing);
      int bad = 0;
      if( rec[*FVBad].get(bad) && bad )
        Throw("bad value");
    }
    virtual int getResult (Result::Ref &resref,const std::vector<Result::Ref> &,const Request &,bool)
    {
      pthread_mutex_lock(&g_mx);
      g_log.push_back(nodeIndex());
      g_inside.insert(nodeIndex());
      pthread_cond_broadcast(&g_cv);
      while( g_gates.count(nodeIndex()) ) pthread_cond_wait(&g_cv,&g_mx);
      pthread_mutex_unlock(&g_mx);
      Result &res = resref <<= new Result(1);
      VellSet &vs = res.setNewVellSet(0);
      if( fail )
      {
        if( fail==2 ) throw LOFAR::Exception("thrown");
        vs.addFail(LOFAR::Exception("failed"));
        return RES_FAIL;
      }
      vs.setValue(Vells(double(v)));
      return 0;
    }
};
class RLab : public RNode
{
  public:
    static const HIID * labels () { static HIID l[2] = { HIID("VX"),HIID("VY") }; return l; }
    RLab () : RNode(2,labels(),1) { disableAutoResample(); }
    virtual TypeId objectType () const { return TypeId(AidR1); }
};

static DMI::BObj * constructR0 (int n) { return n>0 ? new RNode[n] : new RNode; }
static DMI::BObj * constructR1 (int n) { return n>0 ? new RLab[n] : new RLab; }
static const HIID & regField (int &next,const char *name)
{
  AtomicID::registerId(next--,name);
  return *new HIID(name);
}
static void setup ()
{
  AtomicID::registerId(AidR0,"RNode"); AtomicID::registerId(AidR1,"RLab");
  TypeInfoReg::addToRegistry(AidR0,TypeInfo(TypeInfo::DYNAMIC,0));
  TypeInfoReg::addToRegistry(AidR1,TypeInfo(TypeInfo::DYNAMIC,0));
  DynamicTypeManager::addToRegistry(AidR0,constructR0);
  DynamicTypeManager::addToRegistry(AidR1,constructR1);
  int n = -29110;
  const char *extra[] = { "GrA","GrB","VX","VY","VZ",0 };
  for( int k=0;extra[k];k++ ) AtomicID::registerId(n--,extra[k]);
  FVV = &regField(n,"VV"); FVFail = &regField(n,"VFail"); FVBad = &regField(n,"VBad");
}

static std::vector<std::string> split (const std::string &v,char c)
{
  std::vector<std::string> r; std::istringstream is(v); std::string t;
  while( std::getline(is,t,c) ) r.push_back(t);
  return r;
}
static int mask (const std::string &v)   // "b" or "b0,1,4": a set of bits
{
  int m=0;
  std::vector<std::string> x = split(v.substr(1),',');
  for( uint i=0;i<x.size();i++ ) m |= 1<<atoi(x[i].c_str());
  return m;
}
static AtomicID policyAid (int p)
{ return p==0 ? AidIgnore : p==1 ? AidAbandonPropagate : AidCollectPropagate; }
static int policyNum (const HIID &h)
{ return h==HIID(AidIgnore) ? 0 : h==HIID(AidAbandonPropagate) ? 1 : h==HIID(AidCollectPropagate) ? 2 : 9; }

// node state fields
static void setField (DMI::Record &rec,const std::string &key,const std::string &val)
{
  int iv = atoi(val.c_str());
  bool bad = val=="bad";    // a value of the wrong type
#define FLD(k,f,x) else if( key==k ) { if( bad ) rec[f] = std::string("notanumber"); else rec[f] = x; }
  if( 0 ) ;
  FLD("v",*FVV,iv)
  FLD("fail",*FVFail,iv)
  FLD("vbad",*FVBad,iv)
  FLD("cs",FControlStatus,iv)
  FLD("pub",FPublishingLevel,iv)
  FLD("bp",FBreakpoint,mask(val))
  FLD("ss",FBreakpointSingleShot,mask(val))
  FLD("cpol",FCachePolicy,iv)
  FLD("lpol",FLogPolicy,iv)
  FLD("dep",FDependMask,iv)
  FLD("nact",FCacheNumActiveParents,iv)
  FLD("ars",FAutoResample,iv)
  FLD("name",FName,val)
  FLD("nodeindex",FNodeIndex,iv)
  FLD("class",FClass,val)
  FLD("children",FChildren,iv)
  FLD("stepchildren",FStepChildren,iv)
  FLD("childindices",FChildIndices,iv)
  FLD("stepchildindices",FStepChildIndices,iv)
  FLD("parentindices",FParentIndices,iv)
  FLD("isstepparent",FIsStepParent,iv)
  FLD("initindex",FInternalInitIndex,iv)
  else if( key=="desc" ) { if( bad ) rec[FNodeDescription] = 1; else rec[FNodeDescription] = val; }
  else if( key=="fpol" ) { if( bad ) rec[FFailPolicy] = HIID("A.B"); else rec[FFailPolicy] = HIID(policyAid(iv)); }
  else if( key=="mpol" ) { if( bad ) rec[FMissingDataPolicy] = HIID("A.B"); else rec[FMissingDataPolicy] = HIID(policyAid(iv)); }
  else if( key=="order" ) { std::vector<std::string> v = split(val,','); rec[FChildPollOrder] = v; }
  else if( key=="mt" ) rec[FMTPolling] = bool(iv);
  else if( key=="asd" )
  {
    if( bad ) { rec[FActiveSymDeps] = 1; return; }
    std::vector<std::string> v = split(val,',');
    std::vector<HIID> g; for( uint i=0;i<v.size();i++ ) g.push_back(HIID(v[i]));
    rec[FActiveSymDeps] = g;
  }
  else if( key=="groups" )
  {
    std::vector<std::string> v = split(val,',');
    std::vector<HIID> g; for( uint i=0;i<v.size();i++ ) g.push_back(HIID(v[i]));
    rec[FNodeGroups] = g;
  }
  else Line::die(("unknown field "+key).c_str());
}
static void setFields (DMI::Record &rec,Line &l)
{
  while( l.more() )
  {
    std::string kv = l.s();
    size_t p = kv.find('=');
    if( p==std::string::npos ) Line::die("key=value expected");
    setField(rec,kv.substr(0,p),kv.substr(p+1));
  }
}
static void setForestField (DMI::Record &rec,const std::string &key,const std::string &val)
{
  int iv = atoi(val.c_str());
  bool bad = val=="bad";
  if( 0 ) ;
  FLD("cp",FCachePolicy,iv)
  FLD("lp",FLogPolicy,iv)
  FLD("prof",AidProfiling|AidEnabled,bool(iv))
  FLD("bp",FBreakpoint,mask(val))
  FLD("ss",FBreakpointSingleShot,mask(val))
  else Line::die("unknown forest field");
}

static Forest *forest = 0;
static std::vector<std::string> g_names;
static int g_errs = 0;

static std::string repo ()
{
  DMI::Record::Ref rr; DMI::Record &r = rr <<= new DMI::Record;
  int n = forest->getNodeList(r,Forest::NL_NODEINDEX|Forest::NL_NAME|Forest::NL_CLASS);
  std::string list = "[";
  for( int k=0;k<n;k++ )
  {
    if( k ) list += ",";
    int ni = r[AidNodeIndex][k].as<int>();
    std::string nm = r[AidName][k].as<std::string>(), cl = r[AidClass][k].as<std::string>();
    NodeFace &nf = forest->get(ni);
    if( nf.nodeIndex()!=ni || nf.name()!=nm || nf.objectType().toString()!=cl ) list += q("inconsistent")+",";
    list += "["+num(ni)+","+q(nm)+","+q(cl)+"]";
  }
  list += "]";
  std::string find = "[";
  for( uint k=0;k<g_names.size();k++ )
  {
    if( k ) find += ",";
    int fi = forest->findIndex(g_names[k]); bool ok = true;
    try { ok = forest->findNode(g_names[k]).nodeIndex()==fi; } catch( std::exception & ) { ok = fi<0; }
    find += num(ok?fi:-99);
  }
  find += "]";
  std::vector<int> valid;
  for( int k=-2;k<=forest->maxNodeIndex()+2;k++ )
  {
    bool v = forest->valid(k), g;
    try { g = forest->get(k).nodeIndex()==k; } catch( std::exception & ) { g = false; }
    if( v ) valid.push_back(k);
    if( v!=g ) valid.push_back(-99);
  }
  return Obj().n("max",forest->maxNodeIndex()).raw("list",list).raw("find",find+"").raw("valid",arr(valid))
    .n("errs",forest->numInitErrors()).str();
}
static std::string fstate (bool full)
{
  Obj o; o.n("cp",forest->cachePolicy()).n("lp",forest->logPolicy()).b("prof",forest->profilingEnabled());
  if( !full ) return o.str();
  DMI::Record::Ref st = forest->state();
  const DMI::Record &r = *st;
  return o.n("rcp",r[FCachePolicy].as<int>(-999)).n("rlp",r[FLogPolicy].as<int>(-999)).b("rprof",r[AidProfiling|AidEnabled].as<bool>(false))
    .raw("rbp",bits(r[FBreakpoint].as<int>(0),8)).raw("rss",bits(r[FBreakpointSingleShot].as<int>(0),8)).n("rerrs",r[AidNum|AidInit|AidErrors].as<int>(-1)).str();
}
static std::string hstr (const std::vector<HIID> &v)
{ std::vector<std::string> s; for( uint i=0;i<v.size();i++ ) s.push_back(v[i].toString()); return sarr(s); }

static std::string digest (int n,bool full)   // full: the state record too (which brings it up to date)
{
  RNode &v = dynamic_cast<RNode&>(forest->get(n));
  Obj o,i;
  if( full )
  {
  DMI::Record::Ref st; v.getSyncState(st);
  const DMI::Record &r = *st;
  std::vector<int> ci; if( r[FChildIndices].exists() ) r[FChildIndices].get_vector(ci);
  std::vector<int> sc; if( r[FStepChildren].exists() ) r[FStepChildren].get_vector(sc);
  int cs = r[FControlStatus].as<int>(0);
  o.n("v",r[*FVV].as<int>(-99)).n("fail",r[*FVFail].as<int>(-99)).n("act",cs&0xF).n("pub",r[FPublishingLevel].as<int>(-99))
   .raw("bp",bits(r[FBreakpoint].as<int>(0),8)).raw("ss",bits(r[FBreakpointSingleShot].as<int>(0),8))
   .n("cpol",r[FCachePolicy].as<int>(-99)).n("lpol",r[FLogPolicy].as<int>(-99)).n("dep",r[FDependMask].as<int>(-99))
   .n("nact",r[FCacheNumActiveParents].as<int>(-99)).n("ars",r[FAutoResample].as<int>(-99))
   .s("desc",r[FNodeDescription].as<std::string>("")).s("name",r[FName].as<std::string>("")).n("ni",r[FNodeIndex].as<int>(-1))
   .s("cls",r[FClass].as<std::string>("")).raw("ch",arr(ci)).raw("step",arr(sc))
   .n("fpol",policyNum(r[FFailPolicy].as<HIID>(HIID()))).n("mpol",policyNum(r[FMissingDataPolicy].as<HIID>(HIID())));
  }
  int ics = v.getControlStatus();
  i.n("v",v.v).n("fail",v.fail).n("act",ics&0xF).b("pub",ics&Node::CS_PUBLISHING)
   .raw("bp",bits(v.getBreakpoints(false),8)).raw("ss",bits(v.getBreakpoints(true),8))
   .b("hasbp",ics&Node::CS_BREAKPOINT).b("hasss",ics&Node::CS_BREAKPOINT_SS)
   .n("cpol",v.cachePolicy()).n("dep",v.getDependMask()).s("desc",v.description()).s("name",v.name()).n("ni",v.nodeIndex())
   .raw("grp",hstr(v.getNodeGroups()));
  Obj d; if( full ) d.raw("rec",o.str());
  return d.raw("int",i.str()).str();
}
static std::string statuses ()
{
  std::string s="[";
  for( int k=1;k<=forest->maxNodeIndex();k++ )
    if( forest->valid(k) )
    {
      RNode &v = dynamic_cast<RNode&>(forest->get(k));
      int cs = v.getControlStatus();
      if( s.size()>1 ) s+=",";
      s += Obj().n("i",k).n("res",(cs&Node::CS_RES_MASK)>>4).b("retc",cs&Node::CS_RETCACHE).b("hasbp",cs&Node::CS_BREAKPOINT)
        .b("hasss",cs&Node::CS_BREAKPOINT_SS).b("stopped",cs&Node::CS_STOPPED).b("stopbp",cs&Node::CS_STOP_BREAKPOINT)
        .n("es",(cs&Node::CS_MASK_EXECSTATE)>>Node::CS_LSB_EXECSTATE).raw("bp",bits(v.getBreakpoints(false),8)).raw("ss",bits(v.getBreakpoints(true),8)).str();
    }
  return s+"]";
}

// execution
struct Job { int node; Request::Ref req; Result::Ref res; int code; bool done,threw; };
static Job g_job;
struct Stop { int node,mask; bool global; };
static std::vector<Stop> g_stops;
static int g_mt = 0;
static void doexec (Job &j)
{
  try { j.code = forest->get(j.node).execute(j.res,*j.req,0); }
  catch( ... ) { j.threw = true; j.code = 0; }
}
static void * execThread (void *)
{
  if( g_mt>1 ) MTPool::brigade().join(MTPool::BUSY,0);
  while( true )
  {
    pthread_mutex_lock(&g_mx);
    while( g_job.done ) pthread_cond_wait(&g_cv,&g_mx);
    pthread_mutex_unlock(&g_mx);
    doexec(g_job);
    pthread_mutex_lock(&g_mx);
    g_job.done = true;
    pthread_cond_broadcast(&g_cv);
    pthread_mutex_unlock(&g_mx);
  }
  return 0;
}
static void bpCallback (Node &node,int bpmask,bool global)
{
  pthread_mutex_lock(&g_mx);
  Stop s; s.node=node.nodeIndex(); s.mask=bpmask; s.global=global;
  g_stops.push_back(s);
  pthread_cond_broadcast(&g_cv);
  pthread_mutex_unlock(&g_mx);
}
// aborts at the very moment that a node reports itself stopped
static volatile bool g_race = false;
static void stCallback (Node &,int oldst,int newst)
{
  if( g_race && (newst&Node::CS_STOPPED) && !(oldst&Node::CS_STOPPED) )
  {
    g_race = false;
    forest->raiseAbortFlag();
    if( forest->isStopFlagRaised() ) forest->clearStopFlag();
  }
}
static timespec deadline (int ms)
{
  timespec ts; clock_gettime(CLOCK_REALTIME,&ts);
  ts.tv_sec += ms/1000; ts.tv_nsec += (ms%1000)*1000000L;
  if( ts.tv_nsec>=1000000000L ) { ts.tv_sec++; ts.tv_nsec-=1000000000L; }
  return ts;
}
static std::string progress (int ms)
{
  timespec ts = deadline(ms);
  pthread_mutex_lock(&g_mx);
  while( !g_job.done && g_stops.empty() )
    if( pthread_cond_timedwait(&g_cv,&g_mx,&ts) ) break;
  bool done = g_job.done; std::vector<Stop> st; st.swap(g_stops);
  std::vector<int> lg; lg.swap(g_log);
  pthread_mutex_unlock(&g_mx);
  Obj o;
  if( !st.empty() )
    o.s("k",st.size()==1?"stop":"stops").n("n",st[0].node).raw("m",bits(st[0].mask,8)).b("g",st[0].global);
  else if( done )
    o.s("k","done").b("fail",g_job.code&NodeFace::RES_FAIL).b("abort",g_job.code&NodeFace::RES_ABORT).b("threw",g_job.threw);
  else
    o.s("k","hang");
  o.raw("log",arr(lg)).b("flag",forest->isStopFlagRaised()).raw("st",statuses());
  return o.str();
}
static void putCommand (DMI::Record &c,const std::string &x)   // bp:0,1:1 clr:..:.. st:3 pub:1 foo
{
  std::vector<std::string> y = split(x,':');
  if( y[0]=="bp" || y[0]=="clr" )
  {
    DMI::Record &a = *new DMI::Record; c[HIID(y[0]=="bp"?"Set.Breakpoint":"Clear.Breakpoint")] <<= &a;
    a[FBreakpoint] = mask("b"+y[1]); a[FSingleShot] = bool(atoi(y[2].c_str()));
  }
  else if( y[0]=="st" ) { DMI::Record &a = *new DMI::Record; c[FState] <<= &a; a[*FVV] = atoi(y[1].c_str()); }
  else if( y[0]=="pub" ) { DMI::Record &a = *new DMI::Record; c[HIID("Set.Publish.Level")] <<= &a; a[FLevel] = atoi(y[1].c_str()); }
  else { DMI::Record &a = *new DMI::Record; c[HIID("VX.VY")] <<= &a; a[FLevel] = 1; }
}
static void putCommands (DMI::Record &c,const std::string &x)
{ std::vector<std::string> y = split(x,'|'); for( uint k=0;k<y.size();k++ ) putCommand(c,y[k]); }
// rider entries: <group>;A;<commands>   <group>;I;<node>;<commands>   <group>;L;<names>;<indices>;<commands>
static Request::Ref mkreq (int id,int cells,const std::vector<std::string> &rd)
{
  Request::Ref rref; Request &req = rref <<= new Request;
  HIID h; h.resize(2); h[0] = RequestType::EVAL; h[1] = AtomicID(id);
  req.setId(h);
  if( cells )
  {
    Domain::Ref d(new Domain(0.,1.,0.,1.));
    req.setCells(new Cells(*d,2,2));
  }
  std::map<std::string,std::vector<DMI::Record*> > lists;
  for( uint k=0;k<rd.size();k++ )
  {
    std::vector<std::string> y = split(rd[k],';');
    HIID g(y[0]);
    if( y[1]=="A" ) putCommands(Rider::getCmdRec_All(rref,g),y[2]);
    else if( y[1]=="I" ) putCommands(Rider::getOrInit(Rider::getCmdRec_ByNodeIndex(rref,g),HIID(AtomicID(atoi(y[2].c_str())))),y[3]);
    else
    {
      DMI::Record *e = new DMI::Record;
      if( !y[2].empty() ) { std::vector<std::string> v=split(y[2],','); (*e)[FName] = v; }
      if( !y[3].empty() )
      { std::vector<std::string> v=split(y[3],','); std::vector<int> w; for( uint j=0;j<v.size();j++ ) w.push_back(atoi(v[j].c_str())); (*e)[FNodeIndex] = w; }
      putCommands(*e,y[4]);
      lists[y[0]].push_back(e);
    }
  }
  for( std::map<std::string,std::vector<DMI::Record*> >::iterator i=lists.begin();i!=lists.end();i++ )
  {
    DMI::Vec &v = Rider::getCmdRec_ByList(rref,HIID(i->first));
    v.init(TpDMIRecord,i->second.size());
    for( uint k=0;k<i->second.size();k++ ) v[k] <<= i->second[k];
  }
  rref().validateContent(true);
  return rref;
}
static void startJob (int n,const Request::Ref &rref)
{
  pthread_mutex_lock(&g_mx);
  g_job.node=n; g_job.req=rref; g_job.res.detach(); g_job.threw=false; g_job.code=0;
  g_log.clear(); g_stops.clear(); g_inside.clear();
  g_job.done=false; pthread_cond_broadcast(&g_cv);
  pthread_mutex_unlock(&g_mx);
}
static bool waitStatus (int n,int bit,int ms)
{
  RNode &v = dynamic_cast<RNode&>(forest->get(n));
  for( int k=0;k<ms;k++ )
  {
    if( v.getControlStatus(bit) ) return true;
    usleep(1000);
  }
  return false;
}

static const std::vector<std::string> none;
static HIID mkid (const std::vector<int> &v)
{
  HIID id; if( v.empty() ) return id;
  id.resize(v.size());
  for( uint i=0;i<v.size();i++ ) id[i] = AtomicID(v[i]);
  return id;
}
static std::string idstr (const HIID &id)
{ std::vector<int> v; for( uint i=0;i<id.size();i++ ) v.push_back(id[i].id()); return arr(v); }

int main (int argc,char **argv)
{
  const char *dargs[2]={"h",0}; Debug::initLevels(1,dargs);
  setup();
  g_job.done = true;
  bool thr = false;
  std::string line;
  while( std::getline(std::cin,line) )
  {
    Line l(line);
    if( !l.more() ) continue;
    std::string op = l.s();
    try
    {
      if( op=="mt" ) { g_mt = l.i(); MTPool::start(g_mt*2-1,g_mt); out("{}"); }
      else if( op=="reset" )         // reset <names...>: a new forest
      {
        if( !thr ) { thr=true; pthread_t t; pthread_create(&t,0,execThread,0); usleep(20000); }
        if( !g_job.done )
        { forest->raiseAbortFlag(); forest->clearStopFlag(); timespec ts=deadline(20000); pthread_mutex_lock(&g_mx);
          while( !g_job.done ) if( pthread_cond_timedwait(&g_cv,&g_mx,&ts) ) break; pthread_mutex_unlock(&g_mx); if( !g_job.done ) _exit(3); }
        g_job.res.detach(); g_job.req.detach();
        delete forest;
        forest = new Forest; forest->setDebuggingCallbacks(stCallback,bpCallback);
        g_names = l.sv(); g_gates.clear(); g_inside.clear();
        out(Obj().raw("repo",repo()).raw("f",fstate(false)));
      }
      else if( op=="create" )        // create <cls> <idx> <name> <spec> <step> <par> k=v...
      {
        std::string cls=l.s(); int idx=l.i(); std::string name=l.s(),spec=l.s();
        std::vector<int> st=l.iv(),pa=l.iv();
        DMI::Record::Ref rec; DMI::Record &r = rec <<= new DMI::Record;
        if( cls!="-" ) r[FClass] = cls;
        if( name!="-" ) r[FName] = name;
        if( idx ) r[FNodeIndex] = idx;
        if( spec[0]=='v' )
        {
          std::vector<std::string> x = split(spec.substr(1),','); std::vector<int> v;
          for( uint k=0;k<x.size();k++ ) v.push_back(atoi(x[k].c_str()));
          r[FChildren] <<= new DMI::Vec(Tpint,v.size(),&v[0]);
        }
        else if( spec[0]=='r' )
        {
          DMI::Record &c = *new DMI::Record; r[FChildren] <<= &c;
          std::vector<std::string> x = split(spec.substr(1),',');
          for( uint k=0;k<x.size();k++ )
          { size_t p=x[k].find('='); c[HIID(x[k].substr(0,p))] = atoi(x[k].substr(p+1).c_str()); }
        }
        else if( spec[0]=='s' ) r[FChildren] = std::string("wrong");
        if( !st.empty() ) r[FStepChildren] <<= new DMI::Vec(Tpint,st.size(),&st[0]);
        if( !pa.empty() ) r[FParents] <<= new DMI::Vec(Tpint,pa.size(),&pa[0]);
        setFields(r,l);
        int ni=-1; bool err=false;
        try { forest->create(ni,rec); } catch( std::exception &e ) { err=true; if( getenv("VDEBUG") ) fprintf(stderr,"%s\n",excstr(e).c_str()); }
        out(Obj().b("err",err).n("ni",err?0:ni).raw("repo",repo()));
      }
      else if( op=="initall" )
      { forest->initAll(); out(Obj().raw("repo",repo())); }
      else if( op=="remove" )
      {
        bool err=false;
        try { forest->remove(l.i()); } catch( std::exception & ) { err=true; }
        out(Obj().b("err",err).raw("repo",repo()));
      }
      else if( op=="clear" )
      { forest->clear(); out(Obj().raw("repo",repo())); }
      else if( op=="fset" )          // fset <complete> k=v...
      {
        bool comp=l.i();
        DMI::Record::Ref rec; DMI::Record &r = rec <<= new DMI::Record;
        while( l.more() ) { std::string kv=l.s(); size_t p=kv.find('='); setForestField(r,kv.substr(0,p),kv.substr(p+1)); }
        bool err=false;
        try { forest->setState(rec,comp); } catch( std::exception & ) { err=true; }
        out(Obj().b("err",err).raw("f",fstate(false)));
      }
      else if( op=="fget" )
      { out(Obj().b("err",false).raw("f",fstate(true))); }
      else if( op=="fpol" )          // fpol <what> <val>: through the setters
      {
        std::string w=l.s(); int x=l.i();
        if( w=="cp" ) forest->setCachePolicy(x); else if( w=="lp" ) forest->setLogPolicy(x); else forest->enableProfiling(x);
        out(Obj().b("err",false).raw("f",fstate(false)));
      }
      else if( op=="fbp" || op=="fclr" ) // fbp <mask> <ss>
      {
        int m=mask(l.s()); bool ss=l.i();
        if( op=="fbp" ) forest->setBreakpoint(m,ss); else forest->clearBreakpoint(m,ss);
        out(Obj().b("err",false).raw("f",fstate(false)));
      }
      else if( op=="set" )           // set <node> k=v...
      {
        int n=l.i();
        DMI::Record::Ref rec; DMI::Record &r = rec <<= new DMI::Record;
        setFields(r,l);
        bool err=false;
        try { forest->get(n).setState(rec); } catch( std::exception &e ) { err=true; if( getenv("VDEBUG") ) fprintf(stderr,"%s\n",excstr(e).c_str()); }
        out(Obj().b("err",err).raw("d",digest(n,false)));
      }
      else if( op=="cmd" )           // cmd <node> <command> k=v...
      {
        int n=l.i(); std::string name=l.s();
        DMI::Record::Ref rec; Result::Ref dum;
        if( l.more() ) rec <<= new DMI::Record;
        if( name=="Set.State" )
        { DMI::Record::Ref s; DMI::Record &r = s <<= new DMI::Record; setFields(r,l); if( !rec.valid() ) rec <<= new DMI::Record; rec()[FState] <<= s; }
        else
          while( l.more() )
          { std::string kv=l.s(); size_t p=kv.find('='); std::string k=kv.substr(0,p),v=kv.substr(p+1);
            if( k=="bp" ) rec()[FBreakpoint]=mask(v); else if( k=="one" ) rec()[FSingleShot]=bool(atoi(v.c_str()));
            else if( k=="level" ) rec()[FLevel]=atoi(v.c_str()); else Line::die("bad command argument"); }
        bool err=false; int ret=0;
        try { ret = forest->get(n).processCommand(dum,HIID(name),rec); } catch( std::exception & ) { err=true; }
        out(Obj().b("err",err).b("known",ret!=0).raw("d",digest(n,false)));
      }
      else if( op=="get" )           // get <node>
      { int n=l.i(); out(Obj().b("err",false).raw("d",digest(n,true))); }
      else if( op=="exec" )          // exec <node> <id> <cells> <rider entries...>
      {
        int n=l.i(),id=l.i(),cells=l.i(); std::vector<std::string> rd; while( l.more() ) rd.push_back(l.s());
        if( !g_job.done ) out("{\"k\":\"busy\"}");
        else
        {
          startJob(n,mkreq(id,cells,rd));
          out(progress(20000));
        }
      }
      else if( op=="xabort" )        // as exec, with an abort coming in just as it is about to stop
      {
        int n=l.i(),id=l.i(),cells=l.i();
        if( !g_job.done ) { out("{\"k\":\"busy\"}"); continue; }
        forest->setDebugLevel(2); g_race = true;
        startJob(n,mkreq(id,cells,none));
        std::string s = progress(20000);
        g_race = false; forest->setDebugLevel(0); forest->clearAbortFlag();
        out(s);
      }
      else if( (op=="cont" || op=="abort") && g_job.done )
        out("{\"k\":\"idle\"}");
      else if( op=="cont" )
      { pthread_mutex_lock(&g_mx); g_stops.clear(); pthread_mutex_unlock(&g_mx); forest->clearStopFlag(); out(progress(20000)); }
      else if( op=="abort" )
      { forest->raiseAbortFlag(); forest->clearStopFlag(); std::string s = progress(20000); forest->clearAbortFlag(); out(s); }
      else if( op=="mtstop" )        // mtstop <root> <stop node> <its bits> <others...>: where the other busy nodes are once one has stopped
      {
        int root=l.i(),sn=l.i(); int m=mask(l.s()); int id=l.i();
        std::vector<int> oth=l.iv();
        pthread_mutex_lock(&g_mx);
        g_gates.clear(); g_gates.insert(sn); g_gates.insert(oth.begin(),oth.end());
        pthread_mutex_unlock(&g_mx);
        dynamic_cast<Node&>(forest->get(sn)).setBreakpoint(m,true);
        startJob(root,mkreq(id,1,none));
        timespec ts=deadline(20000); bool in=true;
        pthread_mutex_lock(&g_mx);
        for( uint k=0;k<=oth.size() && in;k++ )
          while( !g_inside.count(k<oth.size()?oth[k]:sn) )
            if( pthread_cond_timedwait(&g_cv,&g_mx,&ts) ) { in=false; break; }
        pthread_mutex_unlock(&g_mx);
        if( !in ) { out("{\"k\":\"hang\"}"); _exit(3); }
        pthread_mutex_lock(&g_mx); g_gates.erase(sn); pthread_cond_broadcast(&g_cv);
        while( g_stops.empty() ) if( pthread_cond_timedwait(&g_cv,&g_mx,&ts) ) break;
        Obj o; o.s("k",g_stops.size()==1?"stop":"hang").n("n",g_stops.empty()?0:g_stops[0].node);
        g_stops.clear();
        g_gates.clear(); pthread_cond_broadcast(&g_cv);
        pthread_mutex_unlock(&g_mx);
        std::vector<int> halted,ran;
        for( uint k=0;k<oth.size();k++ )
          if( waitStatus(oth[k],Node::CS_STOPPED,1000) ) halted.push_back(oth[k]); else ran.push_back(oth[k]);
        bool ended = g_job.done;
        forest->clearStopFlag();
        pthread_mutex_lock(&g_mx);
        while( !g_job.done ) if( pthread_cond_timedwait(&g_cv,&g_mx,&ts) ) break;
        bool done = g_job.done;
        pthread_mutex_unlock(&g_mx);
        std::vector<int> left;
        for( int k=1;k<=forest->maxNodeIndex();k++ )
          if( forest->valid(k) && dynamic_cast<Node&>(forest->get(k)).getControlStatus(Node::CS_STOPPED|Node::CS_MASK_EXECSTATE) ) left.push_back(k);
        out(o.raw("halted",arr(halted)).raw("ran",arr(ran)).b("early",ended).b("done",done).raw("left",arr(left)));
        if( !done ) _exit(3);
      }
      // request ids
      else if( op=="rq" )            // rq <fn> <id> <id2> <mask bits> <value>
      {
        std::string f=l.s(); HIID a=mkid(l.iv()),b=mkid(l.iv()); int m=mask(l.s()),v=l.i();
        Obj o;
        if( f=="mask" ) { RqId::maskSubId(a,m); o.raw("id",idstr(a)); }
        else if( f=="incr" ) { RqId::incrSubId(a,m); o.raw("id",idstr(a)); }
        else if( f=="set" ) { RqId::setSubId(a,m,v); o.raw("id",idstr(a)); }
        else if( f=="cmp" ) o.b("eq",RqId::maskedCompare(a,b,m)).b("eq2",RqId::maskedCompare(b,a,m));
        else if( f=="diff" ) o.raw("d",bits(RqId::diffMask(a,b),30)).raw("d2",bits(RqId::diffMask(b,a),30));
        else Line::die("rq");
        out(o);
      }
      else if( op=="fincr" )         // fincr <id> <symdeps>
      {
        HIID a=mkid(l.iv()); std::vector<std::string> sd=l.sv();
        std::vector<HIID> s; for( uint k=0;k<sd.size();k++ ) s.push_back(HIID(sd[k]));
        forest->incrRequestId(a,s);
        out(Obj().raw("id",idstr(a)));
      }
      else if( op=="fdep" )          // fdep: the forest's masks
      {
        Obj o; const char *nm[]={"Iteration","State","Resolution","Domain","Dataset"};
        for( int k=0;k<5;k++ ) o.raw(nm[k],bits(forest->getDependMask(HIID(nm[k])),20));
        out(o);
      }
      else Line::die(("unknown op "+op).c_str());
    }
    catch( std::exception &e )
    { out(Obj().s("exc",excstr(e))); }
  }
  fflush(stdout);
  _exit(0);
}
