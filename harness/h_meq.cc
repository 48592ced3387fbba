// Drives real Meq nodes (MEQ/src/Node.cc, NodeNursery.cc, MTPool.cc, Forest.cc) with scripted forests.
// VNode: a node whose value is a known function of the request id, its own state and its children.
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/Request.h>
#include <MEQ/Rider.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Cells.h>
#include <MEQ/MTPool.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include "vutil.h"
#include "vexc.h"

using namespace Meq;
using namespace vu;

static const int AidV0 = -29001;
static const HIID *FVV,*FVC0,*FVFailMod,*FVMissMod,*FVWaitMod,*FVThrow,*FVPert,*FVIgnT,*FVAbort,*FVCmd,*FVBad,*FVReads,*FVAsync;

struct LogEntry { int node; std::string what; int arg; };
static std::vector<LogEntry> g_log;
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  g_cv = PTHREAD_COND_INITIALIZER;
static std::set<int> g_gates;      // nodes that block in getResult until released
static std::vector<int> g_entered; // nodes which entered getResult, in order
static std::vector<int> g_ord;     // the same with departures (negative)
static std::map<int,int> g_active; // concurrent evaluations per node
static int g_maxactive = 0;
static int g_delay = 0; static unsigned g_rng = 1;

static void addlog (int node,const std::string &what,int arg=0)
{ pthread_mutex_lock(&g_mx); LogEntry e; e.node=node; e.what=what; e.arg=arg; g_log.push_back(e); pthread_mutex_unlock(&g_mx); }

static const int MODULUS = 9973;

class VNode : public Node
{
  public:
    VNode () : Node() { sv=c0=failmod=missmod=waitmod=thr=pert=ignt=abrt=0; reads=async=0; }
    virtual TypeId objectType () const { return TypeId(AidV0); }

    int sv,c0,failmod,missmod,waitmod,thr,pert,ignt,abrt,reads,async;

  protected:
    virtual void setStateImpl (DMI::Record::Ref &rec,bool initializing)
    {
      Node::setStateImpl(rec,initializing);
      rec[*FVV].get(sv,initializing);
      rec[*FVC0].get(c0,initializing);
      rec[*FVFailMod].get(failmod,initializing);
      rec[*FVMissMod].get(missmod,initializing);
      rec[*FVWaitMod].get(waitmod,initializing);
      rec[*FVThrow].get(thr,initializing);
      rec[*FVPert].get(pert,initializing);
      rec[*FVIgnT].get(ignt,initializing);
      rec[*FVAbort].get(abrt,initializing);
      rec[*FVReads].get(reads,initializing);
      rec[*FVAsync].get(async,initializing);
      int bad=0;
      if( rec[*FVBad].get(bad) && bad )
      {
        if( bad==2 )
          NodeThrow(FailWithoutCleanup,"vbad2");
        Throw("vbad");
      }
    }

    virtual int processCommand (Result::Ref &resref,const HIID &command,DMI::Record::Ref &args,
                                const RequestId &rqid,int verbosity)
    {
      if( command == *FVCmd )
      {
        int a = args[*FVC0].as<int>(0);
        addlog(nodeIndex(),"cmd",a);
        int bad = args[*FVBad].as<int>(0);
        if( bad )
          Throw("cmdfail");
        return RES_OK;
      }
      return Node::processCommand(resref,command,args,rqid,verbosity);
    }

    // an asynchronous node collects the results of its children itself, one by one (as a solver does)
    virtual int pollChildren (Result::Ref &resref,std::vector<Result::Ref> &childres,const Request &req)
    {
      if( !async )
        return Node::pollChildren(resref,childres,req);
      childres.resize(children().numChildren());
      return 0;
    }

    virtual int getResult (Result::Ref &resref,const std::vector<Result::Ref> &childres0,
                           const Request &req,bool newreq)
    {
      int ni = nodeIndex();
      std::vector<Result::Ref> mine;
      int cumul = 0;
      if( async )
      {
        mine.resize(children().numChildren());
        int rc,ich; Result::Ref rr;
        children().startAsyncPoll(req,currentRequestDepth()+1);
        while( (ich = children().awaitChildResult(rc,rr,req)) >= 0 )
        {
          cumul |= rc;
          mine[ich] = rr; rr.detach();
          if( failmod==1 && thr )
            throw LOFAR::Exception("F"+num(ni));
        }
        if( forest().abortFlag() )
          return 0;
        if( cumul&RES_WAIT )
          return RES_WAIT;
        cumul &= (1<<RQIDM_NBITS)-1;
      }
      const std::vector<Result::Ref> &childres = async ? mine : childres0;
      pthread_mutex_lock(&g_mx);
      g_entered.push_back(ni);
      g_ord.push_back(ni);
      int act = ++g_active[ni];
      if( act > g_maxactive ) g_maxactive = act;
      pthread_cond_broadcast(&g_cv);
      while( g_gates.count(ni) ) pthread_cond_wait(&g_cv,&g_mx);
      int dl = 0;
      if( g_delay ) { g_rng = g_rng*1103515245u+12345u; dl = (g_rng>>16)%g_delay; }
      pthread_mutex_unlock(&g_mx);
      if( dl ) usleep(dl);
      int ret = doResult(resref,childres,req,newreq);
      return ret | cumul;
    }

    int doResult (Result::Ref &resref,const std::vector<Result::Ref> &childres,
                           const Request &req,bool newreq)
    {
      int ni = nodeIndex();
      struct Leave { int n; Leave(int k):n(k){} ~Leave(){ pthread_mutex_lock(&g_mx); --g_active[n]; g_ord.push_back(-n); pthread_mutex_unlock(&g_mx); } } lv(ni);
      addlog(ni,"eval",newreq);
      const HIID &id = req.id();
      long v = c0 + 17L*sv;
      for( int b=1;b<6;b++ )
        if( reads&(1<<b) )
          v += (b*b*11L+b)*( b<int(id.size()) ? id[b].id() : 0 );
      int np = pert ? req.evalMode()*1 : 0;
      for( uint i=0;i<childres.size();i++ )
      {
        long cv = 1;
        if( !childres[i].valid() || childres[i]->numVellSets()==0 )
          cv = 555;
        else
        {
          const VellSet &vs = childres[i]->vellSet(0);
          if( vs.isFail() ) cv = 7777;
          else if( !vs.hasValue() ) cv = 8888;
          else
          {
            cv = long(vs.getValue().as<double>()+.5);
            if( vs.numPertSets() > np && vs.numSpids() ) np = vs.numPertSets();
          }
        }
        v += (3L*i+2)*cv;
      }
      v %= MODULUS;
      if( abrt )
      {
        forest().raiseAbortFlag();
        return 0;
      }
      if( waitmod && v%waitmod == 0 )
        return RES_WAIT;
      if( failmod && v%failmod == 0 )
      {
        if( thr )
          throw LOFAR::Exception("F"+num(ni));
        Result &res = resref <<= new Result(1);
        VellSet &vs = res.setNewVellSet(0);
        vs.addFail(LOFAR::Exception("F"+num(ni)));
        return RES_FAIL;
      }
      if( missmod && v%missmod == 0 )
      {
        Result &res = resref <<= new Result(1);
        res.setVellSet(0,new VellSet);
        return RES_MISSING;
      }
      Result &res = resref <<= new Result(1);
      VellSet &vs = res.setNewVellSet(0,np?1:0,np?np:1);
      if( np )
      {
        std::vector<int> spids(1,1);
        for( int k=0;k<np;k++ )
        { if( !k ) vs.setSpids(spids); vs.setPerturbation(0,1.0,k); vs.setPerturbedValue(0,Vells(double(v+1+k)),k); }
      }
      vs.setValue(Vells(double(v)));
      return ignt ? int(RES_IGNORE_TYPE) : 0;
    }
};

static DMI::BObj * constructVNode (int n) { return n>0 ? new VNode[n] : new VNode; }

static const HIID & regField (int &next,const char *name)
{
  AtomicID::registerId(next--,name);
  return *new HIID(name);
}

static void setup ()
{
  AtomicID::registerId(AidV0,"VNode");
  TypeInfoReg::addToRegistry(AidV0,TypeInfo(TypeInfo::DYNAMIC,0));
  DynamicTypeManager::addToRegistry(AidV0,constructVNode);
  int n = -29010;
  FVV = &regField(n,"VV"); FVC0 = &regField(n,"VC0"); FVFailMod = &regField(n,"VFailMod");
  FVMissMod = &regField(n,"VMissMod"); FVWaitMod = &regField(n,"VWaitMod"); FVThrow = &regField(n,"VThrow");
  FVPert = &regField(n,"VPert"); FVIgnT = &regField(n,"VIgnT"); FVAbort = &regField(n,"VAbort");
  FVCmd = &regField(n,"VCmd"); FVBad = &regField(n,"VBad"); FVReads = &regField(n,"VReads"); FVAsync = &regField(n,"VAsync");
  const char *extra[] = { "GrA","GrB","GrC","VX","VY","VZ",0 };
  for( int k=0;extra[k];k++ ) AtomicID::registerId(n--,extra[k]);
}

static const AtomicID * types ()
{
  static AtomicID t[6] = { AtomicID(0),RequestType::EVAL,RequestType::EVAL_SINGLE,RequestType::EVAL_DOUBLE,
                           RequestType::DISCOVER_SPIDS,RequestType::PARM_UPDATE };
  return t;
}
static HIID mkid (const std::vector<int> &v)
{
  HIID id;
  if( v.empty() ) return id;
  id.resize(v.size());
  for( uint i=0;i<v.size();i++ ) id[i] = i ? AtomicID(v[i]) : types()[v[0]];
  return id;
}
static std::string idstr (const HIID &id)
{
  std::vector<int> v;
  for( uint i=0;i<id.size();i++ )
    if( i ) v.push_back(id[i].id());
    else { int k=0; while( k<6 && !(types()[k]==id[0]) ) k++; v.push_back(k); }
  return arr(v);
}

static AtomicID policyAid (int p)
{ return p==0 ? AidIgnore : p==1 ? AidAbandonPropagate : AidCollectPropagate; }

static void setField (DMI::Record &rec,const std::string &key,const std::string &val)
{
  int iv = atoi(val.c_str());
  if( key=="sv" ) rec[*FVV] = iv;
  else if( key=="c0" ) rec[*FVC0] = iv;
  else if( key=="failmod" ) rec[*FVFailMod] = iv;
  else if( key=="missmod" ) rec[*FVMissMod] = iv;
  else if( key=="waitmod" ) rec[*FVWaitMod] = iv;
  else if( key=="thr" ) rec[*FVThrow] = iv;
  else if( key=="pert" ) rec[*FVPert] = iv;
  else if( key=="ignt" ) rec[*FVIgnT] = iv;
  else if( key=="abrt" ) rec[*FVAbort] = iv;
  else if( key=="bad" ) rec[*FVBad] = iv;
  else if( key=="async" ) rec[*FVAsync] = iv;
  else if( key=="reads" ) rec[*FVReads] = iv;
  else if( key=="dep" ) rec[FDependMask] = iv;
  else if( key=="pol" ) rec[FCachePolicy] = iv;
  else if( key=="nact" ) rec[FCacheNumActiveParents] = iv;
  else if( key=="fpol" ) rec[AidFail|AidPolicy] = HIID(policyAid(iv));
  else if( key=="mpol" ) rec[AidMissing|AidData|AidPolicy] = HIID(policyAid(iv));
  else if( key=="act" ) rec[FControlStatus] = iv;
  else if( key=="mt" ) rec[FMTPolling] = bool(iv);
  else if( key=="pub" ) rec[FPublishingLevel] = iv;
  else if( key=="desc" ) rec[FNodeDescription] = val;
  else if( key=="name" ) rec[FName] = val;
  else if( key=="nodeindex" ) rec[FNodeIndex] = iv;
  else if( key=="class" ) rec[FClass] = val;
  else if( key=="children" ) rec[FChildren] = iv;
  else if( key=="stepchildren" ) rec[FStepChildren] = iv;
  else if( key=="childindices" ) rec[FChildIndices] = iv;
  else if( key=="stepchildindices" ) rec[FStepChildIndices] = iv;
  else if( key=="parentindices" ) rec[FParentIndices] = iv;
  else if( key=="isstepparent" ) rec[FIsStepParent] = iv;
  else if( key=="initindex" ) rec[FInternalInitIndex] = iv;
  else if( key=="polbad" ) rec[FCachePolicy] = std::string("notanint");
  else if( key=="bp" ) rec[FBreakpoint] = iv;
  else if( key=="bpss" ) rec[FBreakpointSingleShot] = iv;
  else if( key=="order" || key=="groups" )
  {
    std::vector<std::string> v;
    std::istringstream is(val); std::string t;
    while( std::getline(is,t,',') ) v.push_back(t);
    if( key=="order" )
      rec[AidChild|AidPoll|AidOrder] = v;
    else
    {
      std::vector<HIID> g; for( uint i=0;i<v.size();i++ ) g.push_back(HIID(v[i]));
      rec[FNodeGroups] = g;
    }
  }
  else Line::die(("unknown field "+key).c_str());
}

static void setFields (DMI::Record &rec,Line &l)
{
  while( l.more() )
  {
    std::string kv = l.s();
    size_t p = kv.find('=');
    if( p==std::string::npos ) Line::die("key=value expected");
    setField(rec,kv.substr(0,p),kv.substr(p+1));
  }
}

static Forest *forest = 0;

static std::string resstr (const Result::Ref &ref)
{
  Obj o;
  if( !ref.valid() )
    return o.s("k","none").str();
  const Result &r = *ref;
  if( r.numVellSets()==0 )
    return o.s("k","empty").str();
  const VellSet &vs = r.vellSet(0);
  if( vs.isFail() )
  {
    // which nodes' failures does the result carry: node k fails with message "Fk"
    std::vector<int> orig;
    bool allfail = true;
    for( int i=0;i<r.numVellSets();i++ )
    {
      const VellSet &v = r.vellSet(i);
      if( !v.isFail() ) { allfail=false; continue; }
      for( int j=0;j<v.numFails();j++ )
      {
        std::string m = v.getFailMessage(j);
        if( m.size()>1 && m[0]=='F' && isdigit(m[1]) ) orig.push_back(atoi(m.c_str()+1));
        else if( m=="vbad" || m=="vbad2" || m=="cmdfail" ) orig.push_back(-1);
      }
    }
    return o.s("k","fail").raw("f",arr(orig)).n("n",r.numVellSets()).b("all",allfail).str();
  }
  if( !vs.hasValue() )
    return o.s("k","missing").str();
  double d = vs.getValue().as<double>();
  int np = vs.numSpids() ? vs.numPertSets() : 0;
  std::vector<int> pv;
  for( int k=0;k<np;k++ ) pv.push_back(int(vs.getPerturbedValue(0,k).as<double>()+.5));
  return o.s("k","val").n("v",long(d+.5)).n("np",np).raw("pv",arr(pv)).str();
}

static std::string codestr (int c)
{
  std::vector<std::string> fl;
  if( c&NodeFace::RES_UPDATED ) fl.push_back("UPD");
  if( c&NodeFace::RES_IGNORE_TYPE ) fl.push_back("IGNT");
  if( c&NodeFace::RES_MISSING ) fl.push_back("MISSING");
  if( c&NodeFace::RES_WAIT ) fl.push_back("WAIT");
  if( c&NodeFace::RES_ABORT ) fl.push_back("ABORT");
  if( c&NodeFace::RES_FAIL ) fl.push_back("FAIL");
  return sarr(fl);
}

static DMI::Record::Ref g_rider;
static bool g_sortlog = false;
static bool logless (const LogEntry &a,const LogEntry &b)
{ if( a.node!=b.node ) return a.node<b.node; if( a.what!=b.what ) return a.what<b.what; return a.arg<b.arg; }

static std::string logstr ()
{
  std::vector<LogEntry> lg;
  pthread_mutex_lock(&g_mx); lg.swap(g_log); pthread_mutex_unlock(&g_mx);
  if( g_sortlog ) std::stable_sort(lg.begin(),lg.end(),logless);
  std::string r="[";
  for( uint i=0;i<lg.size();i++ )
  { if( i ) r+=","; r += "["+num(lg[i].node)+","+q(lg[i].what)+","+num(lg[i].arg)+"]"; }
  return r+"]";
}
static std::string cachedstr ()
{
  std::vector<int> v;
  for( int i=1;i<=forest->maxNodeIndex();i++ )
    if( forest->valid(i) )
    {
      Node *n = dynamic_cast<Node*>(&forest->get(i));
      if( n && n->getControlStatus(Node::CS_CACHED) ) v.push_back(i);
    }
  return arr(v);
}

struct ExecJob { int node; Request::Ref req; Result::Ref res; int code; bool done; bool threw; };
static ExecJob g_job;
static int g_mtthreads = 0;

static void doexec (ExecJob &j)
{
  try { j.code = forest->get(j.node).execute(j.res,*j.req,0); }
  catch( ... ) { j.threw = true; j.code = 0; }
}
static void * execThread (void *)
{
  if( g_mtthreads>1 ) MTPool::brigade().join(MTPool::BUSY,0);
  while( true )
  {
    pthread_mutex_lock(&g_mx);
    while( g_job.done ) pthread_cond_wait(&g_cv,&g_mx);
    pthread_mutex_unlock(&g_mx);
    doexec(g_job);
    pthread_mutex_lock(&g_mx);
    g_job.done = true;
    pthread_cond_broadcast(&g_cv);
    pthread_mutex_unlock(&g_mx);
  }
  return 0;
}

static DMI::Record & sub (DMI::Record &r,const HIID &f)
{
  if( !r[f].exists() ) r[f] <<= new DMI::Record;
  return r[f].as_wr<DMI::Record>();
}

// command spec: "cmd <arg> <bad>" or "state key=val.."
static void fillCmd (DMI::Record &rec,Line &l)
{
  std::string w = l.s();
  if( w=="cmd" )
  {
    int a=l.i(),b=l.i();
    DMI::Record &c = sub(rec,*FVCmd);
    c[*FVC0]=a; c[*FVBad]=b;
  }
  else if( w=="state" )
    setFields(sub(rec,FState),l);
  else Line::die("bad rider command");
}

static bool waitDone (int ms)
{
  timespec ts; clock_gettime(CLOCK_REALTIME,&ts);
  ts.tv_sec += ms/1000; ts.tv_nsec += (ms%1000)*1000000L;
  if( ts.tv_nsec>=1000000000L ) { ts.tv_sec++; ts.tv_nsec-=1000000000L; }
  pthread_mutex_lock(&g_mx);
  while( !g_job.done )
    if( pthread_cond_timedwait(&g_cv,&g_mx,&ts) ) break;
  bool d = g_job.done;
  pthread_mutex_unlock(&g_mx);
  return d;
}

static void printExec ()
{
  Obj o;
  o.raw("fl",codestr(g_job.code)).raw("mask",bits(g_job.code,16)).raw("res",resstr(g_job.res))
   .raw("log",logstr()).raw("cached",cachedstr()).b("threw",g_job.threw).n("conc",g_maxactive).b("aborted",forest->abortFlag());
  if( g_mtthreads>1 )
  {
    int left=0; for( std::map<int,int>::iterator i=g_active.begin(); i!=g_active.end(); ++i ) left += i->second;
    o.raw("ord",arr(g_ord)).n("left",left);
  }
  out(o);
}

static int errcount = 0;
static void eventCB (const HIID &type,const ObjRef &) { if( type==HIID(AidError) ) { errcount++; } }

int main (int argc,char **argv)
{
  const char *dargs[2]={"h",0}; Debug::initLevels(1,dargs);
  setup();
  std::string line;
  g_job.done = true;
  bool threaded = false;
  while( std::getline(std::cin,line) )
  {
    Line l(line);
    if( !l.more() ) continue;
    std::string op = l.s();
    try
    {
      if( op=="mt" )                 // mt <threads>: worker pool and a separate exec thread
      {
        g_mtthreads = l.i();
        MTPool::start(g_mtthreads*2-1,g_mtthreads);
        pthread_t t; pthread_create(&t,0,execThread,0);
        threaded = true; g_sortlog = true;
        usleep(50000);
        out("{}");
      }
      else if( op=="thread" )        // separate exec thread, no pool
      { pthread_t t; pthread_create(&t,0,execThread,0); threaded = true; out("{}"); }
      else if( op=="reset" )         // reset <forest cache policy>
      {
        if( forest ) { delete forest; }
        forest = new Forest; forest->setEventCallback(eventCB);
        forest->setCachePolicy(l.i());
        g_log.clear(); g_gates.clear(); g_entered.clear(); g_maxactive=0; errcount=0; g_rider.detach();
        out("{}");
      }
      else if( op=="node" )          // node <idx> <name> <ch> <step> <par> k=v...
      {
        int idx=l.i(); std::string name=l.s();
        std::vector<int> ch=l.iv(),st=l.iv(),pa=l.iv();
        DMI::Record::Ref rec; DMI::Record &r = rec <<= new DMI::Record;
        r[FClass] = std::string("VNode");
        r[FName] = name;
        r[FNodeIndex] = idx;
        if( !ch.empty() ) r[FChildren] <<= new DMI::Vec(Tpint,ch.size(),&ch[0]);
        if( !st.empty() ) r[FStepChildren] <<= new DMI::Vec(Tpint,st.size(),&st[0]);
        if( !pa.empty() ) r[FParents] <<= new DMI::Vec(Tpint,pa.size(),&pa[0]);
        setFields(r,l);
        int ni; std::string err;
        try { forest->create(ni,rec); } catch( std::exception &e ) { err="error"; if( getenv("VDEBUG") ) fprintf(stderr,"%s\n",excstr(e).c_str()); }
        out(Obj().s("err",err));
      }
      else if( op=="init" )
      { forest->initAll(); out(Obj().n("errors",forest->numInitErrors())); }
      else if( op=="exec" || op=="start" )         // exec <node> <id> <next> <cells>
      {
        int n=l.i(); HIID id=mkid(l.iv()), next=mkid(l.iv()); int cells=l.i();
        Request::Ref rref; Request &req = rref <<= new Request;
        req.setId(id);
        if( !next.empty() ) req.setNextId(next);
        if( cells )
        {
          int dom = id.size()>4 ? id[4].id() : 0;
          Domain::Ref d(new Domain(double(dom),dom+1.,0.,1.));
          req.setCells(new Cells(*d,2,2));
        }
        if( g_rider.valid() ) { req[FRider] = *g_rider; g_rider.detach(); req.validateContent(true); }
        pthread_mutex_lock(&g_mx);
        g_job.node=n; g_job.req=rref; g_job.res.detach(); g_job.threw=false; g_job.code=0;
        g_entered.clear(); g_ord.clear(); g_maxactive=0; g_log.clear();
        if( threaded ) { g_job.done=false; pthread_cond_broadcast(&g_cv); }
        pthread_mutex_unlock(&g_mx);
        if( !threaded ) doexec(g_job);
        if( op=="exec" )
        {
          if( threaded && !waitDone(20000) )
          { out("{\"hang\":true}"); _exit(3); }
          printExec();
        }
        else out("{}");
      }
      else if( op=="wait" )          // wait <ms>
      {
        if( !waitDone(l.i()) ) { out(Obj().b("hang",true)); _exit(3); }
        printExec();
      }
      else if( op=="running" )       // running <ms>: is the execution still going after so long
      { bool d=waitDone(l.i()); out(Obj().b("running",!d)); }
      else if( op=="gate" )          // gate <n> nodes: hold these in getResult
      { std::vector<int> v=l.iv(); pthread_mutex_lock(&g_mx); g_gates.clear(); g_gates.insert(v.begin(),v.end()); pthread_cond_broadcast(&g_cv); pthread_mutex_unlock(&g_mx); out("{}"); }
      else if( op=="open" )          // open <node>: release the gate
      { int n=l.i(); pthread_mutex_lock(&g_mx); g_gates.erase(n); pthread_cond_broadcast(&g_cv); pthread_mutex_unlock(&g_mx); out("{}"); }
      else if( op=="entered" )       // entered <node> <ms>: wait until the node entered getResult
      {
        int n=l.i(),ms=l.i(); bool in=false;
        for( int k=0;k<=ms && !in;k++ )
        {
          pthread_mutex_lock(&g_mx);
          in = std::find(g_entered.begin(),g_entered.end(),n)!=g_entered.end();
          pthread_mutex_unlock(&g_mx);
          if( !in ) usleep(1000);
        }
        out(Obj().b("in",in));
      }
      else if( op=="delay" )         // delay <max usec> <seed>
      { g_delay=l.i(); g_rng=l.i(); out("{}"); }
      else if( op=="set" )           // set <node> k=v...
      {
        int n=l.i();
        DMI::Record::Ref rec; DMI::Record &r = rec <<= new DMI::Record;
        setFields(r,l);
        std::string err;
        try { forest->get(n).setState(rec); } catch( std::exception &e ) { err="error"; if( getenv("VDEBUG") ) fprintf(stderr,"%s\n",excstr(e).c_str()); }
        out(Obj().s("err",err));
      }
      else if( op=="get" )           // get <node>: selected state fields, internal and in the record
      {
        int n=l.i();
        VNode &v = dynamic_cast<VNode&>(forest->get(n));
        DMI::Record::Ref st; v.getState(st);
        const DMI::Record &r = *st;
        Obj o,i;
        o.n("sv",r[*FVV].as<int>(0)).n("c0",r[*FVC0].as<int>(0)).n("failmod",r[*FVFailMod].as<int>(0))
         .n("pol",r[FCachePolicy].as<int>(-999)).n("dep",r[FDependMask].as<int>(-999))
         .s("desc",r[FNodeDescription].as<std::string>("")).s("name",r[FName].as<std::string>(""))
         .n("nodeindex",r[FNodeIndex].as<int>(-1)).s("class",r[FClass].as<std::string>(""));
        std::vector<int> ci; r[FChildIndices].get_vector(ci); o.raw("ch",arr(ci));
        i.n("sv",v.sv).n("c0",v.c0).n("failmod",v.failmod).n("pol",v.cachePolicy()).n("dep",v.getDependMask())
         .s("desc",v.description()).s("name",v.name()).n("nodeindex",v.nodeIndex()).b("act",v.getControlStatus(Node::CS_ACTIVE));
        out(Obj().raw("rec",o.str()).raw("int",i.str()));
      }
      else if( op=="clear" )         // clear <node> <recursive>
      {
        int n=l.i(); bool rec=l.i();
        DMI::Record::Ref args; args <<= new DMI::Record; args()[FRecursive]=rec;
        Result::Ref dum;
        forest->get(n).processCommand(dum,AidClear|AidCache,args);
        usleep(2);
        out(Obj().raw("cached",cachedstr()));
      }
      else if( op=="clearabort" ) { forest->clearAbortFlag(); out("{}"); }
      else if( op=="raiseabort" ) { forest->raiseAbortFlag(); out("{}"); }
      else if( op=="riderall" )      // riderall <group> <cmd>
      {
        if( !g_rider.valid() ) g_rider <<= new DMI::Record;
        fillCmd(sub(sub(g_rider(),HIID(l.s())),FCommandAll),l); out("{}");
      }
      else if( op=="riderni" )       // riderni <group> <idx> <cmd>
      {
        if( !g_rider.valid() ) g_rider <<= new DMI::Record;
        DMI::Record &g = sub(g_rider(),HIID(l.s()));
        int ni=l.i();
        fillCmd(sub(sub(g,FCommandByNodeIndex),HIID(AtomicID(ni))),l); out("{}");
      }
      else if( op=="riderlist" )     // riderlist <group> <names> <indices> <cmd>
      {
        if( !g_rider.valid() ) g_rider <<= new DMI::Record;
        DMI::Record &g = sub(g_rider(),HIID(l.s()));
        std::vector<std::string> nm=l.sv(); std::vector<int> ix=l.iv();
        if( !g[FCommandByList].exists() ) g[FCommandByList] <<= new DMI::List;
        DMI::List &lst = g[FCommandByList].as_wr<DMI::List>();
        DMI::Record::Ref eref; DMI::Record &e = eref <<= new DMI::Record;
        if( nm.size()==1 ) e[FName]=nm[0]; else if( !nm.empty() ) e[FName]=nm;
        if( ix.size()==1 ) e[FNodeIndex]=ix[0]; else if( !ix.empty() ) e[FNodeIndex]=ix;
        fillCmd(e,l);
        lst.addBack(&e); out("{}");
      }
      else
        Line::die(("unknown op "+op).c_str());
    }
    catch( std::exception &e )
    { out(Obj().s("exc",excstr(e))); }
  }
  fflush(stdout);
  _exit(0);
}
