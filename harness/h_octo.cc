// Runs scripted work processes on the real dispatcher, with virtual time, scripted file
// descriptors and signals, and an event thread that runs only when the script says so.
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WorkProcess.h>
#include <DMI/Timestamp.h>
#include "vutil.h"
#include "vexc.h"
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
#include <math.h>
#include <dlfcn.h>
#include <sys/syscall.h>
using namespace Octopussy;
using namespace DMI;
using namespace vu;
using std::string; using std::vector; using std::map; using std::pair;

// ---------------------------------------------------------------- virtual time, select
static long VNOW = 1000000;             // seconds
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  cv = PTHREAD_COND_INITIALIZER;
static int  idle=0, go=0;               // rounds: the event thread is waiting / may go
static bool freerun=false;
static vector<pair<int,int> > ready;    // fd, flags
static vector<int> sigs;
static pthread_t MAIN;

extern "C" int gettimeofday (struct timeval *tv,void *)
{ tv->tv_sec=VNOW; tv->tv_usec=0; return 0; }

// What select() would do: it returns when a signal is sent to the event thread, when a
// watched descriptor is ready, or when its time is up; nothing else wakes it.
// What the script does happens while the event thread is inside select(), or (gap mode) when it
// has just made up its mind what to wait for and is about to call it: then a signal counts
// only if it has been kept pending.
static bool GAP=false, hears=true;
static bool kicked=false, timed=false; static long deadline=0;
static int watched_n=0; static fd_set *watched[3]={0,0,0};
extern "C" int pthread_kill (pthread_t t,int sig)
{
  static int (*real)(pthread_t,int)=0;
  if( !real ) real=(int(*)(pthread_t,int))dlsym(RTLD_NEXT,"pthread_kill");
  if( sig!=SIGUSR1 || pthread_equal(t,MAIN) ) return real(t,sig);
  pthread_mutex_lock(&mx); if( hears ) kicked=true; pthread_mutex_unlock(&mx);
  return 0;
}
static int event_round (int n,fd_set *r,fd_set *w,fd_set *x,bool hast,double tmo,const sigset_t *mask)
{
  sigset_t cur; pthread_sigmask(SIG_BLOCK,0,&cur);
  bool out=sigismember(&cur,SIGUSR1), in=sigismember(mask?mask:&cur,SIGUSR1);
  pthread_mutex_lock(&mx);
  idle++;
  hears = !in && (!GAP || out);
  watched_n=n; watched[0]=r; watched[1]=w; watched[2]=x; timed=hast; deadline=VNOW+long(ceil(tmo-1e-4));
  pthread_cond_broadcast(&cv);
  while( !go && !freerun ) pthread_cond_wait(&cv,&mx);
  bool kick=kicked||freerun;
  kicked=false;
  go=0;
  vector<pair<int,int> > rd=ready; 
  vector<int> sg=sigs;
  if( !kick ) { ready.clear(); sigs.clear(); }
  pthread_mutex_unlock(&mx);
  sigset_t old; if( mask ) pthread_sigmask(SIG_SETMASK,mask,&old);
  if( kick ) sg=vector<int>(1,SIGUSR1);
  for( size_t k=0;k<sg.size();k++ )
  {
    struct sigaction sa; sigaction(sg[k],0,&sa);
    if( sa.sa_handler!=SIG_DFL && sa.sa_handler!=SIG_IGN ) raise(sg[k]);
  }
  if( mask ) pthread_sigmask(SIG_SETMASK,&old,0);
  if( kick ) { errno=EINTR; return -1; }
  fd_set *sets[3]={r,w,x}; int cnt=0;
  for( int s=0;s<3;s++ ) if( sets[s] )
  {
    fd_set f; FD_ZERO(&f);
    for( size_t k=0;k<rd.size();k++ )
      if( rd[k].second&(0x100<<s) && rd[k].first<n && FD_ISSET(rd[k].first,sets[s]) ) { FD_SET(rd[k].first,&f); cnt++; }
    *sets[s]=f;
  }
  return cnt;
}
extern "C" int select (int n,fd_set *r,fd_set *w,fd_set *x,struct timeval *tv)
{
  if( pthread_equal(pthread_self(),MAIN) )
  { if( r ) FD_ZERO(r); if( w ) FD_ZERO(w); if( x ) FD_ZERO(x); return 0; }
  return event_round(n,r,w,x,tv!=0,tv?tv->tv_sec+tv->tv_usec*1e-6:0,0);
}
extern "C" int pselect (int n,fd_set *r,fd_set *w,fd_set *x,const struct timespec *ts,const sigset_t *mask)
{ return event_round(n,r,w,x,ts!=0,ts?ts->tv_sec+ts->tv_nsec*1e-9:0,mask); }

static void wait_idle (int target)
{
  pthread_mutex_lock(&mx);
  struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); ts.tv_sec+=10;
  while( idle<target ) if( pthread_cond_timedwait(&cv,&mx,&ts)==ETIMEDOUT ) { fprintf(stderr,"event thread stuck\n"); _exit(96); }
  pthread_mutex_unlock(&mx);
}
static void one_round ()
{
  pthread_mutex_lock(&mx);
  int t=idle+1; go=1;
  pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mx);
  wait_idle(t);
}
static void round_of_events (int dt,const vector<pair<int,int> > &rd,const vector<int> &sg)
{
  for( int k=0; kicked; k++ ) { if( k>100 ) { fprintf(stderr,"event thread spins\n"); _exit(96); } one_round(); }
  VNOW+=dt;
  bool wake = timed && VNOW>=deadline;
  for( size_t k=0;k<rd.size();k++ ) for( int s=0;s<3;s++ )
    if( watched[s] && rd[k].second&(0x100<<s) && rd[k].first<watched_n && FD_ISSET(rd[k].first,watched[s]) ) wake=true;
  for( size_t k=0;k<sg.size();k++ )
  {
    struct sigaction sa; sigaction(sg[k],0,&sa);
    if( sa.sa_handler!=SIG_DFL && sa.sa_handler!=SIG_IGN && hears ) wake=true;
  }
  if( !wake ) return;
  ready=rd; sigs=sg;
  one_round();
}

// ---------------------------------------------------------------- identifiers
static AtomicID aid (int c)
{
  switch( c )
  {
    case -1: return AidAny;       case -2: return AidWildcard;
    case -20: return AidLocal;    case -21: return AidPublish;  case -22: return AidWP;
    case -23: return AidEvent;    case -24: return AidTimeout;  case -25: return AidInput;
    case -26: return AidSignal;   case -27: return AidSubscribe; case -28: return AidHello;
    case -29: return AidBye;      case -30: return AidState;    case -31: return AidDispatcher;
  }
  if( c<=-10 ) return AtomicID(-900000+c+10);
  return AtomicID(c);
}
static int code (AtomicID a)
{
  int v=a;
  if( v>=0 ) return v;
  if( v<=-900000 ) return v+900000-10;
  for( int c=-31;c<=-20;c++ ) if( aid(c)==a ) return c;
  for( int c=-2;c<0;c++ ) if( aid(c)==a ) return c;
  return -500;
}
static HIID hiid (const vector<int> &v) { HIID h; for( size_t k=0;k<v.size();k++ ) h.add(aid(v[k])); return h; }
static void app (vector<int> &v,const HIID &h) { for( size_t k=0;k<h.size();k++ ) v.push_back(code(h[k])); }
static int uidof (const Message &m)
{
  const HIID &id=m.id();
  if( id.empty() ) return -3;
  if( id[0]==AidEvent ) return -2;
  if( code(id[0])<=-20 || id.size()<2 ) return -1;
  return id[id.size()-1];
}

// ---------------------------------------------------------------- log and plans
static vector<string> LOG;
static void lg (const char *k,int w,int n,const vector<int> &v)
{ LOG.push_back(Obj().s("k",k).n("w",w).n("n",n).raw("v",arr(v)).str()); }
static void lg (const char *k,int w,int n) { lg(k,w,n,vector<int>()); }

struct Step { int res; vector<vector<string> > acts; };
static map<pair<int,int>,vector<Step> > PLAN;     // (slot, uid) -> what to do, one per delivery
static Dispatcher *DSP=0;
static const int NSIG_=3; static const int SIGS[NSIG_]={SIGUSR2,SIGALRM,SIGURG};

class VWP : public WorkProcess
{
  public:
    int slot; int depth; bool attached; vector<int> gw;
    VWP (int s,AtomicID cls,bool ac) : WorkProcess(cls),slot(s),depth(0),attached(false) { setAutoCatch(ac); }
    virtual string sdebug (int,const string &,const char *) const { return "vwp"; }
    virtual bool willForward (const Message &m) const
    {
      int h=code(m.to().host());
      if( h==-1 ) return true;
      for( size_t k=0;k<gw.size();k++ ) if( gw[k]==h ) return true;
      return false;
    }
    int callback (int key,Message::Ref *mref);
    void act (const vector<string> &a,Message::Ref *mref);
    virtual void init () { if( !gw.empty() ) dsp()->declareForwarder(this); lg("ini",slot,0); callback(-1,0); }
    virtual bool start () { lg("sta",slot,0); return callback(-2,0)==1; }
    virtual void stop () { lg("stp",slot,0); callback(-3,0); }
    virtual int receive (Message::Ref &mref)
    {
      const Message &m=*mref;
      vector<int> v; v.push_back(m.priority()); v.push_back(m.state());
      app(v,m.from()); app(v,m.to()); app(v,m.id());
      if( m.id().size()>1 && m.id()[0]==AidWP && m.id()[1]==AidSubscribe )
      {
        v.push_back(-99);
        Subscriptions s; s.unpack(m.data(),m.datasize());
        size_t sz=s.packSize(); vector<char> b(sz+1);
        size_t left=sz; s.pack(&b[0],left);
        if( sz!=m.datasize() || memcmp(&b[0],m.data(),sz) ) v.push_back(-96);
        // the packed form: count, pairs of sizes, then the identifiers
        const size_t *h=(const size_t*)m.data(); size_t n=*h++; const char *d=(const char*)m.data()+sizeof(size_t)*(1+2*n);
        for( size_t k=0;k<n;k++ )
        {
          HIID a,b; a.unpack(d,h[2*k]); d+=h[2*k]; b.unpack(d,h[2*k+1]); d+=h[2*k+1];
          app(v,a); v.push_back(-98); app(v,b); v.push_back(-97);
        }
      }
      lg("rcv",slot,uidof(m),v);
      return callback(uidof(m),&mref);
    }
    virtual int timeout (const HIID &id)
    { vector<int> v; app(v,id); lg("tmo",slot,0,v); return callback(1000+int(id[id.size()-1]),0); }
    virtual int input (int fd,int flags)
    { vector<int> v; v.push_back(fd); v.push_back(flags>>8); lg("inp",slot,0,v); return callback(2000+fd,0); }
    virtual int signal (int sig)
    { int k=0; while( k<NSIG_ && SIGS[k]!=sig ) k++; lg("sig",slot,k); return callback(3000+k,0); }
};
static const int NW=8;
static VWP *W[NW]; static WPRef REF[NW];

int VWP::callback (int key,Message::Ref *mref)
{
  vector<Step> &p=PLAN[std::make_pair(slot,key)];
  if( p.empty() ) return 0;
  Step s=p.front(); p.erase(p.begin());
  depth++;
  for( size_t k=0;k<s.acts.size();k++ ) act(s.acts[k],mref);
  depth--;
  if( s.res==9 ) throw std::runtime_error("scripted");
  return s.res;
}

struct Tok { const vector<string> &a; size_t p; Tok(const vector<string> &x):a(x),p(1){}
  int i () { if( p>=a.size() ) Line::die("act"); return atoi(a[p++].c_str()); }
  vector<int> v () { int n=i(); vector<int> r(n); for( int k=0;k<n;k++ ) r[k]=i(); return r; } };

void VWP::act (const vector<string> &a,Message::Ref *mref)
{
  Tok t(a); const string &op=a[0];
  try
  {
    int ret=0;
    if( op=="snd" )          // id pri to
    {
      vector<int> id=t.v(); int pri=t.i(); vector<int> to=t.v();
      ret=send(hiid(id),MsgAddress(hiid(to)),0,pri);
    }
    else if( op=="fwd" )
    {
      vector<int> to=t.v();
      if( !mref || !mref->valid() ) { lg("err",slot,0); return; }
      Message::Ref r(*mref,DMI::COW); ret=send(r,MsgAddress(hiid(to)));
    }
    else if( op=="fwx" )     // on the very reference that was passed in
    {
      vector<int> to=t.v();
      if( !mref || !mref->valid() ) { lg("err",slot,0); return; }
      ret=send(*mref,MsgAddress(hiid(to)));
    }
    else if( op=="pub" )
    {
      vector<int> id=t.v(); int pri=t.i(), sc=t.i();
      Message::Ref m(new Message(hiid(id),pri),DMI::ANON|DMI::WRITE); ret=publish(m,0,sc);
    }
    else if( op=="pbi" ) { vector<int> id=t.v(); int pri=t.i(), sc=t.i(); ret=publish(hiid(id),0,sc,pri); }
    else if( op=="sub" ) { vector<int> id=t.v(); vector<int> sc=t.v(); ret=subscribe(hiid(id),MsgAddress(hiid(sc))); }
    else if( op=="sbs" ) { vector<int> id=t.v(); int sc=t.i(); ret=subscribe(hiid(id),sc); }
    else if( op=="uns" ) { vector<int> id=t.v(); ret=unsubscribe(hiid(id)); }
    else if( op=="dqi" )
    {
      vector<int> id=t.v(); int want=t.i(); Message::Ref r;
      dequeue(hiid(id),want?&r:0);
      ret = want && r.valid() ? uidof(*r) : -9;
    }
    else if( op=="dqp" )
    {
      int pos=t.i(), want=t.i(); Message::Ref r;
      dequeue(pos,want?&r:0);
      ret = want && r.valid() ? uidof(*r) : -9;
    }
    else if( op=="sqq" )
    {
      vector<int> id=t.v(); int pos=t.i(); Message::Ref r;
      ret=searchQueue(hiid(id),pos,&r);
      if( ret>=0 && (!r.valid() || !hiid(id).matches(r->id())) ) ret=-77;
    }
    else if( op=="pol" ) { DSP->poll(t.i()); }
    else if( op=="att" )
    {
      int s=t.i();
      if( !W[s] || W[s]->attached ) { lg("err",slot,0); return; }
      W[s]->attached=true; lg("att",slot,s);
      WPRef r(REF[s],DMI::SHARED|DMI::WRITE); DSP->attach(r);
      ret=W[s]->address().inst();
    }
    else if( op=="det" )
    {
      int s=t.i(), delay=t.i();
      if( !W[s] || !W[s]->attached ) { lg("err",slot,0); return; }
      DSP->detach(W[s],delay||W[s]->depth>0);
    }
    else if( op=="mod" ) { if( !mref || !mref->valid() ) { lg("err",slot,0); return; } (*mref)().setState(t.i()); }
    else if( op=="tak" ) { if( !mref || !mref->valid() ) { lg("err",slot,0); return; } Message::Ref mine; mine.xfer(*mref); }
    else if( op=="sta" ) { int s=t.i(), d=t.i(); setState(s,d); }
    else if( op=="tmo" ) { vector<int> id=t.v(); int per=t.i(), fl=t.i(), pri=t.i(); addTimeout(Timestamp(double(per)),hiid(id),fl,pri); }
    else if( op=="rto" ) { vector<int> id=t.v(); ret=removeTimeout(hiid(id)); }
    else if( op=="inp" ) { int fd=t.i(), fl=t.i(), one=t.i(), pri=t.i(); addInput(fd,(fl<<8)|one,pri); }
    else if( op=="rin" ) { int fd=t.i(), fl=t.i(); ret=removeInput(fd,fl<<8); }
    else if( op=="sig" ) { int k=t.i(), fl=t.i(), pri=t.i(); addSignal(SIGS[k],fl,pri); }
    else if( op=="rsg" ) { int k=t.i(); ret=removeSignal(k<0?-1:SIGS[k]); }
    else Line::die("act name");
    lg("act",slot,ret);
  }
  catch( std::exception &e ) { if( getenv("HV") ) fprintf(stderr,"%s\n",excstr(e).c_str()); lg("err",slot,0); }
}

static vector<vector<string> > acts (Line &l)
{
  vector<vector<string> > r; int n=l.i();
  for( int k=0;k<n;k++ ) r.push_back(l.sv());
  return r;
}
static void snapshot (Obj &o)
{
  string q="[";
  for( int s=0;s<NW;s++ ) 
  {
    if( s ) q+=",";
    vector<int> v;
    if( W[s] && W[s]->isAttached() )
    {
      WPInterface::MessageQueue &mq=W[s]->queue();
      for( WPInterface::MessageQueue::iterator i=mq.begin();i!=mq.end();++i ) { v.push_back(uidof(*i->mref)); v.push_back(i->priority); }
      q+="{\"on\":true,\"q\":"+arr(v)+"}";
    }
    else q+="{\"on\":false,\"q\":[]}";
  }
  o.raw("wps",q+"]");
}
static bool STARTED=false;
static void cleanup ()
{
  if( DSP )
  {
    if( STARTED )
    {
      pthread_mutex_lock(&mx); freerun=true; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mx);
      PLAN.clear();
      DSP->stop();
    }
    delete DSP; DSP=0;
  }
  STARTED=false; freerun=false; go=0; idle=0; kicked=false;
  for( int s=0;s<NW;s++ ) { REF[s].detach(); W[s]=0; }
  PLAN.clear(); ready.clear(); sigs.clear(); LOG.clear();
}
int main ()
{
  MAIN=pthread_self();
  for( int k=0;k<6;k++ ) { char n[8]="vqa"; n[2]='a'+k; AtomicID::registerId(-900000-k,n); }
  WPInterface::setLogLevel(-1);
  string s;
  while( std::getline(std::cin,s) )
  {
    Line l(s); if( !l.more() ) continue;
    string op=l.s(); Obj o; string err;
    LOG.clear();
    try
    {
      if( op=="reset" )
      {
        cleanup();
        VNOW=100000000; DSP=new Dispatcher(aid(5),aid(6)); VNOW=1000000;
      }
      else if( op=="gap" ) GAP=l.i();
      else if( op=="wp" )     // slot class autocatch gateway-hosts
      {
        int k=l.i(); int c=l.i(); bool ac=l.i();
        W[k]=new VWP(k,aid(c),ac); W[k]->gw=l.iv(); REF[k]<<=W[k];
      }
      else if( op=="plan" )   // slot uid result acts
      {
        int w=l.i(), u=l.i(); Step st; st.res=l.i(); st.acts=acts(l);
        PLAN[std::make_pair(w,u)].push_back(st);
      }
      else if( op=="attach" )
      {
        int k=l.i(); W[k]->attached=true;
        WPRef r(REF[k],DMI::SHARED|DMI::WRITE); DSP->attach(r);
      }
      else if( op=="start" ) { DSP->start(); STARTED=true; wait_idle(1); }
      else if( op=="stop" )
      {
        pthread_mutex_lock(&mx); freerun=true; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mx);
        DSP->stop(); STARTED=false;
      }
      else if( op=="do" )     // slot acts
      { int w=l.i(); vector<vector<string> > a=acts(l); for( size_t k=0;k<a.size();k++ ) W[w]->act(a[k],0); }
      else if( op=="poll" ) DSP->poll(l.i());
      else if( op=="ev" )     // seconds, ready fds, signals
      {
        int dt=l.i(); vector<pair<int,int> > rd; vector<int> sg;
        int n=l.i(); for( int k=0;k<n;k++ ) { int fd=l.i(); int f=l.i(); rd.push_back(std::make_pair(fd,f<<8)); }
        n=l.i(); for( int k=0;k<n;k++ ) sg.push_back(SIGS[l.i()]);
        round_of_events(dt,rd,sg);
      }
      else Line::die("op");
    }
    catch( std::exception &e ) { err=excstr(e); if( getenv("HV") ) fprintf(stderr,"%s\n",err.c_str()); }
    o.b("err",!err.empty());
    string lgs="["; for( size_t k=0;k<LOG.size();k++ ) { if( k ) lgs+=","; lgs+=LOG[k]; } o.raw("log",lgs+"]");
    snapshot(o);
    out(o);
  }
  cleanup();
  return 0;
}
