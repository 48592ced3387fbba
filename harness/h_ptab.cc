// Drives the real Meq::FastParmTable (the table of parameter solutions), including processes that die
// (commands between "fork" and "die" are done by a child process that then ends at once) and several threads.
#include <MEQ/FastParmTable.h>
#include <MEQ/Polc.h>
#include <MEQ/PolcLog.h>
#include <MEQ/Domain.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include "vutil.h"
#include "vexc.h"
using namespace Meq;
using namespace vu;
using std::string; using std::vector;

static FastParmTable *tab = 0;
static const char *DIR_ = "ptab";     // in the scratch directory the driver runs in

static vector<string> split (const string &v,char c)
{
  vector<string> r; std::istringstream is(v); string t;
  while( std::getline(is,t,c) ) r.push_back(t);
  return r;
}
static Domain mkdom (const string &s)
{
  Domain d;
  if( s == "-" ) return d;
  vector<string> x = split(s,',');
  for( size_t i=0;i<x.size();i++ )
  {
    vector<string> y = split(x[i],':');
    d.defineAxis(atoi(y[0].c_str()),atof(y[1].c_str()),atof(y[2].c_str()));
  }
  return d;
}
static long whole (double x)     // all bounds used are small whole numbers
{ return fabs(x) < 1e6 && x == floor(x) ? long(x) : -999999; }
static string showdom (const Domain &d)
{
  string r = "[";
  for( int i=0;i<Axis::MaxAxis;i++ )
    if( d.isDefined(i) )
    {
      if( r.size()>1 ) r += ",";
      char b[80]; snprintf(b,80,"[%d,%ld,%ld]",i,whole(d.start(i)),whole(d.end(i)));
      r += b;
    }
  return r+"]";
}
// c5 constant, p5,3 polynomial, l5,3 logarithmic, q1,2,3,4 two axes
static Funklet * mkfunk (const string &s)
{
  vector<string> x = split(s.substr(1),',');
  if( s[0] == 'c' )
    return new Polc(atof(x[0].c_str()),1e-6,1.,-1);
  if( s[0] == 'q' )
  {
    LoMat_double m(2,2);
    for( int i=0;i<4;i++ ) m(i/2,i%2) = atof(x[i].c_str());
    return new Polc(m);
  }
  LoVec_double v(x.size());
  for( size_t i=0;i<x.size();i++ ) v(int(i)) = atof(x[i].c_str());
  if( s[0] == 'l' ) return new PolcLog(v);
  return new Polc(v);
}
static string showval (const Funklet &f)
{
  const DMI::NumArray &c = f.coeff();
  string r = f.objectType() == TpMeqPolcLog ? "l" : f.objectType() != TpMeqPolc ? "?" : c.size() == 1 ? "c" : c.rank() == 2 && c.shape()[1] > 1 ? "q" : "p";
  const double *d = static_cast<const double*>(c.getConstDataPtr());
  for( int i=0;i<c.size();i++ )
  {
    char b[40]; snprintf(b,40,"%s%.17g",i?",":"",d[i]);
    r += b;
  }
  return r;
}
static string showfunk (const Funklet &f)
{ return Obj().s("v",showval(f)).raw("dom",showdom(f.domain())).n("id",f.getDbId()).str(); }

struct Put { string name,val,dom; int ask,id; string err; };
static void doput (Put &p)
{
  try
  {
    Funklet::Ref f(mkfunk(p.val));
    f().setDomain(new Domain(mkdom(p.dom)));
    f().setDbId(p.ask);
    p.id = tab->putCoeff(p.name,*f);
  }
  catch( std::exception &e ) { p.err = excstr(e); }
}
struct Job { vector<Put> p; };
static void * runjob (void *a)
{
  Job *j = static_cast<Job*>(a);
  for( size_t i=0;i<j->p.size();i++ ) doput(j->p[i]);
  return 0;
}

static string dump ()
{
  // all funklets found by iterating, and the list of domains
  vector<string> v;
  string name; int id;
  for( bool more = tab->firstFunklet(name,id); more; more = tab->nextFunklet(name,id) )
  {
    Obj o; o.s("p",name).n("n",id);
    if( id<0 || id >= int(tab->domainList().size()) )
      o.raw("f",Obj().s("v","nodomain").raw("dom","[]").n("id",id).str());
    else
    {
      Funklet::Ref f;
      int r = tab->getFunklet(f,name,id);
      o.raw("f",r ? showfunk(*f) : Obj().s("v","gone").raw("dom","[]").n("id",id).str());
    }
    v.push_back(o.str());
  }
  std::sort(v.begin(),v.end());
  string r;
  for( size_t i=0;i<v.size();i++ ) r += (i?",":"")+v[i];
  string d;
  for( size_t i=0;i<tab->domainList().size();i++ )
  {
    Domain::Ref dr;
    d += (i?",":"")+showdom(tab->domainList()[i].makeDomain(dr));
  }
  return "\"all\":["+r+"],\"doms\":["+d+"]";
}

static string command (Line &l,const string &c)
{
  if( c=="open" )
  {
    bool w = l.i();
    tab = new FastParmTable(DIR_,w);
    return "{}";
  }
  if( c=="close" ) { delete tab; tab = 0; return "{}"; }
  if( c=="flush" ) { tab->flush(); return "{}"; }
  if( c=="put" )
  {
    Put p; p.name = l.s(); p.val = l.s(); p.dom = l.s(); p.ask = l.i();
    doput(p);
    if( !p.err.empty() ) return Obj().s("exc",p.err).str();
    return Obj().n("id",p.id).str();
  }
  if( c=="get" )
  {
    string n = l.s(); int id = l.i();
    Funklet::Ref f;
    int r = tab->getFunklet(f,n,id);
    return r ? "{\"f\":["+showfunk(*f)+"]}" : "{\"f\":[]}";
  }
  if( c=="find" )
  {
    string n = l.s();
    Domain::Ref d(new Domain(mkdom(l.s())));
    vector<Funklet::Ref> v;
    int k = tab->getFunklets(v,n,*d);
    string r;
    for( size_t i=0;i<v.size();i++ ) r += (i?",":"")+showfunk(*v[i]);
    return "{\"n\":"+num(k)+",\"f\":["+r+"]}";
  }
  if( c=="del" ) { string n = l.s(); tab->deleteFunklet(n,l.i()); return "{}"; }
  if( c=="delall" ) { tab->deleteAllFunklets(l.s()); return "{}"; }
  if( c=="dump" ) return "{"+dump()+"}";
  if( c=="mt" )    // threads, each: n (name value domain ask)*
  {
    int nt = l.i();
    vector<Job> j(nt);
    for( int t=0;t<nt;t++ )
    {
      int n = l.i();
      for( int k=0;k<n;k++ )
      { Put p; p.name = l.s(); p.val = l.s(); p.dom = l.s(); p.ask = l.i(); p.id = -9; j[t].p.push_back(p); }
    }
    vector<pthread_t> th(nt);
    for( int t=0;t<nt;t++ ) pthread_create(&th[t],0,runjob,&j[t]);
    for( int t=0;t<nt;t++ ) pthread_join(th[t],0);
    string ids;
    for( int t=0;t<nt;t++ )
    {
      vector<int> v;
      for( size_t k=0;k<j[t].p.size();k++ )
      {
        if( !j[t].p[k].err.empty() ) return Obj().s("exc",j[t].p[k].err).str();
        v.push_back(j[t].p[k].id);
      }
      ids += (t?",":"")+arr(v);
    }
    return "{\"ids\":["+ids+"],"+dump()+"}";
  }
  Line::die("unknown command");
  return "";
}

static void wipe ()
{
  if( tab ) delete tab;
  tab = 0;
  unlink("ptab/domains"); unlink("ptab/funklets"); rmdir("ptab");
}

int main ()
{
  vector<string> lines;
  string s;
  while( std::getline(std::cin,s) ) if( !s.empty() ) lines.push_back(s);
  for( size_t i=0;i<lines.size();i++ )
  {
    Line l(lines[i]);
    string c = l.s();
    if( c=="reset" ) { wipe(); out("{}"); continue; }
    if( c=="fork" )
    {
      out("{}");
      pid_t p = fork();
      if( p )
      {
        int st; waitpid(p,&st,0);
        if( st ) _exit(98);
        while( lines[i].compare(0,3,"die") ) i++;
      }
      continue;
    }
    if( c=="die" ) { out("{}"); _exit(0); }
    try { out(command(l,c)); }
    catch( std::exception &e ) { out(Obj().s("exc",excstr(e))); }
    catch( ... ) { out(Obj().s("exc","?")); }
  }
  wipe();
  return 0;
}
