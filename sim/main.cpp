// Driver: batches of forked runs, replay of a file, minimisation of a failing run.
#include "core.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>
#include <sys/personality.h>
#include <fstream>
#include <sstream>
static double nowS(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec/1e9; }
struct Result{ int status; int hasViol; std::string cls,detail,props; uint64_t hash; int64_t simt; uint64_t events; bool crash; };
static void resetShared(){ memset((void*)SH,0,sizeof *SH); }
static std::string asanText;
// a library call that takes more than 15 s of processor time hangs; a run whose many calls take 120 s is cut off
static void cpuTick(int){ static uint64_t last=~0ULL; static int same=0,all=0; if(inCall&&outerCalls==last) same++; else same=0; last=outerCalls; all++; if(same>=3) _exit(79); if(all>=24){ SH->probe[P_TRUNC]=SH->probe[P_TRUNC]+1; SH->done=1; _exit(0); } }
static Result runSide(const Scenario& sc,bool trace){
  resetShared(); SH->hash=H(1,2,3); char log[64]; snprintf(log,64,"/tmp/rmcsim.%d.err",getpid()); fflush(stdout);
  pid_t p=fork();
  if(!p){ struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=cpuTick; sa.sa_flags=SA_RESTART; sigaction(SIGVTALRM,&sa,nullptr); struct itimerval it={{5,0},{5,0}}; setitimer(ITIMER_VIRTUAL,&it,nullptr); struct rlimit rl={(rlim_t)300,(rlim_t)302}; setrlimit(RLIMIT_CPU,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl); if(!freopen(log,"w",stderr)) _exit(70); W.trace=trace; traceOut=stdout; runScenario(sc); fflush(traceOut); _exit(0); }
  int st=0; waitpid(p,&st,0); Result r; r.status=st; r.crash=false; r.hash=SH->hash; r.simt=SH->now; r.events=SH->events;
  r.hasViol=SH->hasViol; if(r.hasViol){ r.cls=SH->vclass; r.detail=SH->vdetail; r.props=SH->vprops; }
  else if(SH->done!=1){ r.hasViol=1; r.crash=true; r.props="*"; std::string t; { std::ifstream f(log); std::stringstream b; b<<f.rdbuf(); t=b.str(); } asanText=t; std::string fn="?"; size_t q=t.find("ERROR: AddressSanitizer: "); 
    if(q!=std::string::npos){ size_t e=t.find_first_of(" \n",q+25); r.cls="asan-"+t.substr(q+25,e-q-25); size_t z=q; while((z=t.find(" in ",z))!=std::string::npos){ z+=4; size_t y=t.find_first_of(" \n(",z); std::string f=t.substr(z,y-z); if(f.compare(0,4,"sim_")&&f.compare(0,2,"__")&&f!="memcpy"&&f!="memset"&&f!="memmove"&&f!="free"&&f!="malloc"){ fn=f; break; } } r.detail="memory error in "+fn; }
    else if((WIFEXITED(st)&&WEXITSTATUS(st)==79)||(WIFSIGNALED(st)&&WTERMSIG(st)==SIGXCPU)){ r.cls="hang"; r.detail="a library call does not return"; }
    else if(WIFSIGNALED(st)){ char b[80]; snprintf(b,80,"signal-%d",WTERMSIG(st)); r.cls=b; r.detail=std::string("the library crashed with ")+strsignal(WTERMSIG(st)); }
    else { char b[80]; snprintf(b,80,"exit-%d",WEXITSTATUS(st)); r.cls=b; r.detail="the run ended unexpectedly"; }
    r.hash=H(0xBAD,H(r.cls.size(),r.cls[0]),SH->events); }
  unlink(log); return r; }
static Result runPair(const Scenario& sc,bool trace){
  if(!sc.cfg.pair){ pairSide=0; return runSide(sc,trace); }
  PS->n[0]=PS->n[1]=PS->m[0]=PS->m[1]=0; memset(PS->lv,0,sizeof PS->lv);
  pairSide=1; if(trace) printf("######## varied run\n"); Result b=runSide(sc,trace); std::set<uint32_t> fb; for(uint32_t i=0;i<SH->nfired&&i<MAXFIRED;i++) fb.insert(SH->fired[i]); uint32_t le=SH->faultCount[F_LOGERR],lo=SH->faultCount[F_LOGOP],pr=SH->probe[P_PRIOR];
  if(b.hasViol) { std::string t=asanText; pairSide=0; if(trace) printf("######## reference run\n"); return b; }
  pairSide=0; if(trace) printf("######## reference run\n"); Result a=runSide(sc,trace); if(a.hasViol) return a;
  std::string cls,d=pairCompare(sc,a.hash,b.hash,cls); SH->faultCount[F_LOGERR]+=le; SH->faultCount[F_LOGOP]+=lo; SH->probe[P_PRIOR]+=pr; SH->probe[P_PAIRS]++; for(uint32_t f:fb) { bool in=false; for(uint32_t i=0;i<SH->nfired&&i<MAXFIRED;i++) if(SH->fired[i]==f){ in=true; break; } if(!in&&SH->nfired<MAXFIRED){ SH->fired[SH->nfired]=f; SH->nfired=SH->nfired+1; } }
  a.hash=H(a.hash,b.hash); if(!d.empty()){ a.hasViol=1; a.cls=cls; a.detail=d; a.props=sc.prop; } return a; }
// A violation of another property belongs to this one too if it does not happen without what this property is about:
// stuck and misbehaving peers (C07), the poll driver (C10), full tables and failed activations (C11), failing system calls (C21), malformed input and misbehaving peers (C15), restarts and reconnects (C16), refused calls (C20),
// configured addresses (C22). The same scenario is run again without them, in twelve schedules; only if none of these runs breaks anything is it reported.
static const char* without(const std::string& p,Scenario& s){
  Cfg& c=s.cfg; auto drop=[&](std::initializer_list<int> k){ s.ops.erase(std::remove_if(s.ops.begin(),s.ops.end(),[&](const Op& o){ return std::find(k.begin(),k.end(),o.k)!=k.end(); }),s.ops.end()); };
  auto quiet=[&](std::initializer_list<uint32_t> k){ std::set<uint32_t> f; for(uint32_t x:s.fired) if(std::find(k.begin(),k.end(),x>>24)==k.end()) f.insert(x); s.fired=f; };
  if(p=="C21"){ c.pWEagain=c.pRAgain=c.pSendEagain=c.pSendErr=c.pRecvErr=c.pConnErr=c.pAccErr=c.pSockErr=c.pOptErr=c.pGetOptErr=c.pBindErr=c.pListenErr=c.pNameErr=c.pRxBad=0; quiet({F_WEAGAIN,F_RDAGAIN,F_SENDEAGAIN,F_SENDERR,F_RECVERR,F_CONNERR,F_ACCERR,F_SOCKERR,F_OPTERR,F_GETOPTERR,F_BINDERR,F_LISTENERR,F_NAMEERR,F_RXBAD}); drop({O_UDPBLOCK}); return "failing system calls"; }
  if(p=="C15"){ c.pRxBad=c.stray=0; quiet({F_RXBAD,F_STRAY}); drop({O_GARB,O_ROGUEC,O_ROGUEP}); return "malformed input and misbehaving peers"; }
  if(p=="C16"){ c.pRejectP=c.pRejectS=0; drop({O_RST,O_PCLOSE,O_SCLOSE,O_CRASH,O_GRACE,O_REACT,O_ROGUEC,O_ROGUEP}); return "restarts and lost connections"; }
  if(p=="C20"){ drop({O_BADCALL}); return "refused calls"; }
  if(p=="C22"){ c.grpMode=c.ipMode=c.anyListen=c.mcastIf=c.ephemeral=c.shareHost=c.zeroId=c.selfId=0; drop({O_TTL,O_UDATA}); return "unusual addresses, interfaces and settings"; }
  if(p=="C07"){ c.stuck=0; drop({O_ROGUEC,O_ROGUEP,O_GARB}); return "stuck and misbehaving peers"; }
  if(p=="C10"){ c.driver=c.nullPoll=0; c.evPerLoop=64; return "the way this application polls"; }
  if(p=="C11"){ c.maxSubs=std::max<int64_t>(c.maxSubs,64); c.maxPubs=std::max<int64_t>(c.maxPubs,64); c.pSockErr=c.pOptErr=c.pBindErr=c.pListenErr=c.pNameErr=0; quiet({F_SOCKERR,F_OPTERR,F_BINDERR,F_LISTENERR,F_NAMEERR}); return "full connection tables and failed activations"; }
  return nullptr; }
static int failed=0;
static Result runOne(const Scenario& sc,bool trace){
  static Shared none,keep; Result r=runPair(sc,trace); Scenario c=sc; const char* what;
  if(r.hasViol||!SH->indirect||sc.cfg.pair||anyProp||failed>=40||!(what=without(sc.prop,c))) return r;
  memcpy((void*)&none,(void*)SH,sizeof keep); indirectMode=1; Result d=runPair(sc,trace); indirectMode=0; memcpy((void*)&keep,(void*)SH,sizeof keep); std::string text=asanText; c.prop="";
  for(int k=0;k<12;k++){ Scenario x=c; if(k) x.seed=H(c.seed,k); Result q=runPair(x,false); if(!q.hasViol) continue; failed++; memcpy((void*)SH,(void*)&none,sizeof keep); return r; } // the same scenario and eleven other schedules of it
  memcpy((void*)SH,(void*)&keep,sizeof keep); asanText=text; d.props=sc.prop; d.detail+=std::string(" (this does not happen without ")+what+")"; return d; }
static std::set<uint32_t> firedSet(){ std::set<uint32_t> f; for(uint32_t i=0;i<SH->nfired&&i<MAXFIRED;i++) f.insert(SH->fired[i]); return f; }
static bool same(const Result& a,const std::string& cls){ return a.hasViol&&a.cls==cls; }
static Scenario shrink(Scenario s,const std::string& cls,double budget,int& tries){
  double end=nowS()+budget; auto ok=[&](const Scenario& x){ tries++; Result r=runOne(x,false); return same(r,cls); };
  if(!ok(s)) return s;
  auto ddops=[&]{ size_t ch=std::max<size_t>(1,s.ops.size()/2); while(nowS()<end){ bool any=false; for(size_t i=0;i<s.ops.size()&&nowS()<end;){ Scenario t=s; size_t e=std::min(t.ops.size(),i+ch); t.ops.erase(t.ops.begin()+i,t.ops.begin()+e); if(ok(t)){ s=t; any=true; } else i+=ch; } if(ch==1&&!any) break; if(ch>1) ch=(ch+1)/2; else if(!any) break; } };
  auto ddfault=[&]{ std::vector<uint32_t> f(s.fired.begin(),s.fired.end()); size_t ch=std::max<size_t>(1,f.size()); while(nowS()<end&&!f.empty()){ bool any=false; for(size_t i=0;i<f.size()&&nowS()<end;){ std::vector<uint32_t> g(f); size_t e=std::min(g.size(),i+ch); g.erase(g.begin()+i,g.begin()+e); Scenario t=s; t.fired=std::set<uint32_t>(g.begin(),g.end()); if(ok(t)){ s=t; f=g; any=true; } else i+=ch; } if(ch==1&&!any) break; if(ch>1) ch=(ch+1)/2; else if(!any) break; } };
  ddops(); ddfault();
  for(int pass=0;pass<2&&nowS()<end;pass++){ Cfg d;
#define X(n,b) if(nowS()<end&&s.cfg.n!=d.n&&strcmp(#n,"clean")&&strcmp(#n,"healAt")&&strcmp(#n,"settle")){ Scenario t=s; t.cfg.n=d.n; if(ok(t)) s=t; }
CFGS(X)
#undef X
    for(size_t i=0;i<s.ops.size()&&nowS()<end;i++){ Scenario t=s; if(t.ops[i].k==O_QUEUE&&t.ops[i].b>1){ t.ops[i].b=1; if(ok(t)){ s=t; continue; } t=s; t.ops[i].b=(t.ops[i].b+1)/2; if(ok(t)) s=t; } } 
    if(pass==0) { ddops(); ddfault(); } }
  return s; }
static std::string esc(const std::string& s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
static std::string slurp(const char* f){ std::ifstream i(f); std::stringstream b; b<<i.rdbuf(); return b.str(); }
// batch: worker w of n takes seed indices i with i%n==w; one line of JSON per run is reduced into totals
struct Tot{ uint64_t runs,viol,hashXor; int64_t simt; uint64_t events,api; uint64_t fc[F_NSITES],pr[64],kn[8]; };
int main(int argc,char** argv){
  if(argc>1&&!getenv("RMCSIM_NOASLR")){ setenv("RMCSIM_NOASLR","1",1); int o=personality(0xffffffff); if(o>=0&&!(o&ADDR_NO_RANDOMIZE)&&personality(o|ADDR_NO_RANDOMIZE)>=0) execv("/proc/self/exe",argv); }
  std::map<std::string,std::string> a; for(int i=1;i+1<argc;i+=2) a[argv[i]]=argv[i+1]; std::string mode=a.count("--mode")?a["--mode"]:""; std::string prop=a["--prop"];
  anyProp=a.count("--anyprop")>0;
  if(a.count("--known")) knownMask=strtoul(a["--known"].c_str(),0,0);
  SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  PS=(PairShared*)mmap(nullptr,sizeof(PairShared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(mode=="one"){ uint64_t seed=strtoull(a["--seed"].c_str(),0,0); Scenario s=generate(seed,prop); Result r=runOne(s,a.count("--trace")>0); printf("seed %llu hash %016llx viol %d class %s: %s (sim %.3fs events %llu)\n",(unsigned long long)seed,(unsigned long long)r.hash,r.hasViol,r.cls.c_str(),r.detail.c_str(),r.simt/1e6,(unsigned long long)r.events); if(r.crash) printf("%s\n",asanText.substr(0,6000).c_str()); if(a.count("--dump")){ s.fired=firedSet(); std::ofstream(a["--dump"])<<dumpScenario(s); } return r.hasViol?1:0; }
  if(mode=="replay"){ Scenario s; if(!loadScenario(slurp(a["--file"].c_str()),s)){ printf("cannot read replay file\n"); return 2; } if(!prop.empty()) s.prop=prop; Result r=runOne(s,a.count("--trace")>0); printf("replay hash %016llx viol %d class %s: %s\n",(unsigned long long)r.hash,r.hasViol,r.cls.c_str(),r.detail.c_str()); if(r.crash&&a.count("--trace")) printf("%s\n",asanText.substr(0,6000).c_str()); return r.hasViol?1:0; }
  if(mode=="shrink"){ failed=-1000000; uint64_t seed=strtoull(a["--seed"].c_str(),0,0); Scenario s=generate(seed,prop); Result r=runOne(s,false); if(!r.hasViol){ printf("no violation\n"); return 2; } Result r2=runOne(s,false); if(r2.hash!=r.hash||!same(r2,r.cls)){ printf("not repeatable\n"); return 2; }
    s.fired=firedSet(); s.replay=true; Result r3=runOne(s,false); if(!same(r3,r.cls)){ printf("replay differs: %s %s\n",r3.cls.c_str(),r3.detail.c_str()); return 2; }
    int tries=0; size_t o0=s.ops.size(),f0=s.fired.size(); Scenario m=shrink(s,r.cls,atof(a["--budget"].c_str()),tries); Result r4=runOne(m,false); if(!same(r4,r.cls)) { m=s; r4=r3; } std::ofstream f(a["--out"]); f<<dumpScenario(m)<<"# class "<<r4.cls<<"\n# "<<r4.detail<<"\n# expected hash "; char b[32]; snprintf(b,32,"%016llx",(unsigned long long)r4.hash); f<<b<<"\n"; f.close();
    printf("{\"class\":\"%s\",\"detail\":\"%s\",\"props\":\"%s\",\"ops_before\":%zu,\"ops\":%zu,\"faults_before\":%zu,\"faults\":%zu,\"tries\":%d}\n",esc(r4.cls).c_str(),esc(r4.detail).c_str(),esc(r4.props).c_str(),o0,m.ops.size(),f0,m.fired.size(),tries); return 0; }
  if(mode=="batch"){ uint64_t base=strtoull(a["--seed"].c_str(),0,0); uint64_t n=strtoull(a["--n"].c_str(),0,0),from=a.count("--from")?strtoull(a["--from"].c_str(),0,0):0,step=a.count("--step")?strtoull(a["--step"].c_str(),0,0):1; double budget=atof(a["--budget"].c_str()),end=nowS()+budget; Tot t; memset(&t,0,sizeof t); std::string kd[8]; int maxv=a.count("--maxviol")?atoi(a["--maxviol"].c_str()):1; std::string hashes; bool all=a.count("--all")>0; uint64_t tested=0;
    const char* stopf=a.count("--stop")?a["--stop"].c_str():nullptr;
    for(uint64_t i=from;i<n;i+=step){ if(nowS()>end||(stopf&&access(stopf,F_OK)==0)) break; uint64_t seed=H(base,i)>>1; Scenario s=generate(seed,prop); Result r=runOne(s,false); tested++; t.runs++; t.simt+=r.simt; t.events+=r.events; t.api+=SH->api; for(int k=0;k<F_NSITES;k++) t.fc[k]+=SH->faultCount[k]; for(int k=0;k<64;k++) t.pr[k]+=SH->probe[k]; for(int k=0;k<8;k++){ t.kn[k]+=SH->known[k]; if(SH->known[k]&&kd[k].empty()) kd[k]=std::string(SH->knownDetail[k])+" (seed "+std::to_string(seed)+")"; }
      char b[200]; snprintf(b,200,"R %llu %llu %016llx %lld %llu\n",(unsigned long long)i,(unsigned long long)seed,(unsigned long long)r.hash,(long long)r.simt,(unsigned long long)r.events); hashes+=b;
      if(r.hasViol){ t.viol++; printf("V %llu %llu %s|%s|%s\n",(unsigned long long)i,(unsigned long long)seed,r.cls.c_str(),r.props.c_str(),r.detail.c_str()); fflush(stdout); if(!all&&(int)t.viol>=maxv) break; } }
    printf("%s",hashes.c_str()); printf("T runs %llu\nT viol %llu\nT simt %lld\nT events %llu\nT api %llu\n",(unsigned long long)t.runs,(unsigned long long)t.viol,(long long)t.simt,(unsigned long long)t.events,(unsigned long long)t.api); for(int k=0;k<F_NSITES;k++) if(t.fc[k]) printf("F %s %llu %s\n",siteName[k],(unsigned long long)t.fc[k],siteDesc[k]); for(int k=0;k<P_N;k++) printf("P %s %llu\n",probeName[k],(unsigned long long)t.pr[k]); for(int k=0;k<KF_N;k++) if(t.kn[k]) printf("K %d %llu %s\n",k,(unsigned long long)t.kn[k],kd[k].c_str()); return 0; }
  fprintf(stderr,"usage: rmcsim --mode one|batch|replay|shrink ...\n"); return 2; }
