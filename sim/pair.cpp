// Pairs of runs of one scenario: a reference run and a run in which something that must not matter is changed
// (the logging settings for C23; memory contents, descriptor numbers, clock origin, earlier contexts for C24).
#include "core.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
extern "C" { int rmc_set_log_level(int); void rmc_log_set_file(FILE*); void rmc_log_use_color(int); void rmc_log_set_start_time(void); }
typedef void (*Ctor)(void);
extern "C" Ctor __start_sim_ctorsA[] __attribute__((weak)); extern "C" Ctor __stop_sim_ctorsA[] __attribute__((weak)); extern "C" Ctor __start_sim_ctorsB[] __attribute__((weak)); extern "C" Ctor __stop_sim_ctorsB[] __attribute__((weak));
extern "C" { int sim_lib=0; } // which of the two copies of the library runs
PairShared* PS; int pairSide=0; FILE* traceOut;
static bool running=false; static char envBuf[16];
// the log targets: in-memory streams whose writes may fail
struct Target{ int id; std::string pend; };
static Target tg[2]={{0,""},{1,""}}; static FILE* tf[2]; static int curT=0,level=0,color=0; static unsigned seg=0; static bool inSet=false,started=false; static Us startAt=0; static bool warm=false;
static void line(Target& t,const std::string& l){
  bool esc=l.find('\033')!=std::string::npos; size_t q=0; // header: colour tag colour time ...
  while(q<l.size()&&l[q]=='\033'){ size_t e=l.find('m',q); if(e==std::string::npos) return; q=e+1; }
  if(q+2>=l.size()||l[q]!='['||l[q+2]!=']') return; static const char* tags="?FEWICD"; const char* k=strchr(tags+1,l[q+1]); if(!k||!*k) return; int lvl=k-tags; q+=3;
  while(q<l.size()&&l[q]=='\033'){ size_t e=l.find('m',q); if(e==std::string::npos) return; q=e+1; }
  long long ts=-1; bool hasTs=q+1<l.size()&&l[q]==' '; if(hasTs) ts=atoll(l.c_str()+q+1);
  if(inSet||(pairSide==1&&W.cfg.bFail)) return; // a failing file has cut and merged lines; the warning about an illegal level is written whatever the level
  bool b=pairSide==1;
  if(lvl>level) viol("C23","log-level-exceeded","a message of level %d was written with the log level set to %d: %s",lvl,level,l.c_str());
  if(t.id!=curT) viol("C23","log-wrong-file","a message was written to a log file that is no longer set: %s",l.c_str());
  if(esc!=(color==1)) viol("C23","log-colour",color==1?"colours are on but a message has none: %s":"colours are off but a message has some: %s",l.c_str());
  Us want=started?(nodeClock(W.cur)-startAt)/1000:0; if(hasTs&&ts!=want&&!(b&&W.cfg.bBuf&&started)) viol("C23","log-time","a message is stamped %lld ms, it was written at %lld ms: %s",ts,(long long)want,l.c_str());
  std::string c; for(size_t i=0;i<l.size();i++){ if(l[i]=='\033'){ while(i<l.size()&&l[i]!='m') i++; } else c+=l[i]; }
  size_t z=0; for(int i=0;i<2&&z!=std::string::npos;i++) z=c.find(' ',z+(i>0)); // past tag and time: index and place
  size_t e=c.find(".c:"); uint64_t h=7; if(z!=std::string::npos&&e!=std::string::npos&&e>z){ while(z<c.size()&&c[z]==' ') z++; size_t f=c.find(' ',e); for(size_t i=z;i<std::min(f,c.size());i++) h=H(h,(uint8_t)c[i]); }
  uint32_t n=PS->m[pairSide]; if(n<PAIRMSGS){ PairMsg& m=PS->g[pairSide][n]; m.loc=(uint32_t)h; m.seg=seg; m.lvl=lvl; snprintf(m.txt,sizeof m.txt,"%s",c.c_str()); } PS->m[pairSide]=n+1; SH->probe[P_LOGMSG]++; }
static ssize_t cookWrite(void* c,const char* b,size_t n){ Target& t=*(Target*)c;
  if(pairSide==1&&W.cfg.bFail&&(int64_t)(choose(0x106F)%1000)<W.cfg.bFail){ SH->faultCount[F_LOGERR]++; errno=(int)(choose(0x1070)%3==0?EPIPE:ENOSPC); return 0; }
  t.pend.append(b,n); size_t k; while((k=t.pend.find('\n'))!=std::string::npos){ std::string l=t.pend.substr(0,k); t.pend.erase(0,k+1); if(W.trace) fprintf(traceOut,"%10.6f log%d: %s\n",W.now/1e6,t.id,l.c_str()); line(t,l); } return n; }
static FILE* target(int id){ cookie_io_functions_t f; memset(&f,0,sizeof f); f.write=cookWrite; FILE* o=fopencookie(&tg[id],"w",f); int m=pairSide==1?(int)W.cfg.bBuf:0; setvbuf(o,nullptr,m==0?_IONBF:m==1?_IOLBF:_IOFBF,m==0?0:m==1?4096:(size_t)W.cfg.bBuf); return o; }
static int envLevel(){ int64_t e=W.cfg.envLevel; return e>=100&&e<=106?(int)e-100:0; }
static void runCtors(){ for(Ctor* c=sim_lib?__start_sim_ctorsB:__start_sim_ctorsA;c&&c<(sim_lib?__stop_sim_ctorsB:__stop_sim_ctorsA);c++) if(*c) (*c)(); }
extern "C" char* sim_getenv(const char* n){ if(!running) return getenv(n); if(!strcmp(n,"RMC_LOG_LEVEL")){ if(W.cfg.pair==1&&pairSide==1&&W.cfg.envLevel){ snprintf(envBuf,16,W.cfg.envLevel==108?"junk":"%d",(int)W.cfg.envLevel-100); return envBuf; } return nullptr; } return getenv(n); }
extern "C" int sim_isatty(int fd){ (void)fd; errno=ENOTTY; return 0; }
static bool setLevel(int l){ bool ok=l>=0&&l<=6; if(!ok) inSet=true; int r=rmc_set_log_level(l); if(!ok){ if(tf[curT]) fflush(tf[curT]); inSet=false; } if((r==0)!=ok) viol("C23","log-level-result","setting the log level to %d returned %d",l,r); if(ok) level=l; if(PS&&W.cfg.pair==1&&seg<PAIRSEGS) PS->lv[pairSide][seg]=level; return ok; }
void pairSetup(){ running=true; int64_t k=W.cfg.pair; bool b=pairSide==1; sim_lib=k==2?b:(int)W.cfg.lib;
  if(k!=1){ runCtors(); if(W.cfg.logLevel){ rmc_log_set_file(fopen("/dev/null","w")); rmc_set_log_level((int)W.cfg.logLevel); }
    if(k==2&&b){ W.cfg.fdBase=W.cfg.bFd; for(int i=0;i<W.cfg.bHeap;i++) (void)!malloc(1+(size_t)(H(W.seed,0x4EA,i)%3000)); } return; }
  tf[0]=target(0); tf[1]=target(1); curT=0; color=b&&W.cfg.bColor==1; int tgt=b?(int)W.cfg.bTarget:0;
  if(tgt) stdout=tf[0]; inSet=true; if(!tgt) rmc_log_set_file(tf[0]); runCtors(); fflush(tf[0]); inSet=false; level=b?envLevel():0; if(PS) PS->lv[pairSide][0]=level;
  if(!b) rmc_log_use_color(0); else if(W.cfg.bColor) rmc_log_use_color(W.cfg.bColor==1);
  if(b&&W.cfg.bStart){ rmc_log_set_start_time(); started=true; startAt=nodeClock(W.cur); }
  if(!b) setLevel(6); else if(W.cfg.bLevel>=0) setLevel((int)W.cfg.bLevel); }
void pairLogOp(const Op& o){ if(W.cfg.pair!=1||!tf[curT]) return; fflush(tf[curT]); seg++; if(seg<PAIRSEGS) PS->lv[pairSide][seg]=level; if(pairSide!=1) return; noteLog();
  switch(o.a){ case 0: setLevel((int)o.b); break; case 1: curT^=1; rmc_log_set_file(tf[curT]); break; case 2: color=o.b==1; rmc_log_use_color(o.b==2?-1:(int)o.b); break; default: rmc_log_set_start_time(); started=true; startAt=nodeClock(W.cur); break; } }
void pairEnd(){ if(W.cfg.pair==1&&running) for(int i=0;i<2;i++) if(tf[i]) fflush(tf[i]); }
void pairCall(Node* n){ if(!W.cfg.pair) return; hashIn(0xA9,H(n->id,n->call,(uint64_t)(int64_t)n->ret),H(n->regs.size(),n->fds.size())); uint32_t k=PS->n[pairSide]; if(k<PAIRRECS){ PairRec& r=PS->r[pairSide][k]; r.h=SH->hash; r.t=W.now; r.ret=n->ret; r.node=n->id; r.call=n->call; r.pub=n->kind==N_PUB; r.idx=n->idx; } PS->n[pairSide]=k+1; }
// parent: compare the two runs; returns a description of the first difference
static const char* callName[]={"none","queue","read","write","timeout","close","deactivate","delete","activate","init","dispatch","control message","query/set"};
std::string pairCompare(const Scenario& sc,uint64_t ha,uint64_t hb,std::string& cls){ char b[600];
  uint32_t na=std::min<uint32_t>(PS->n[0],PAIRRECS),nb=std::min<uint32_t>(PS->n[1],PAIRRECS),i=0; while(i<na&&i<nb&&PS->r[0][i].h==PS->r[1][i].h) i++;
  const char* what=sc.cfg.pair==1?"logging settings":"memory contents, descriptor numbers, clock origin or earlier contexts";
  cls=sc.cfg.pair==1?"logging-changes-behaviour":"environment-changes-behaviour";
  if(i<na&&i<nb){ PairRec&x=PS->r[0][i],&y=PS->r[1][i]; if(x.node==y.node&&x.call==y.call&&x.t==y.t) snprintf(b,600,"with different %s, library call %u (%s of %c%d at %.6f s) behaves differently: it returns %d and %d, or has other effects",what,i,callName[x.call],x.pub?'P':'S',x.idx,x.t/1e6,x.ret,y.ret); else snprintf(b,600,"with different %s, the runs differ before library call %u",what,i); return b; }
  if(PS->n[0]!=PS->n[1]||ha!=hb){ snprintf(b,600,"with different %s, the runs differ after library call %u",what,i); return b; }
  if(sc.cfg.pair!=1||sc.cfg.bFail||PS->m[0]>PAIRMSGS||PS->m[1]>PAIRMSGS) return ""; cls="log-messages";
  uint32_t j=0; for(uint32_t k=0;k<PS->m[0];k++){ PairMsg& a=PS->g[0][k]; if(a.seg>=PAIRSEGS) break; if(a.lvl>PS->lv[1][a.seg]) continue; if(j>=PS->m[1]){ snprintf(b,600,"at log level %d this message is missing: %s",PS->lv[1][a.seg],a.txt); return b; } PairMsg& m=PS->g[1][j++]; if(m.loc!=a.loc||m.lvl!=a.lvl||m.seg!=a.seg){ snprintf(b,600,"at log level %d the message \"%s\" is written where \"%s\" is expected",PS->lv[1][a.seg],m.txt,a.txt); return b; } }
  if(j<PS->m[1]&&PS->m[1]&&PS->g[1][PS->m[1]-1].seg<PAIRSEGS){ snprintf(b,600,"this message is written only at a lower log level: %s",PS->g[1][j].txt); return b; } return ""; }
