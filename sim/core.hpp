// Deterministic simulator for the reliable multicast library: shared declarations.
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <queue>
#include <functional>
#include <memory>
#include <algorithm>
#include <errno.h>
extern "C" {
#include "reliable_multicast.h"
}
typedef int64_t Us;
#define IDX_MCAST 0x7FFE
#define IDX_LISTEN 0x7FFD
#define GRPIP 0xEF28292Au
#define GPORT 4723
#define MS(x) ((Us)(x)*1000)

// limits of the library variant this binary is linked with (limits.c, compiled with the library)
extern "C" unsigned int sim_max_packet, sim_max_payload; extern "C" unsigned long sim_first_pid;

// ---------------------------------------------------------------- randomness
static inline uint64_t mix64(uint64_t x){ x+=0x9E3779B97F4A7C15ULL; x=(x^(x>>30))*0xBF58476D1CE4E5B9ULL; x=(x^(x>>27))*0x94D049BB133111EBULL; return x^(x>>31); }
static inline uint64_t H(uint64_t a,uint64_t b=0,uint64_t c=0,uint64_t d=0){ return mix64(mix64(mix64(mix64(a)^b)^c)^d); }
struct Rng{ uint64_t s; Rng(uint64_t x):s(mix64(x)){} uint64_t u(){ s+=0x9E3779B97F4A7C15ULL; return mix64(s);}
  int64_t r(int64_t lo,int64_t hi){ return hi<=lo?lo:lo+(int64_t)(u()%(uint64_t)(hi-lo+1)); } bool p(int permille){ return (int)(u()%1000)<permille; }
  int64_t pick(std::initializer_list<int64_t> l){ return *(l.begin()+u()%l.size()); } };

// ---------------------------------------------------------------- fault sites
#define SITES(X) \
 X(LOSS,"datagram lost") X(DUP,"datagram duplicated") X(DELAY,"datagram delayed/reordered") X(RXOVER,"receive buffer overflow") \
 X(SENDEAGAIN,"multicast send would block") X(SENDERR,"multicast send failed") X(RECVERR,"datagram receive failed") \
 X(SHORTW,"short stream write") X(WEAGAIN,"stream write failed temporarily") X(SHORTR,"short stream read") X(RDAGAIN,"stream read failed temporarily") X(TCPSLOW,"stream segment stalled") \
 X(CONNERR,"connect failed at once") X(CONNREFUSE,"connection refused by network") X(CONNIMM,"connect completed at once") X(SYNLOSS,"SYN lost") \
 X(ACCERR,"accept failed") X(SOCKERR,"socket() failed") X(OPTERR,"setsockopt() failed") X(GETOPTERR,"getsockopt() failed") \
 X(BINDERR,"bind() failed") X(LISTENERR,"listen() failed") X(NAMEERR,"getsockname() failed") \
 X(STALL,"node stalled") X(PART,"partition") X(RST,"connection reset") X(CRASH,"process crash") \
 X(GRACE,"graceful shutdown and restart") X(REACT,"deactivate and activate") X(PCLOSE,"publisher application closed a connection") X(SCLOSE,"subscriber application closed a connection") \
 X(GARBAGE,"malformed datagram") X(ROGUEC,"misbehaving subscriber connected") X(ROGUEP,"misbehaving publisher announced") \
 X(UDPBLOCK,"multicast socket blocked for a while") X(REJECTP,"publisher rejected subscriber") X(REJECTS,"subscriber declined announcement") \
 X(STUCKPEER,"peer stuck while the others must progress") X(TBLFULL,"connection table full") X(RXBAD,"datagram discarded when read (bad checksum)") X(STRAY,"stray datagram to the publisher's multicast socket") X(SEGM,"stream cut into small segments") X(CLEANDROP,"datagram lost in the join window") X(LOGERR,"write to the log file failed") X(LOGOP,"logging settings changed while running") X(JUMP,"the whole system paused for minutes to weeks") X(CBSET,"callbacks set or cleared while running") X(EPIPE,"write to a connection the peer has closed")
enum Site{
#define X(a,b) F_##a,
SITES(X)
#undef X
F_NSITES};
extern const char* siteName[]; extern const char* siteDesc[];

// ---------------------------------------------------------------- configuration
#define CFGS(X) X(nPub,1) X(nSub,1) X(clean,1) X(driver,0) X(cbmask,127) X(pubFreeNull,0) X(subAllocNull,0) \
 X(pLoss,0) X(pDup,0) X(pDelay,0) X(maxDelay,5000) X(latency,200) X(jitter,100) X(segMode,0) X(sndCap,65536) X(rcvCap,65536) X(udpCap,256) \
 X(pShortW,0) X(pWEagain,0) X(pShortR,0) X(pTcpSlow,0) X(pRAgain,0) X(pSendEagain,0) X(pSendErr,0) X(pRecvErr,0) \
 X(pConnErr,0) X(pConnRefuse,0) X(pConnImm,0) X(pSynLoss,0) X(pAccErr,0) X(pSockErr,0) X(pOptErr,0) X(pGetOptErr,0) X(pBindErr,0) X(pListenErr,0) X(pNameErr,0) X(pRxBad,0) X(stray,0) \
 X(pRejectP,0) X(pRejectS,0) X(annInt,200000) X(annLen,0) X(annDecline,0) X(thrS,0) X(thrR,0) X(maxSubs,8) X(maxPubs,8) X(dispatch,0) X(keep,0) \
 X(loopCost,50) X(evPerLoop,64) X(healAt,1500000) X(settle,5000000) X(contGap,0) X(contLen,40) X(tiny,0) X(logLevel,0) X(clkMode,0) X(shareHost,0) \
 X(grpMode,0) X(selfId,0) X(fdBase,3) X(ipMode,0) X(eager,0) \
 X(ephemeral,0) X(anyListen,0) X(stuck,0) X(zeroId,0) X(mcastIf,0) X(reent,0) X(subFirst,0) X(startSpread,0) X(preQueue,0) X(bulk,0) X(nullPoll,0) X(pid0,1) X(teardown,0) \
 X(lib,0) X(pair,0) X(envLevel,0) X(bLevel,6) X(bColor,0) X(bBuf,0) X(bFail,0) X(bStart,0) X(bTarget,0) X(bFill,0) X(bHeap,0) X(bFd,3) X(bClk,0) X(bPrior,0)
struct Cfg{
#define X(a,b) int64_t a=b;
CFGS(X)
#undef X
};
enum OpK{ O_QUEUE,O_CTRL,O_STALL,O_PART,O_RST,O_PCLOSE,O_SCLOSE,O_CRASH,O_GRACE,O_REACT,O_GARB,O_ROGUEC,O_ROGUEP,O_ANNINT,O_THR,O_BADCALL,O_USERANN,O_UDPBLOCK,O_TTL,O_UDATA,O_LOG,O_JUMP,O_CBSET,O_NOPS };
extern const char* opName[];
struct Op{ Us t; int k; int64_t a,b,c,d; };
struct Scenario{ uint64_t seed=0; Cfg cfg; std::vector<Op> ops; std::string prop; bool replay=false; std::set<uint32_t> fired; };

// ---------------------------------------------------------------- results shared with the parent process
#define MAXFIRED 60000
struct Shared{
  volatile int done; volatile uint64_t hash; volatile int64_t now; volatile uint64_t events; volatile uint32_t nfired; uint32_t fired[MAXFIRED];
  uint32_t faultCount[F_NSITES]; uint32_t probe[64]; char vprops[160]; char vclass[96]; char vdetail[700]; int hasViol; int indirect; int truncated;
  uint32_t known[8]; char knownDetail[8][200]; uint64_t api; };
extern Shared* SH;

// ---------------------------------------------------------------- world
struct Node; struct Sock; struct Link;
struct Dgram{ std::string data; uint32_t ip=0; uint16_t port=0; Node* from=nullptr; int epoch=0; uint64_t pid=0; int seq=-1; uint64_t ord=0; };
enum SType{ S_UDP,S_TCP,S_LISTEN };
enum SState{ T_NEW,T_SYN,T_EST,T_DEAD };
struct Sock{ int id=0; Node* own=nullptr; int inc=0; int fd=-1; SType t=S_UDP; bool nb=false,open=true,bound=false,joined=false,listening=false;
  uint32_t lip=0,rip=0,group=0; uint16_t lport=0,rport=0; std::deque<Dgram> rx; Us wblock=0; int backlog=0; std::deque<Sock*> aq;
  int st=T_NEW; Sock* peer=nullptr; int soerr=0; std::string rcv,snd; bool rfin=false,rrst=false,finq=false,finsent=false,shut=false,xmit=false,isServer=false;
  Link* link=nullptr; int synTries=0; Us lastFull=-1,lastBlocked=-1,lastWrite=-1; uint64_t rdTot=0,wrTot=0; bool optFailed=false,reuse=false; int ttl=1; uint32_t mif=0; bool eofRead=false; };
struct Reg{ int fd; uint16_t action,armed; uint64_t gen; Us notBefore; };
struct PidMap{ uint64_t base=0; std::vector<int> v; int get(uint64_t pid)const{ return pid>base&&pid-base<=v.size()?v[pid-base-1]:-1; } void set(uint64_t pid,int i){ if(pid<=base) return; if(v.size()<pid-base) v.resize(pid-base,-1); v[pid-base-1]=i; } void clear(uint64_t b){ base=b; v.clear(); } };
struct Pkt{ int seq; bool ann; uint8_t* ptr; uint32_t len; std::string data; int freed=0; bool accepted=false; uint64_t pid=0; Us sentAt=-1; };
struct Ident{ Node* pub; int epoch,seq; bool tcp; std::string raw; Link* link; };
struct Parser{ std::string buf; bool bad=false; };
struct Link{ int id=0; Node* sub=nullptr; int subInc=0; Node* pub=nullptr; int pubEpoch=-1,pubInc=-1; Sock* cs=nullptr; Sock* ss=nullptr; uint32_t ip=0; uint16_t port=0; uint32_t nodeId=0; int gen=0;
  bool accepted=false,rejected=false,complete=false,pubClosed=false,subClosed=false,admitted=false,mixed=false; uint64_t acceptOrd=0; Us acceptAt=-1,completeAt=-1,subCloseAt=-1,pubCloseAt=-1;
  uint64_t A=0,lastOwed=0; int connectCb=0,disconnectCb=0,completeCb=0;
  // subscription model
  uint64_t F=0,next=0; std::map<uint64_t,Ident> cons; std::set<uint64_t> got; std::map<uint64_t,Us> needAck; Us permit=-1; uint64_t enq=0;
  std::map<uint64_t,Us> unacked;   // owed pid -> time of transmission; neither acknowledged nor retransmitted on the wire
  std::set<uint64_t> acked,resent; std::map<uint64_t,Us> assumed; std::map<uint64_t,Us> ackTimerBefore;
  Parser pSubOut,pPubIn,pPubOut,pSubIn; std::deque<std::string> ctl; std::deque<Us> ctlAt; size_t ctlN=0,ctlRecv=0; Us ctlFirst=-1; bool annAccepted=false; bool rogue=false; bool eof=false; bool appClosed=false; bool failed=false; size_t delivered=0; };
enum NKind{ N_PUB,N_SUB,N_RAW };
enum CallK{ K_NONE,K_QUEUE,K_READ,K_WRITE,K_TIMEOUT,K_CLOSE,K_DEACT,K_DELETE,K_ACT,K_INIT,K_DISPATCH,K_CTRL,K_OTHER };
struct CtlReq{ Us t; int pub; int len; uint64_t key; Us first=-1; };
struct Node{ size_t deepCost=0,allocInCall=0; int id=0; NKind kind; int idx=0; uint32_t ip=0; bool up=false,activated=false; int inc=0; Us stallUntil=0,stallEnd=-1; bool wakeSched=false; Us wakeAt=0; uint64_t wakeGen=0;
  Us clk=0; std::map<int,Sock*> fds; std::map<uint16_t,Reg> regs; uint64_t regGen=0; std::unordered_map<void*,size_t> mem; size_t memKept=0; bool sigpipeIgn=false;
  rmc_pub_context_t* pub=nullptr; rmc_sub_context_t* sub=nullptr; uint32_t nodeId=0; uint32_t cfgId=0; int grp=0; int ttlSet=1; int call=K_NONE; int depth=0; uint64_t sysInCall=0; Us startAt=0; bool closingByApp=false; bool stuck=false; Us downUntil=0; std::map<uint16_t,Us> timeWait;
  // publisher application
  std::vector<Pkt> pkts; std::unordered_map<void*,int> live; std::deque<std::pair<Us,std::pair<int,int>>> toQueue; int cur=-1; Us retryAt=0; uint64_t lastPid=0; std::string lastDg; int epoch=0; int nextSeq=0; PidMap byPid;
  std::deque<int> dataQ; std::vector<std::string> annPend; std::set<std::string> annAll; Us annNext=-1,lastAnn=-1,annSetAt=-1; int64_t annInt=0; uint64_t annN=0; bool annFuzzy=false; Us lastSusp=-1000000000,lastFullC=-1000000000; bool annDue=false;
  int64_t thrS=0,thrR=0; bool thrBad=false,susp=false; int inflight=0; uint16_t listenPort=0,cfgPort=0; uint32_t listenIp=0; std::vector<int> freedInCall; Us contNext=0; int relInCall=0; std::vector<Link*> plinks; Us lastTimer=-1,lastQueued=-1; bool discInCall=false;
  // subscriber application
  std::unordered_map<void*,size_t> pay; std::deque<CtlReq> ctlQ; Us nextDispatch=0; std::vector<Link*> slinks; std::map<int,std::deque<Ident>> expectQ; size_t expectN=0; bool hasRogue=false; std::vector<Link*> announcedInCall; bool inDeact=false;
  int annAccepted=0; std::string annAcceptKey; int connectsInCall=0; bool sockFailInCall=false,ioFailInCall=false;
  // per call bookkeeping
  Link* accLink=nullptr; Link* readLink=nullptr; bool annRx=false; Dgram annD; int annConnects=0; int annCbCalls=0,readyCb=0,annCbPub=0; bool annCbSent=false; size_t expect0=0; bool susp0=false; uint32_t qlen0=0; bool thrChanged=false; int ret=0; Us callStart=0; int ctlExpect=0; void* ud=nullptr; bool queuedOk=false,nested=false; int reentN=0; bool completing=false; int compInCall=0; bool closeAsked=false; bool oomRead=false; std::vector<Link*> closedInCall; uint64_t api=0; bool refuse=false; std::map<int,Us> reqFail;
  bool crowd=false; int nestQ=0; int64_t cbm=127; Us nextWr=0; bool wrWork=false; uint64_t pcount=0; uint64_t pcountSpin=0; int spin=0; Us retryBad=0; Us timerBackoff=0; std::vector<Sock*> raw; uint64_t rawSeed=0; int rawKind=0; int rawStep=0; uint64_t dispatched=0; };
uint32_t grpIp(Node*); uint16_t grpPort(Node*); Node* pubBy(uint32_t,uint16_t); bool pairOk(Node* p,Node* s);
struct Ev{ Us t; uint64_t tie,seq; std::function<void()> f; };
struct EvCmp{ bool operator()(const Ev*a,const Ev*b)const{ if(a->t!=b->t) return a->t>b->t; if(a->tie!=b->tie) return a->tie>b->tie; return a->seq>b->seq; } };
struct EvQ:std::priority_queue<Ev*,std::vector<Ev*>,EvCmp>{ std::vector<Ev*>& all(){ return c; } };
struct World{ Scenario sc; Cfg cfg; uint64_t seed=0; Us now=0; EvQ q; uint64_t evseq=0; std::vector<Node*> nodes,pubs,subs; std::vector<Link*> links; std::vector<Sock*> socks;
  Node* cur=nullptr; bool healed=false,stop=false,finishing=false; Us healAt=0,end=0,nextP=0,jumped=0; uint64_t ord=0; uint32_t siteN[F_NSITES]={0}; std::unordered_map<uint64_t,uint32_t> chN; bool trace=false; std::map<std::pair<int,int>,Us> part; uint16_t eph=41000;
  std::set<std::string> rogueAnn; bool sysFault=false; bool multi=false,rogue=false; std::string prop; bool endReached=false; };
extern World W;

void logf_(const char* fmt,...) __attribute__((format(printf,1,2)));
#define L_(...) do{ if(W.trace) logf_(__VA_ARGS__); }while(0)
static inline void hashIn(uint64_t a,uint64_t b=0,uint64_t c=0){ SH->hash=H(SH->hash,a,b,c^((uint64_t)W.now<<20)); }
bool fault(Site s,int64_t permille,uint64_t* param=nullptr);
uint64_t choose(uint64_t key,uint64_t key2=0);   // schedule choice, not a fault
void noteFault(Site s);
void at(Us t,std::function<void()> f);
// report a violation of every property named in props (comma separated, e.g. "C01,C03"; "*" = all)
void viol(const char* props,const char* cls,const char* fmt,...) __attribute__((format(printf,3,4)));
void known(int k,const char* fmt,...) __attribute__((format(printf,2,3)));
extern int indirectMode; // 1: stop at violations of other properties too, main.cpp finds out what they depend on
extern bool anyProp; // report violations of every property
extern unsigned knownMask; // findings the caller lists; others are violations
enum { KF_JOINLATE=0,KF_JOINGAP=1,KF_SPLICE=2,KF_KEEPLEAK=3,KF_N };
void kick(Node* n,Us delay=0);
bool partd(Node*a,Node*b);
int readiness(Sock*s);
#define PROBES(X) X(DELIV) X(TCPDELIV) X(MCDELIV) X(RESEND) X(CTL) X(PUBFREE) X(SUBFREE) X(SUSPEND) X(RESUME) X(RECONNECT) X(ACTFAIL) X(ANNRX) X(ACKRX) X(RESTART) X(DISC) X(REFUSED) X(MULTIPUB) X(MULTISUB) X(DUPRX) X(OOORX) X(MAXLEN) X(MAXRESEND) X(SLOTFULL) X(CTLREFUSED) X(REJ) X(CLOSEPEND) X(KEPT) X(NOSUBSEND) X(ZEROLEN) X(PARTCMD) X(JOINCLEAN) X(JOINWILD) X(ONESHOT) X(PENDBUSY) X(ACKMERGE) X(QUIET) X(TRUNC) X(REENT) X(TIMEWAIT) X(ANNOVER) X(LOGMSG) X(PAIRS) X(PRIOR) X(PID16) X(SLOT8) X(NULLPOLL)
enum {
#define X(a) P_##a,
PROBES(X)
#undef X
P_N };
extern const char* probeName[];
static inline void probe(int i){ SH->probe[i]++; }
// kernel internals used by the harness
Sock* newSock(Node* n,SType t); int allocFd(Node* n,Sock* s); void closeSock(Sock* s,bool rst); void pump(Sock* s); void resetPair(Sock* s); void killNodeSockets(Node* n);
int kconnect(Sock* s,uint32_t ip,uint16_t port); size_t kwrite(Sock* s,const std::string& d); std::string kread(Sock* s,size_t max);
void mcastDeliver(Node* from,uint32_t gip,uint16_t gport,Dgram d);
// oracle entry points
void onWireSend(Node* n,Dgram& d); bool dropForCleanJoin(Node* n,const Dgram& d); void onConsume(Node* n,const Dgram& d);
void onStreamWrite(Sock* s,const char* p,size_t n); void onStreamRead(Sock* s,const char* p,size_t n);
Link* onConnect(Node* n,Sock* s,uint32_t ip,uint16_t port); void onConnFail(Sock* s); void onAccept(Sock* ss); void onKernelClose(Sock* s); void preCall(Node* n); void postCall(Node* n); void onUserFree(Node* n,void* p,int64_t len,bool viaCb);
void checkPeriodic(); void checkFinal(); void checkTimers(Node* n,Us next); void checkIteration(Node* n); void onNodeDown(Node* n,bool crash);
void onSubClosed(Node* n,Link* l);
void runScenario(const Scenario& sc); Scenario generate(uint64_t seed,const std::string& prop);
std::string dumpScenario(const Scenario& s); bool loadScenario(const std::string& txt,Scenario& s);
struct Enter{ Node*n; Node*prev; Enter(Node* n_):n(n_),prev(W.cur){ W.cur=n; } ~Enter(){ W.cur=prev; } };
extern volatile uint64_t outerCalls; extern volatile int inCall; // library calls made from the event loop; one is under way
struct Call{ Node* n; Node* prev; int pk; uint64_t sys0; bool sys() const { return n->sysInCall!=sys0; } Call(Node* n_,int k); ~Call(); };
int rmcPayloadMax();
Us nodeClock(Node* n);
void fillPayload(std::string& out,int pub,int epoch,int seq,int len);
std::string payloadOf(Node* pub,int epoch,int seq);
Link* curLink(Node* sub,uint32_t ip,uint16_t port);
std::string hexs(const std::string& s,size_t max=24);
Node* nodeByIp(uint32_t ip,uint16_t port);
void scribble(uint64_t k);
// application
void iterate(Node* n); void startNode(Node* n); void setupWorld(); void applyOp(const Op& op); void healAll(); void teardownAll();

// pairs of runs (pair.cpp)
#define PAIRRECS 150000
#define PAIRMSGS 60000
#define PAIRSEGS 64
struct PairRec{ uint64_t h; int64_t t; int32_t ret; int16_t node,idx; uint8_t call,pub; };
struct PairMsg{ uint32_t loc; uint16_t seg; uint8_t lvl; char txt[90]; };
struct PairShared{ uint32_t n[2],m[2]; uint8_t lv[2][PAIRSEGS]; PairRec r[2][PAIRRECS]; PairMsg g[2][PAIRMSGS]; };
extern PairShared* PS; extern int pairSide; extern FILE* traceOut;
void pairSetup(); void pairLogOp(const Op& o); void pairEnd(); void pairCall(Node* n); std::string pairCompare(const Scenario& sc,uint64_t ha,uint64_t hb,std::string& cls);
static inline void noteLog(){ SH->faultCount[F_LOGOP]++; }
