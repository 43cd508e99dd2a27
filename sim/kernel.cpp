// Simulated kernel: sockets, clock, allocator and the sim_* entry points the library objects are bound to.
#include "core.hpp"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <new>
#include <sys/time.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
extern "C" void* __asan_region_is_poisoned(void* beg,size_t size);
extern "C" void __asan_describe_address(void*);
// The simulator's own memory does not come from the address sanitizer's allocator (whose bookkeeping costs more than the runs):
// size classes on anonymous memory. What is handed to the library is allocated with malloc, so that overruns are seen.
static constexpr size_t ACLS=13; static void* afree[ACLS]; static char* acur; static size_t aleft;
static void* aget(size_t n){ size_t c=0; while(((size_t)32<<c)<n+16) c++; if(c>=ACLS){ char* p=(char*)malloc(n+16); if(!p) abort(); *(size_t*)p=ACLS; return p+16; }
  if(afree[c]){ char* p=(char*)afree[c]; afree[c]=*(void**)(p+16); return p+16; }
  size_t k=(size_t)32<<c; if(aleft<k){ size_t m=(size_t)2<<20; acur=(char*)mmap(nullptr,m,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(acur==MAP_FAILED) abort(); aleft=m; }
  char* p=acur; acur+=k; aleft-=k; *(size_t*)p=c; return p+16; }
static void aput(void* q){ if(!q) return; char* p=(char*)q-16; size_t c=*(size_t*)p; if(c>=ACLS){ free(p); return; } *(void**)q=afree[c]; afree[c]=p; }
void* operator new(size_t n){ return aget(n); }
void* operator new[](size_t n){ return aget(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return aget(n); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return aget(n); }
void operator delete(void* p) noexcept { aput(p); }
void operator delete[](void* p) noexcept { aput(p); }
void operator delete(void* p,size_t) noexcept { aput(p); }
void operator delete[](void* p,size_t) noexcept { aput(p); }
extern "C" __attribute__((used,visibility("default"))) const char* __asan_default_options(){ return "malloc_context_size=4"; }
unsigned long sim_first_pid=1; // read by the library through hook.h
World W; Shared* SH;
#define X(a,b) #a,
const char* siteName[]={ SITES(X) };
#undef X
#define X(a,b) b,
const char* siteDesc[]={ SITES(X) };
#undef X
#define X(a) #a,
const char* probeName[]={ PROBES(X) };
#undef X
const char* opName[]={"QUEUE","CTRL","STALL","PART","RST","PCLOSE","SCLOSE","CRASH","GRACE","REACT","GARB","ROGUEC","ROGUEP","ANNINT","THR","BADCALL","USERANN","UDPBLOCK","TTL","UDATA","LOG","JUMP","CBSET"};

void logf_(const char* fmt,...){ va_list ap; va_start(ap,fmt); FILE* o=traceOut; fprintf(o,"%10.6f ",W.now/1e6); if(W.cur) fprintf(o,"[%c%d] ",W.cur->kind==N_PUB?'P':W.cur->kind==N_SUB?'S':'R',W.cur->idx); vfprintf(o,fmt,ap); fprintf(o,"\n"); va_end(ap); }
void noteFault(Site s){ SH->faultCount[s]++; hashIn(0xF0,s); }
bool fault(Site s,int64_t pm,uint64_t* param){
  if(W.healed) return false;
  uint32_t n=W.siteN[s]++; uint32_t id=((uint32_t)s<<24)|(n&0xFFFFFF); bool f;
  if(W.sc.replay) f=W.sc.fired.count(id)>0; else f= pm>0 && (int64_t)(H(W.seed,0xFA,s,n)%1000)<pm;
  if(param) *param=H(W.seed,0xFB,s,n);
  if(f){ if(SH->nfired<MAXFIRED){ SH->fired[SH->nfired]=id; SH->nfired=SH->nfired+1; } noteFault(s);
    if(s>=F_SENDERR&&s<=F_NAMEERR&&s!=F_SHORTW&&s!=F_SHORTR&&s!=F_TCPSLOW&&s!=F_SYNLOSS) W.sysFault=true; }
  return f; }
uint64_t choose(uint64_t key,uint64_t key2){ uint64_t k=H(key,key2); uint32_t n=W.chN[k]++; return H(W.seed,0xC4,k,n); }
void at(Us t,std::function<void()> f){ Ev* e=new Ev; e->t=t<W.now?W.now:t; e->seq=W.evseq++; e->tie=H(W.seed,0x7E,e->seq); e->f=std::move(f); W.q.push(e); }
bool anyProp=false; int indirectMode=0;
static bool wants(const char* props){ if(anyProp||props[0]=='*') return true; if(W.prop.empty()) return true; return strstr(props,W.prop.c_str())!=nullptr; }
void viol(const char* props,const char* cls,const char* fmt,...){
  char b[700]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  L_("VIOLATION(%s) %s: %s",props,cls,b);
  if(SH->hasViol) return; if(!wants(props)){ if(!strncmp(props,"C23",3)||!strncmp(props,"C24",3)) return; SH->indirect=1; if(!indirectMode) return; }
  SH->hasViol=1; snprintf(SH->vprops,sizeof SH->vprops,"%s",props); snprintf(SH->vclass,sizeof SH->vclass,"%s",cls); snprintf(SH->vdetail,sizeof SH->vdetail,"%s",b);
  hashIn(0xDEAD,H(strlen(b),cls[0])); SH->now=W.now-W.jumped; SH->done=2; fflush(traceOut); _exit(0); }
unsigned knownMask=~0u;
void known(int k,const char* fmt,...){ char b[200]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  if(!(knownMask>>k&1)){ static const char* pr[]={"C03","C03","C16","C11"}; static const char* cl[]={"join-late","join-gap","splice","keep-leak"}; viol(pr[k],cl[k],"%s",b); return; }
  if(!SH->known[k]) snprintf(SH->knownDetail[k],200,"%s",b); SH->known[k]++; L_("known finding %d: %s",k,b); }

// ---------------------------------------------------------------- sockets
Sock* newSock(Node* n,SType t){ Sock* s=new Sock; s->id=W.socks.size(); s->own=n; s->inc=n->inc; s->t=t; W.socks.push_back(s); return s; }
uint32_t grpIp(Node* n){ return n->grp&&W.cfg.grpMode==1?GRPIP+1:GRPIP; }
uint16_t grpPort(Node* n){ return n->grp&&W.cfg.grpMode==2?GPORT+1:GPORT; }
Node* pubBy(uint32_t ip,uint16_t port){ for(Node* n:W.pubs) if(n->ip==ip&&n->listenPort==port) return n; return nullptr; }
bool pairOk(Node* p,Node* s){ return p->grp==s->grp; }
int allocFd(Node* n,Sock* s){ int fd=W.cfg.fdBase>=0?(int)W.cfg.fdBase:n->call==K_ACT?3:0; while(n->fds.count(fd)) fd++; n->fds[fd]=s; s->fd=fd; return fd; }
bool partd(Node*a,Node*b){ if(!a||!b||a==b||(a->ip==b->ip)) return false; auto it=W.part.find({std::min(a->id,b->id),std::max(a->id,b->id)}); return it!=W.part.end()&&it->second>W.now; }
static Us partEnd(Node*a,Node*b){ return W.part[{std::min(a->id,b->id),std::max(a->id,b->id)}]; }
static Us lat(uint64_t key){ if(W.healed) return W.cfg.latency<500?W.cfg.latency:500; return W.cfg.latency+(W.cfg.jitter>0?(Us)(choose(0x1A7,key)%(uint64_t)(W.cfg.jitter+1)):0); }
static void wakeSock(Sock* s){ if(s->open&&s->own) kick(s->own); }
static bool alive(Sock* s){ return s->st!=T_DEAD; }
static void deliverRst(Sock* s){ // an RST arrives at s
  if(s->st==T_DEAD) return; s->rrst=true; s->snd.clear(); s->finq=false; if(s->st==T_SYN) s->soerr=ECONNREFUSED; else s->soerr=s->rfin?EPIPE:ECONNRESET; s->st=T_DEAD; hashIn(0x57,s->id); wakeSock(s); }
static void sendRst(Sock* from){ Sock* p=from->peer; if(!p) return; Us t=lat(from->id); int tries=0; (void)tries;
  auto f=std::make_shared<std::function<void()>>(); *f=[from,p,f]{ if(partd(from->own,p->own)){ at(partEnd(from->own,p->own)+1000,*f); return; } deliverRst(p); }; at(W.now+t,*f); }
void pump(Sock* s){ // move bytes from s->snd to the peer's receive buffer, one segment in flight at a time
  if(s->xmit||!s->peer||s->st!=T_EST) return; Sock* p=s->peer;
  if(s->snd.empty()){ if(s->finq&&!s->finsent){ s->xmit=true; at(W.now+lat(s->id),[s,p]{ s->xmit=false; if(s->st!=T_EST) return; if(partd(s->own,p->own)){ s->xmit=true; at(partEnd(s->own,p->own)+1000,[s]{ s->xmit=false; pump(s); }); return; }
      s->finsent=true; if(!p->rfin&&p->st!=T_DEAD){ p->rfin=true; hashIn(0xF1,p->id); wakeSock(p); } }); } return; }
  int64_t room=W.cfg.rcvCap-(int64_t)p->rcv.size(); if(p->open&&p->st==T_EST&&room<=0) return; // resumes when the peer reads
  Us d=lat(s->id); if(fault(F_TCPSLOW,W.cfg.pTcpSlow)) d+=MS(5)+(Us)(choose(0x510,s->id)%MS(250));
  s->xmit=true;
  at(W.now+d,[s,p]{ s->xmit=false; if(s->st!=T_EST||s->snd.empty()) { pump(s); return; }
    if(partd(s->own,p->own)){ s->xmit=true; at(partEnd(s->own,p->own)+1000,[s]{ s->xmit=false; pump(s); }); return; }
    if(!p->open||p->st==T_DEAD||p->shut){ // data for a closed socket is answered by a reset
      sendRst(p); if(p->st!=T_DEAD) p->st=T_DEAD; return; }
    int64_t room=W.cfg.rcvCap-(int64_t)p->rcv.size(); if(room<=0) return;
    size_t n=std::min<size_t>(s->snd.size(),(size_t)room); if(!W.healed&&W.cfg.segMode&&SH->faultCount[F_SEGM]<20000){ size_t m; uint64_t r=choose(0x5E6,s->id); if(W.cfg.segMode==1) m=1+r%7; else if(W.cfg.segMode==2) m=1+r%120; else m=1+r%1460; if(m<n){ n=m; SH->faultCount[F_SEGM]++; } }
    if((int64_t)s->snd.size()>=W.cfg.sndCap/2) s->lastFull=W.now; p->rcv.append(s->snd,0,n); s->snd.erase(0,n); hashIn(0xD0,p->id,n); L_("net: %zu bytes sock%d -> sock%d",n,s->id,p->id); wakeSock(p); wakeSock(s); pump(s); }); }
void resetPair(Sock* s){ // a network device resets the connection: both ends see a reset
  Sock* p=s->peer; deliverRst(s); if(p) deliverRst(p); }
void closeSock(Sock* s,bool rst){
  if(!s->open) return; s->open=false; onKernelClose(s); if(s->isServer&&s->st==T_EST&&!s->rrst) s->own->timeWait[s->lport]=W.now+MS(60000);
  if(s->t==S_LISTEN||s->listening){ for(auto*a:s->aq){ if(a->st==T_EST){ a->open=false; a->st=T_DEAD; sendRst(a); } } s->aq.clear(); s->listening=false; return; }
  if(s->t==S_UDP){ s->rx.clear(); return; }
  if(s->st==T_EST){ if(rst||!s->rcv.empty()){ s->rcv.clear(); s->snd.clear(); s->st=T_DEAD; sendRst(s); } else { s->finq=true; pump(s); if(s->rfin&&s->snd.empty()&&false) s->st=T_DEAD; } }
  else s->st=T_DEAD; }
// in the order of their creation, not of their numbers: the order must not depend on what a descriptor happens to be called
void killNodeSockets(Node* n){ std::map<int,Sock*> f,o; f.swap(n->fds); for(auto&k:f) o[k.second->id]=k.second; for(auto&k:o){ k.second->fd=-1; closeSock(k.second,false); } n->regs.clear(); }
static Sock* findListener(uint32_t ip,uint16_t port,Node** host){ for(Node* n:W.nodes) if(n->ip==ip){ if(host) *host=n; if(!n->up) continue; for(auto&k:n->fds){ Sock* s=k.second; if(s->listening&&s->lport==port&&(s->lip==0||s->lip==ip)) return s; } } return nullptr; }
static void synAttempt(Sock* c){
  if(c->st!=T_SYN) return; Node* host=nullptr; Sock* l=findListener(c->rip,c->rport,&host);
  bool lost=false; if(host&&partd(c->own,host)) lost=true; if(!lost&&fault(F_SYNLOSS,W.cfg.pSynLoss)) lost=true;
  if(!host&&!lost){ c->st=T_DEAD; c->soerr=EHOSTUNREACH; L_("net: no route for sock%d",c->id); wakeSock(c); return; }
  if(!lost&&l&&(int)l->aq.size()>l->backlog) lost=true;
  if(lost){ int k=c->synTries++; if(k>=5){ c->st=T_DEAD; c->soerr=ETIMEDOUT; wakeSock(c); return; } Us d=MS(300)<<k; if(W.healed&&d>MS(600)) d=MS(600); at(W.now+d,[c]{ synAttempt(c); }); return; }
  if(!l||fault(F_CONNREFUSE,W.cfg.pConnRefuse)){ c->st=T_DEAD; c->soerr=ECONNREFUSED; L_("net: connect refused sock%d",c->id); hashIn(0xCF,c->id); wakeSock(c); return; }
  Sock* s=newSock(l->own,S_TCP); s->isServer=true; s->lip=c->rip; s->lport=c->rport; s->rip=c->own->ip; s->rport=c->lport; s->st=T_EST; s->peer=c; s->link=c->link; s->open=true; s->fd=-1; c->peer=s; l->aq.push_back(s); L_("net: SYN of sock%d queued at listener (sock%d)",c->id,s->id); wakeSock(l);
  if(c->open){ Us d=lat(c->id); auto f=[c,s]{ if(c->st!=T_SYN) return; c->st=T_EST; hashIn(0xC0,c->id); L_("net: sock%d established",c->id); if(!c->open){ c->finq=true; } wakeSock(c); pump(c); pump(s); }; at(W.now+d,f); } }
int kconnect(Sock* s,uint32_t ip,uint16_t port){ s->rip=ip; s->rport=port; s->lip=s->own->ip; s->lport=W.eph++; s->st=T_SYN; at(W.now+lat(s->id),[s]{ if(s->st==T_SYN&&!s->open){ s->st=T_DEAD; return; } synAttempt(s); }); return EINPROGRESS; }
size_t kwrite(Sock* s,const std::string& d){ if(s->st!=T_EST||s->rrst) return 0; int64_t room=W.cfg.sndCap-(int64_t)s->snd.size(); if(room<=0) return 0; size_t n=std::min<size_t>(d.size(),room); s->snd.append(d,0,n); pump(s); return n; }
std::string kread(Sock* s,size_t max){ std::string r=s->rcv.substr(0,max); s->rcv.erase(0,r.size()); if(s->peer) pump(s->peer); return r; }
int readiness(Sock*s){ int r=0;
  if(s->t==S_UDP){ if(!s->rx.empty()) r|=RMC_POLLREAD; if(s->wblock<=W.now) r|=RMC_POLLWRITE; return r; }
  if(s->listening) return s->aq.empty()?0:RMC_POLLREAD;
  if(s->st==T_SYN) return 0; if(s->st==T_NEW) return RMC_POLLWRITE;
  if(s->st==T_DEAD) return RMC_POLLREAD|RMC_POLLWRITE;
  if(!s->rcv.empty()||s->rfin||s->rrst||s->shut) r|=RMC_POLLREAD; if((int64_t)s->snd.size()<W.cfg.sndCap||s->rrst||s->shut) r|=RMC_POLLWRITE; return r; }
// Linux: a socket bound to the wildcard address gets every group that any socket of its host joined (IP_MULTICAST_ALL).
static bool joinedOk(Node* n,Sock* s,uint32_t gip){ return s->t==S_UDP&&s->joined&&s->group==gip&&!(W.cfg.mcastIf&&n->kind!=N_RAW&&s->mif!=n->ip); }
static bool hearsGroup(Node* n,Sock* s,uint32_t gip){ if(s->lip&&s->bound) return s->lip==gip&&joinedOk(n,s,gip); if(s->joined&&s->group==gip) return joinedOk(n,s,gip); if(!s->bound||n->kind==N_RAW) return false;
  for(Node* m:W.nodes) if(m->ip==n->ip&&m->up) for(auto&k:m->fds) if(joinedOk(m,k.second,gip)) return true; return false; }
void mcastDeliver(Node* from,uint32_t gip,uint16_t gport,Dgram d){
  for(Node* n:W.nodes) for(auto&k:n->fds){ Sock* s=k.second; if(s->t!=S_UDP||!s->bound&&n->kind!=N_RAW||s->lport!=gport||!hearsGroup(n,s,gip)) continue;
    if(partd(from,n)){ SH->faultCount[F_PART]++; continue; }
    if(fault(F_LOSS,W.cfg.pLoss)){ L_("net: datagram pid %llu to node %d lost",(unsigned long long)d.pid,n->id); continue; }
    int copies=1; if(fault(F_DUP,W.cfg.pDup)) copies=2;
    for(int c=0;c<copies;c++){ Us t=W.now+lat(n->id*131+7); uint64_t pr; if(fault(F_DELAY,W.cfg.pDelay,&pr)) t+=(Us)(pr%(uint64_t)(W.cfg.maxDelay+1)); if(c) t+=(Us)(choose(0xD0B,n->id)%20000);
      at(t,[s,n,from,d]{ if(!s->open) return; if(partd(from,n)) return; if((int64_t)s->rx.size()>=W.cfg.udpCap){ if(!W.healed||s->rx.size()>4000){ SH->faultCount[F_RXOVER]++; return; } } s->rx.push_back(d); hashIn(0xDA,s->id,d.pid); wakeSock(s); }); } } }

// ---------------------------------------------------------------- system calls
static Sock* getFd(int fd,const char* what){ Node* n=W.cur; if(!n){ fprintf(stderr,"sim: %s outside a node\n",what); _exit(77); }
  n->sysInCall++; if(n->sysInCall>400000){ viol("*","hang","%s: more than 400000 system calls in one library call",what); _exit(78); }
  hashIn(0x5C,H(n->id,W.cfg.pair==2?0:fd),what[0]); auto it=n->fds.find(fd); if(it==n->fds.end()){ viol("C11","bad-descriptor","%s on descriptor %d, which is not open",what,fd); errno=EBADF; return nullptr; } return it->second; }
static void poison(const void* p,size_t n,const char* what){ if(n&&__asan_region_is_poisoned((void*)p,n)) viol("*","memory-error","%s was given memory that is freed, out of bounds or out of scope (%zu bytes)",what,n); }
static int pickErr(uint64_t p,std::initializer_list<int> l){ return *(l.begin()+p%l.size()); }
extern "C" {
static bool badAddr(const struct sockaddr* a,socklen_t l,bool unspec){ if(!a||l<(socklen_t)sizeof(struct sockaddr_in)){ errno=EINVAL; return true; } const struct sockaddr_in* in=(const struct sockaddr_in*)a; if(in->sin_family!=AF_INET&&!(unspec&&in->sin_family==AF_UNSPEC&&!in->sin_addr.s_addr)){ errno=EAFNOSUPPORT; return true; } return false; }
int sim_socket(int d,int type,int proto){ Node* n=W.cur; n->sysInCall++; if(d!=AF_INET){ errno=EAFNOSUPPORT; return -1; } if(proto&&proto!=((type&0xF)==SOCK_DGRAM?IPPROTO_UDP:IPPROTO_TCP)){ errno=EPROTONOSUPPORT; return -1; } uint64_t p; if(fault(F_SOCKERR,W.cfg.pSockErr,&p)){ n->sockFailInCall=true; errno=pickErr(p,{EMFILE,ENFILE,ENOBUFS,ENOMEM}); return -1; }
  Sock* s=newSock(n,(type&0xF)==SOCK_DGRAM?S_UDP:S_TCP); if(type&SOCK_NONBLOCK) s->nb=true; int fd=allocFd(n,s); s->lip=n->ip; if(s->t==S_UDP) s->lport=W.eph++; L_("socket(%s) -> fd %d sock%d",s->t==S_UDP?"udp":"tcp",fd,s->id); hashIn(0x50,W.cfg.pair==2?0:fd); return fd; }
int sim_setsockopt(int fd,int level,int opt,const void* val,socklen_t len){ Sock* s=getFd(fd,"setsockopt()"); if(!s) return -1; poison(val,len,"setsockopt()"); uint64_t p; if(fault(F_OPTERR,W.cfg.pOptErr,&p)){ s->optFailed=true; W.cur->sockFailInCall=true; errno=pickErr(p,{ENOBUFS,ENOMEM,ENOPROTOOPT}); return -1; }
  if(level==IPPROTO_IP&&opt==IP_ADD_MEMBERSHIP){ uint32_t i=ntohl(((const struct ip_mreq*)val)->imr_interface.s_addr); if(i&&i!=s->own->ip){ errno=ENODEV; return -1; } s->joined=true; s->mif=i; s->group=ntohl(((const struct ip_mreq*)val)->imr_multiaddr.s_addr); }
  if(level==IPPROTO_IP&&opt==IP_MULTICAST_IF){ uint32_t i=ntohl(len>=sizeof(struct ip_mreq)?((const struct ip_mreq*)val)->imr_interface.s_addr:((const struct in_addr*)val)->s_addr); if(i&&i!=s->own->ip){ errno=EADDRNOTAVAIL; return -1; } s->mif=i; }
  if(level==IPPROTO_IP&&opt==IP_MULTICAST_TTL) s->ttl=len>=sizeof(int)?*(const int*)val:*(const unsigned char*)val;
  if(level==SOL_SOCKET&&(opt==SO_REUSEPORT||opt==SO_REUSEADDR)){ if(*(const int*)val) s->reuse=true; }
  if(level==IPPROTO_IP&&opt==IP_DROP_MEMBERSHIP) s->joined=false;
  return 0; }
int sim_getsockopt(int fd,int level,int opt,void* val,socklen_t* len){ Sock* s=getFd(fd,"getsockopt()"); if(!s) return -1; uint64_t p; if(fault(F_GETOPTERR,W.cfg.pGetOptErr,&p)){ s->optFailed=true; errno=pickErr(p,{ENOBUFS,ENOMEM}); return -1; }
  if((int)*len<0){ errno=EINVAL; return -1; } poison(val,*len,"getsockopt()"); if(level==SOL_SOCKET&&opt==SO_ERROR){ *(int*)val=s->soerr; s->soerr=0; *len=sizeof(int); } else memset(val,0,*len); return 0; }
int sim_bind(int fd,const struct sockaddr* a,socklen_t l){ Sock* s=getFd(fd,"bind()"); if(!s) return -1; poison(a,l,"bind()"); if(badAddr(a,l,true)) return -1; uint64_t p; if(fault(F_BINDERR,W.cfg.pBindErr,&p)){ errno=pickErr(p,{EADDRINUSE,EADDRNOTAVAIL,ENOMEM}); return -1; }
  const struct sockaddr_in* in=(const struct sockaddr_in*)a; s->lip=ntohl(in->sin_addr.s_addr); s->lport=ntohs(in->sin_port); if(!s->lport) s->lport=W.eph++;
  for(Node* m:W.nodes) if(m->ip==s->own->ip&&m->up) for(auto&f:m->fds){ Sock* o=f.second; if(o!=s&&o->t==s->t&&o->bound&&o->lport==s->lport&&!(o->reuse&&s->reuse)){ L_("bind: port %d in use",s->lport); W.cur->sockFailInCall=true; errno=EADDRINUSE; return -1; } }
  if(s->t==S_TCP&&!s->reuse){ auto w=s->own->timeWait.find(s->lport); if(w!=s->own->timeWait.end()&&w->second>W.now){ L_("bind: port %d in TIME_WAIT",s->lport); W.cur->sockFailInCall=true; errno=EADDRINUSE; return -1; } }
  s->bound=true; return 0; }
int sim_listen(int fd,int backlog){ Sock* s=getFd(fd,"listen()"); if(!s) return -1; uint64_t p; if(fault(F_LISTENERR,W.cfg.pListenErr,&p)){ errno=EADDRINUSE; return -1; } s->listening=true; s->backlog=backlog; s->st=T_NEW; L_("listen on port %d",s->lport); return 0; }
int sim_getsockname(int fd,struct sockaddr* a,socklen_t* l){ Sock* s=getFd(fd,"getsockname()"); if(!s) return -1; uint64_t p; if(fault(F_NAMEERR,W.cfg.pNameErr,&p)){ errno=ENOBUFS; return -1; } if((int)*l<0){ errno=EINVAL; return -1; } struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_addr.s_addr=htonl(s->lip); in.sin_port=htons(s->lport); memcpy(a,&in,*l<sizeof in?*l:sizeof in); *l=sizeof in; return 0; }
int sim_getpeername(int fd,struct sockaddr* a,socklen_t* l){ Sock* s=getFd(fd,"getpeername()"); if(!s) return -1; if(s->t!=S_TCP||s->st!=T_EST){ errno=ENOTCONN; return -1; } struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_addr.s_addr=htonl(s->rip); in.sin_port=htons(s->rport); memcpy(a,&in,*l<sizeof in?*l:sizeof in); *l=sizeof in; return 0; }
int sim_accept4(int fd,struct sockaddr* a,socklen_t* l,int flags){ Sock* s=getFd(fd,"accept()"); if(!s) return -1; if(!s->listening){ errno=EINVAL; return -1; }
  if(s->aq.empty()){ if(!s->nb) viol("C07","blocking-call","accept() on a blocking socket with no pending connection would block"); errno=EAGAIN; return -1; }
  uint64_t p; if(fault(F_ACCERR,W.cfg.pAccErr,&p)){ W.cur->sockFailInCall=true; int e=pickErr(p,{ECONNABORTED,EMFILE,ENFILE,ENOBUFS,EINTR,EPROTO}); if(e==ECONNABORTED){ Sock* c=s->aq.front(); s->aq.pop_front(); c->open=false; c->st=T_DEAD; sendRst(c); } errno=e; return -1; }
  if(a&&(int)*l<0){ Sock* c=s->aq.front(); s->aq.pop_front(); c->open=false; c->st=T_DEAD; sendRst(c); errno=EINVAL; return -1; }
  Sock* c=s->aq.front(); s->aq.pop_front(); int nfd=allocFd(W.cur,c); if(flags&SOCK_NONBLOCK) c->nb=true;
  if(a){ struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_addr.s_addr=htonl(c->rip); in.sin_port=htons(c->rport); poison(a,*l<sizeof in?*l:sizeof in,"accept()"); memcpy(a,&in,*l<sizeof in?*l:sizeof in); *l=sizeof in; }
  L_("accept -> fd %d sock%d",nfd,c->id); hashIn(0xAC,c->id); onAccept(c); return nfd; }
int sim_accept(int fd,struct sockaddr* a,socklen_t* l){ return sim_accept4(fd,a,l,0); }
int sim_connect(int fd,const struct sockaddr* a,socklen_t l){ Sock* s=getFd(fd,"connect()"); if(!s) return -1; poison(a,l,"connect()"); if(badAddr(a,l,false)) return -1; const struct sockaddr_in* in=(const struct sockaddr_in*)a; uint32_t ip=ntohl(in->sin_addr.s_addr); uint16_t port=ntohs(in->sin_port);
  if(!s->nb) viol("C07","blocking-call","connect() on a blocking socket would block");
  W.cur->connectsInCall++; s->link=onConnect(W.cur,s,ip,port);
  uint64_t p; if(fault(F_CONNERR,W.cfg.pConnErr,&p)){ s->st=T_NEW; if(s->link) onConnFail(s); errno=pickErr(p,{ENETUNREACH,EADDRNOTAVAIL,ECONNREFUSED,EHOSTUNREACH,ENOBUFS}); return -1; }
  L_("connect sock%d to %x:%d",s->id,ip,port); hashIn(0xC7,s->id); kconnect(s,ip,port);
  if(fault(F_CONNIMM,W.cfg.pConnImm)){ Node* host=nullptr; Sock* lst=findListener(ip,port,&host); if(lst&&host&&!partd(W.cur,host)&&(int)lst->aq.size()<=lst->backlog){ Sock* ss=newSock(lst->own,S_TCP); ss->isServer=true; ss->lip=ip; ss->lport=port; ss->rip=s->own->ip; ss->rport=s->lport; ss->st=T_EST; ss->peer=s; ss->link=s->link; s->peer=ss; s->st=T_EST; lst->aq.push_back(ss); wakeSock(lst); return 0; } }
  errno=EINPROGRESS; return -1; }
int sim_fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long arg=va_arg(ap,long); va_end(ap); Sock* s=getFd(fd,"fcntl()"); if(!s) return -1; if(cmd==F_GETFL) return O_RDWR|(s->nb?O_NONBLOCK:0); if(cmd==F_SETFL){ s->nb=(arg&O_NONBLOCK)!=0; return 0; } return 0; }
int sim_ioctl(int fd,unsigned long req,...){ va_list ap; va_start(ap,req); int* arg=va_arg(ap,int*); va_end(ap); Sock* s=getFd(fd,"ioctl()"); if(!s) return -1; if(req==0x5421) s->nb=*arg!=0; return 0; }
int sim_shutdown(int fd,int how){ Sock* s=getFd(fd,"shutdown()"); if(!s) return -1; (void)how; if(s->t!=S_TCP||s->st!=T_EST){ errno=ENOTCONN; return -1; } s->shut=true; s->finq=true; if(how!=SHUT_WR) {} pump(s); return 0; }
int sim_close(int fd){ Sock* s=getFd(fd,"close()"); if(!s) return -1; Node* n=W.cur; for(auto&r:n->regs) if(r.second.fd==fd){ if(!(W.cfg.nullPoll&2)) viol("C10","close-registered","descriptor %d closed while still registered for polling (index %d)",fd,r.first); n->regs.erase(r.first); break; }
  n->fds.erase(fd); s->fd=-1; L_("close fd %d sock%d",fd,s->id); closeSock(s,false); return 0; }
static ssize_t doWrite0(int fd,const struct iovec* iov,int cnt,bool nbflag,bool nosig){ Sock* s=getFd(fd,"write()"); if(!s) return -1; size_t tot=0; for(int i=0;i<cnt;i++){ poison(iov[i].iov_base,iov[i].iov_len,"writev()"); tot+=iov[i].iov_len; }
  if(s->t!=S_TCP||s->listening){ errno=EOPNOTSUPP; return -1; }
  if(s->st==T_SYN||s->st==T_NEW){ errno=s->st==T_SYN?EAGAIN:ENOTCONN; return -1; }
  if(s->rrst||s->st==T_DEAD||s->shut){ if(s->soerr&&s->soerr!=EPIPE){ errno=s->soerr; s->soerr=0; return -1; } s->soerr=0; noteFault(F_EPIPE); if(!W.cur->sigpipeIgn&&!nosig) viol("*","sigpipe","writing to a closed connection raised SIGPIPE, which would end the process"); errno=EPIPE; return -1; }
  int64_t room=W.cfg.sndCap-(int64_t)s->snd.size(); uint64_t p;
  if(room<=0||fault(F_WEAGAIN,W.cfg.pWEagain,&p)){ int e=EAGAIN; if(room>0) e=pickErr(p,{EAGAIN,EAGAIN,EAGAIN,ENOBUFS,EINTR}); if(room<=0&&!s->nb&&!nbflag) viol("C07","blocking-call","write on a blocking socket with a full send buffer would block"); s->lastBlocked=W.now; errno=e; return -1; }
  size_t n=std::min<size_t>(tot,(size_t)room); if(n<tot){ if(!s->nb&&!nbflag) viol("C07","blocking-call","write of %zu bytes on a blocking socket with room for %zu would block",tot,n); s->lastBlocked=W.now; } if(n>1&&fault(F_SHORTW,W.cfg.pShortW,&p)){ n=1+p%(n-1); s->lastBlocked=W.now; }
  std::string d; for(int i=0;i<cnt&&d.size()<n;i++) d.append((const char*)iov[i].iov_base,std::min<size_t>(iov[i].iov_len,n-d.size()));
  s->wrTot+=d.size(); s->lastWrite=W.now; s->snd+=d; W.cur->pcount++; hashIn(0x3A,s->id,H(d.size(),(uint8_t)d[0])); L_("write sock%d %zu of %zu bytes",s->id,d.size(),tot); onStreamWrite(s,d.data(),d.size()); pump(s); return d.size(); }
static ssize_t doWrite(int fd,const struct iovec* iov,int cnt,bool nbflag,bool nosig=false){ ssize_t r=doWrite0(fd,iov,cnt,nbflag,nosig); if(r<0&&W.cur) W.cur->ioFailInCall=true; return r; }
ssize_t sim_writev(int fd,const struct iovec* iov,int cnt){ return doWrite(fd,iov,cnt,false); }
ssize_t sim_write(int fd,const void* b,size_t n){ struct iovec v={(void*)b,n}; return doWrite(fd,&v,1,false); }
static ssize_t udpSend(Sock* s,const struct sockaddr_in* to,const std::string& d,int flags){
  struct Mark{ Sock* s; bool ok=false; ~Mark(){ if(!ok) s->own->ioFailInCall=true; } } mark{s};
  if(s->wblock>W.now||fault(F_SENDEAGAIN,W.cfg.pSendEagain)){ if(s->wblock<=W.now){ s->wblock=W.now+500+(Us)(choose(0xB10,s->id)%15000); Node* n=s->own; at(s->wblock,[n]{ kick(n); }); } if(!s->nb&&!(flags&MSG_DONTWAIT)) viol("C07","blocking-call","sendmsg() on a full multicast socket would block"); s->lastBlocked=W.now; errno=EAGAIN; return -1; }
  uint64_t p; if(fault(F_SENDERR,W.cfg.pSendErr,&p)){ s->lastBlocked=W.now; errno=pickErr(p,{ENOBUFS,EINTR,ENETUNREACH,ENETDOWN,ENOMEM,EHOSTUNREACH}); return -1; }
  if(d.size()>65507){ errno=EMSGSIZE; return -1; } if(!to){ errno=EDESTADDRREQ; return -1; } if(to->sin_family!=AF_INET&&to->sin_family!=AF_UNSPEC){ errno=EAFNOSUPPORT; return -1; }
  mark.ok=true; Dgram g; g.data=d; g.ip=s->own->ip; g.port=s->lport; g.from=s->own; s->lastWrite=W.now; s->own->pcount++; onWireSend(s->own,g); if(s->own->kind==N_PUB){ if(ntohl(to->sin_addr.s_addr)!=grpIp(s->own)||ntohs(to->sin_port)!=grpPort(s->own)) viol("C22,C18","wrong-group","a datagram was sent to %x:%u instead of the configured group %x:%u",ntohl(to->sin_addr.s_addr),ntohs(to->sin_port),grpIp(s->own),grpPort(s->own)); if(s->mif!=(W.cfg.mcastIf?s->own->ip:0)) viol("C22","wrong-interface","a datagram was sent through interface %x instead of %x",s->mif,W.cfg.mcastIf?s->own->ip:0); if(s->ttl!=s->own->ttlSet) viol("C22","wrong-lifetime","a datagram was sent with lifetime %d instead of %d",s->ttl,s->own->ttlSet); } if(W.cfg.mcastIf&&s->mif!=s->own->ip){ L_("sent on the wrong interface"); return d.size(); } hashIn(0x5D,g.pid,d.size()); L_("multicast pid %llu len %zu",(unsigned long long)g.pid,d.size()); mcastDeliver(s->own,ntohl(to->sin_addr.s_addr),ntohs(to->sin_port),g); return d.size(); }
ssize_t sim_sendmsg(int fd,const struct msghdr* m,int flags){ Sock* s=getFd(fd,"sendmsg()"); if(!s) return -1; std::string d; for(size_t i=0;i<m->msg_iovlen;i++){ poison(m->msg_iov[i].iov_base,m->msg_iov[i].iov_len,"sendmsg()"); d.append((const char*)m->msg_iov[i].iov_base,m->msg_iov[i].iov_len); }
  if(s->t==S_TCP) return doWrite(fd,m->msg_iov,m->msg_iovlen,flags&MSG_DONTWAIT,flags&MSG_NOSIGNAL); poison(m->msg_name,m->msg_namelen,"sendmsg()"); if(badAddr((const struct sockaddr*)m->msg_name,m->msg_namelen,true)) return -1; return udpSend(s,(const struct sockaddr_in*)m->msg_name,d,flags); }
ssize_t sim_sendto(int fd,const void* b,size_t n,int flags,const struct sockaddr* a,socklen_t al){ Sock* s=getFd(fd,"sendto()"); if(!s) return -1; poison(b,n,"sendto()"); if(s->t==S_UDP&&badAddr(a,al,true)) return -1; if(s->t==S_TCP){ struct iovec v={(void*)b,n}; return doWrite(fd,&v,1,flags&MSG_DONTWAIT,flags&MSG_NOSIGNAL); } return udpSend(s,(const struct sockaddr_in*)a,std::string((const char*)b,n),flags); }
ssize_t sim_send(int fd,const void* b,size_t n,int flags){ struct iovec v={(void*)b,n}; return doWrite(fd,&v,1,flags&MSG_DONTWAIT,flags&MSG_NOSIGNAL); }
static ssize_t doRead0(int fd,const struct iovec* iov,int cnt,bool nbflag){ Sock* s=getFd(fd,"read()"); if(!s) return -1; size_t tot=0; for(int i=0;i<cnt;i++){ poison(iov[i].iov_base,iov[i].iov_len,"readv()"); tot+=iov[i].iov_len; }
  if(s->t!=S_TCP){ errno=EINVAL; return -1; } if(s->st==T_SYN||s->st==T_NEW){ errno=s->st==T_SYN?EAGAIN:ENOTCONN; return -1; }
  if(s->rcv.empty()){ if(s->rfin){ W.cur->pcount++; s->eofRead=true; return 0; } if(s->rrst||s->st==T_DEAD){ s->eofRead=true; if(s->soerr){ errno=s->soerr; s->soerr=0; return -1; } return 0; } if(s->shut) return 0; if(!s->nb&&!nbflag) viol("C07","blocking-call","read on a blocking connection with no data would block"); errno=EAGAIN; return -1; }
  uint64_t p; if(fault(F_RDAGAIN,W.cfg.pRAgain,&p)){ errno=pickErr(p,{EAGAIN,EINTR}); return -1; }
  size_t n=std::min(tot,s->rcv.size()); if(n>1&&fault(F_SHORTR,W.cfg.pShortR,&p)) n=1+p%(n-1);
  std::string d=s->rcv.substr(0,n); s->rcv.erase(0,n); size_t o=0; for(int i=0;i<cnt&&o<n;i++){ size_t k=std::min<size_t>(iov[i].iov_len,n-o); if(k) memcpy(iov[i].iov_base,d.data()+o,k); o+=k; }
  s->rdTot+=n; W.cur->pcount++; hashIn(0x4A,s->id,H(n,(uint8_t)d[0])); L_("read sock%d %zu bytes",s->id,n); if(s->peer) pump(s->peer); onStreamRead(s,d.data(),n); return n; }
static ssize_t doRead(int fd,const struct iovec* iov,int cnt,bool nbflag){ ssize_t r=doRead0(fd,iov,cnt,nbflag); if(r<0&&W.cur) W.cur->ioFailInCall=true; return r; }
ssize_t sim_readv(int fd,const struct iovec* iov,int cnt){ return doRead(fd,iov,cnt,false); }
ssize_t sim_read(int fd,void* b,size_t n){ struct iovec v={b,n}; return doRead(fd,&v,1,false); }
ssize_t sim_recvfrom(int fd,void* b,size_t n,int flags,struct sockaddr* a,socklen_t* l){ Sock* s=getFd(fd,"recvfrom()"); if(!s) return -1; if(s->t==S_TCP){ struct iovec v={b,n}; return doRead(fd,&v,1,flags&MSG_DONTWAIT); }
  poison(b,n,"recvfrom()"); while(!s->rx.empty()&&dropForCleanJoin(W.cur,s->rx.front())) s->rx.pop_front();
  if(!s->rx.empty()&&fault(F_RXBAD,W.cfg.pRxBad)){ L_("datagram pid %llu discarded when read",(unsigned long long)s->rx.front().pid); s->rx.pop_front(); W.cur->pcount++; while(!s->rx.empty()&&dropForCleanJoin(W.cur,s->rx.front())) s->rx.pop_front(); }
  if(s->rx.empty()){ if(!s->nb&&!(flags&MSG_DONTWAIT)) viol("C07","blocking-call","recvfrom() with no datagram would block"); W.cur->ioFailInCall=true; errno=EAGAIN; return -1; }
  uint64_t p; if(fault(F_RECVERR,W.cfg.pRecvErr,&p)){ W.cur->ioFailInCall=true; errno=pickErr(p,{EINTR,ENOMEM,ENETDOWN}); return -1; }
  if(a&&(int)*l<0){ s->rx.pop_front(); errno=EINVAL; return -1; }
  Dgram d=s->rx.front(); s->rx.pop_front(); size_t k=std::min(n,d.data.size()); memcpy(b,d.data.data(),k); if(a){ struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_addr.s_addr=htonl(d.ip); in.sin_port=htons(d.port); memcpy(a,&in,*l<sizeof in?*l:sizeof in); *l=sizeof in; }
  W.cur->pcount++; hashIn(0x2F,d.pid,k); L_("recvfrom pid %llu len %zu from %x",(unsigned long long)d.pid,k,d.ip); d.data.resize(k); if(W.cur->kind==N_SUB) onConsume(W.cur,d); return k; }
ssize_t sim_recvmsg(int fd,struct msghdr* m,int flags){ Sock* s=getFd(fd,"recvmsg()"); if(!s) return -1; if(s->t==S_TCP) return doRead(fd,m->msg_iov,m->msg_iovlen,flags&MSG_DONTWAIT); std::string tmp(70000,0); socklen_t l=m->msg_namelen; ssize_t r=sim_recvfrom(fd,&tmp[0],tmp.size(),flags,(struct sockaddr*)m->msg_name,&l); if(r<0) return r; size_t o=0; for(size_t i=0;i<m->msg_iovlen&&o<(size_t)r;i++){ size_t k=std::min<size_t>(m->msg_iov[i].iov_len,r-o); memcpy(m->msg_iov[i].iov_base,tmp.data()+o,k); o+=k; } m->msg_flags=(size_t)r>o?MSG_TRUNC:0; if(m->msg_name) m->msg_namelen=l; m->msg_controllen=0; return o; }
ssize_t sim_recv(int fd,void* b,size_t n,int flags){ struct sockaddr_in in; socklen_t l=sizeof in; return sim_recvfrom(fd,b,n,flags,(struct sockaddr*)&in,&l); }
static void tick(){ if(W.cfg.pair) return; W.now+=1+(Us)(H(W.seed,0x71C,W.now)%2); }
int sim_clock_gettime(clockid_t c,struct timespec* t){ (void)c; tick(); Us v=nodeClock(W.cur); t->tv_sec=v/1000000; t->tv_nsec=(v%1000000)*1000; return 0; }
int sim_gettimeofday(struct timeval* t,void* z){ (void)z; tick(); Us v=nodeClock(W.cur); t->tv_sec=v/1000000; t->tv_usec=v%1000000; return 0; }
time_t sim_time(time_t* t){ time_t v=nodeClock(W.cur)/1000000; if(t) *t=v; return v; }
int sim_usleep(unsigned u){ (void)u; viol("C07","blocking-call","usleep() inside a library call blocks the application"); return 0; }
int sim_nanosleep(const struct timespec* a,struct timespec* b){ (void)a;(void)b; viol("C07","blocking-call","nanosleep() inside a library call blocks the application"); return 0; }
unsigned sim_sleep(unsigned s){ (void)s; viol("C07","blocking-call","sleep() inside a library call blocks the application"); return 0; }
int sim_rand(void){ return (int)(choose(0x8A4D)&0x7FFFFFFF); }
long sim_random(void){ return (long)(choose(0x8A4D)&0x7FFFFFFF); }
int sim_rand_r(unsigned* s){ *s=(unsigned)H(*s,1); return (int)(*s&0x7FFFFFFF); }
typedef void (*sigh)(int);
sigh sim_signal(int sig,sigh h){ if(sig==SIGPIPE&&W.cur) W.cur->sigpipeIgn=(h==SIG_IGN); return SIG_DFL; }
int sim_sigaction(int sig,const struct sigaction* a,struct sigaction* o){ if(o) memset(o,0,sizeof *o); if(a&&sig==SIGPIPE&&W.cur) W.cur->sigpipeIgn=(a->sa_handler==SIG_IGN); return 0; }
int sim_vfprintf(FILE* f,const char* fmt,va_list ap){ int r=vfprintf(f,fmt,ap); errno=ENOTTY; return r; }
int memFill(){ return W.cfg.pair==2&&pairSide==1?(int)W.cfg.bFill:0xA5; }
void* sim_malloc(size_t n){ void* p=malloc(n?n:1); memset(p,memFill(),n); if(W.cur){ W.cur->mem[p]=n; if(++W.cur->allocInCall>1000000){ viol("*","hang","more than a million allocations in one library call"); _exit(78); } } return p; }
void* sim_calloc(size_t a,size_t b){ void* p=calloc(a?a:1,b?b:1); if(W.cur) W.cur->mem[p]=a*b; return p; }
void sim_free(void* p){ if(!p) return; Node* n=W.cur; if(!n){ free(p); return; }
  auto it=n->mem.find(p); if(it!=n->mem.end()){ n->mem.erase(it); free(p); return; }
  if(n->kind==N_PUB&&n->live.count(p)){ onUserFree(n,p,-1,false); return; }
  viol("*","bad-free","free() of memory that is not allocated or was not handed over (double free, or a refused payload released)"); }
void* sim_realloc(void* q,size_t n){ void* p=sim_malloc(n); if(q){ size_t o=W.cur?W.cur->mem[q]:0; memcpy(p,q,o<n?o:n); sim_free(q); } return p; }
void* sim_reallocarray(void* q,size_t a,size_t b){ return sim_realloc(q,a*b); }
char* sim_strndup(const char* s,size_t n){ size_t k=strnlen(s,n); char* p=(char*)sim_malloc(k+1); memcpy(p,s,k); p[k]=0; return p; }
char* sim_strdup(const char* s){ return sim_strndup(s,strlen(s)); }
static void* aligned(size_t a,size_t n){ void* p=nullptr; if(posix_memalign(&p,a<sizeof(void*)?sizeof(void*):a,n?n:1)) return nullptr; memset(p,memFill(),n); if(W.cur) W.cur->mem[p]=n; return p; }
void* sim_aligned_alloc(size_t a,size_t n){ return aligned(a,n); }
void* sim_memalign(size_t a,size_t n){ return aligned(a,n); }
int sim_posix_memalign(void** r,size_t a,size_t n){ *r=aligned(a,n); return *r?0:ENOMEM; }
int sim_vasprintf(char** r,const char* f,va_list ap){ char* t=nullptr; int k=vasprintf(&t,f,ap); if(k<0) return k; *r=sim_strdup(t); free(t); return k; }
int sim_asprintf(char** r,const char* f,...){ va_list ap; va_start(ap,f); int k=sim_vasprintf(r,f,ap); va_end(ap); return k; }
void sim_exit(int c){ viol("*","library-exit","the library called exit(%d)",c); _exit(79); }
void sim_abort(void){ viol("*","library-abort","the library called abort()"); _exit(79); }
void sim___assert_fail(const char* e,const char* f,unsigned l,const char* fn){ const char* b=strrchr(f,'/'); viol("*","library-assert","assertion failed: %s (%s:%u %s)",e,b?b+1:f,l,fn); _exit(79); }
void sim_perror(const char* s){ (void)s; }
}
