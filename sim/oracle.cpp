// Reference model and oracles. Everything here observes the system calls, the callbacks and the public queries only.
#include "core.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <arpa/inet.h>
#pragma pack(push,1)
struct Hdr{ uint64_t pid; uint32_t node; uint16_t len; uint32_t ip; uint16_t port; };
#pragma pack(pop)
typedef unsigned long long ull;
Us nodeClock(Node* n){ return W.now+(n?n->clk:W.cfg.pair==1?MS(1000):0); }
std::string hexs(const std::string& s,size_t max){ std::string o; char b[4]; for(size_t i=0;i<s.size()&&i<max;i++){ snprintf(b,4,"%02x",(uint8_t)s[i]); o+=b; } if(s.size()>max) o+=".."; return o; }
Node* nodeByIp(uint32_t ip,uint16_t port){ for(Node* n:W.nodes) if(n->ip==ip&&n->listenPort==port&&port) return n; return nullptr; }
void fillPayload(std::string& out,int pub,int epoch,int seq,int len){ out.resize(len); uint64_t h=H(W.seed,0xDA7A,pub*1000+epoch,seq); for(int i=0;i<len;i++){ if((i&7)==0) h=mix64(h+i); out[i]=(char)(h>>((i&7)*8)); }
  if(len>=8){ out[0]=(char)pub; out[1]=(char)epoch; out[2]=(char)seq; out[3]=(char)(seq>>8); out[4]=(char)(0xA0|pub); out[5]=(char)len; out[6]=(char)(len>>8); out[7]=0x5A; } }
std::string payloadOf(Node* pub,int epoch,int seq){ (void)epoch; return seq>=0&&seq<(int)pub->pkts.size()?pub->pkts[seq].data:std::string(); }
Link* curLink(Node* sub,uint32_t ip,uint16_t port){ for(size_t i=sub->slinks.size();i--;){ Link* l=sub->slinks[i]; if(l->subInc==sub->inc&&l->ip==ip&&l->port==port&&!l->subClosed) return l; } return nullptr; }
static bool linkOpenP(Link* l){ return l->accepted&&!l->pubClosed; }
static const char* nm(Node* n,char* b){ if(!n) return "unknown"; sprintf(b,"%c%d",n->kind==N_PUB?'P':n->kind==N_SUB?'S':'R',n->idx); return b; }
static std::string ln(Link* l){ char a[16],b[16],o[80]; snprintf(o,80,"%s->%s link %d",nm(l->pub,a),nm(l->sub,b),l->id); return o; }

// ---------------------------------------------------------------- publisher side wire
void onWireSend(Node* n,Dgram& d){
  d.ord=++W.ord; d.epoch=n->epoch; if(n->kind!=N_PUB) return; n->lastDg=d.data;
  if(d.data.size()<sizeof(Hdr)){ viol("C18,C12","short-datagram","a datagram of %zu bytes was multicast",d.data.size()); return; }
  Hdr h; memcpy(&h,d.data.data(),sizeof h); std::string pl=d.data.substr(sizeof h); d.pid=h.pid;
  if(h.len!=pl.size()) viol("C18,C02,C12","bad-length","datagram pid %llu announces %u payload bytes but carries %zu",(ull)h.pid,h.len,pl.size());
  if(!n->nodeId) n->nodeId=h.node;
  if(h.node!=n->nodeId) viol("C09,C12,C18,C22","wrong-node-id","datagram carries node id %x instead of %x",h.node,n->nodeId);
  if(h.port!=n->listenPort) viol("C09,C12,C18,C22","wrong-port","datagram announces control port %u, the publisher listens on %u",h.port,n->listenPort);
  if(h.ip!=n->listenIp) viol("C09,C12,C18,C22","wrong-ip","datagram announces address %x instead of %x",h.ip,n->listenIp);
  if(h.pid==0){
    auto it=std::find(n->annPend.begin(),n->annPend.end(),pl);
    if(it==n->annPend.end()){ viol("C12","announce-bytes","an announcement of %zu bytes (%s) was sent, which was not produced by the callback or was sent already",pl.size(),hexs(pl).c_str()); return; }
    n->annPend.erase(it); n->annN++; n->annAll.insert(pl); return; }
  if(n->dataQ.empty()){ viol("C18","extra-datagram","data pid %llu was multicast though every accepted packet had been sent",(ull)h.pid); return; }
  int i=n->dataQ.front(); Pkt& p=n->pkts[i];
  if(h.pid==1&&n->byPid.v.empty()){ n->lastPid=0; n->byPid.clear(0); } // a library without the hook starts at 1
  if(h.pid!=n->lastPid+1) viol("C18","pid-order","packet id %llu was sent after %llu",(ull)h.pid,(ull)n->lastPid);
  if(pl!=p.data){ viol("C18,C02","wrong-payload","pid %llu was multicast with bytes that are not those of the next queued packet (%zu bytes %s, expected %zu bytes %s)",(ull)h.pid,pl.size(),hexs(pl).c_str(),p.data.size(),hexs(p.data).c_str()); }
  if(p.freed) viol("C04","released-early","the payload of pid %llu was released before it was sent",(ull)h.pid);
  n->dataQ.pop_front(); n->lastPid=h.pid; p.pid=h.pid; p.sentAt=W.now; d.seq=i; n->inflight++; n->byPid.set(h.pid,i);
  bool any=false; for(Link* l:n->plinks) if(linkOpenP(l)&&!l->rejected){ any=true; if(!l->A) l->A=h.pid; l->lastOwed=h.pid; l->unacked[h.pid]=W.now; }
  if(!any) probe(P_NOSUBSEND); else if(h.pid==65536) probe(P_PID16); if(pl.size()==0) probe(P_ZEROLEN); if(pl.size()==sim_max_payload) probe(P_MAXLEN); }

bool dropForCleanJoin(Node* n,const Dgram& d){
  if(!W.cfg.clean||n->kind!=N_SUB||!d.from||d.from->kind!=N_PUB||d.pid==0||d.seq<0) return false;
  Link* l=curLink(n,d.from->ip,d.from->listenPort); if(!l||!l->complete) { // not subscribed: the library must ignore it anyway
    return false; }
  bool drop=false; if(!l->accepted||d.ord<l->acceptOrd||l->pub!=d.from||l->pubEpoch!=d.epoch||l->pubInc!=d.from->inc||l->pubClosed) drop=true; else if(l->F==0&&d.pid!=l->A) drop=true;
  if(drop){ SH->faultCount[F_CLEANDROP]++; L_("clean join: drop pid %llu",(ull)d.pid); }
  return drop; }

static void consumed(Node* n,Link* l,uint64_t pid,Ident id){
  bool first=l->F==0;
  if(first){ l->F=pid; l->next=pid; if(W.cfg.clean&&pid!=l->A&&!l->rogue&&!l->mixed&&l->accepted) viol("C03,C13","first-packet","%s: the first packet to arrive is %llu, but %llu is owed before it",ln(l).c_str(),(ull)pid,(ull)l->A); }
  else if(pid<l->next||l->cons.count(pid)){ probe(P_DUPRX); return; }
  if(pid!=l->next) probe(P_OOORX);
  if(!id.tcp) { l->needAck[pid]=W.now; l->got.insert(pid); }
  l->cons[pid]=std::move(id);
  while(true){ auto it=l->cons.find(l->next); if(it==l->cons.end()) break; int k=it->second.pub?it->second.pub->idx:255; n->expectQ[k].push_back(it->second); n->expectN++; l->cons.erase(it); l->next++; } }

static void finishAnnounce(Node* n){ // the announcement consumed last has been handled
  if(!n->annRx) return; n->annRx=false; Link* l=curLink(n,n->annD.ip,n->annD.port);
  if((n->cbm&1)&&!n->annCbCalls&&!l) viol("C12,C09","announce-not-shown","an announcement of a publisher without a subscription (%x:%d) was not shown to the application",n->annD.ip,n->annD.port);
  if(n->annCbCalls>1) viol("C12","announce-shown-twice","the announce callback was called %d times for one announcement",n->annCbCalls);
  if(n->annAcceptKey.empty()||l||n->connectsInCall>n->annConnects||n->sockFailInCall) return; int have=0; for(Link* x:n->slinks) if(x->subInc==n->inc&&!x->subClosed) have++;
  if(have<W.cfg.maxPubs) viol("C09","announce-ignored","the announcement of %x:%d was accepted but no connection was opened",n->annD.ip,n->annD.port); else probe(P_SLOTFULL); }
void onConsume(Node* n,const Dgram& d){
  finishAnnounce(n); if(d.data.size()<sizeof(Hdr)){ n->ioFailInCall=true; return; } Hdr h; memcpy(&h,d.data.data(),sizeof h); if(d.data.size()<sizeof(Hdr)+h.len){ n->ioFailInCall=true; return; }
  uint32_t ip=h.ip?h.ip:d.ip; Link* l=curLink(n,ip,h.port);
  if(h.pid==0){ if(!l||!l->complete){ n->annRx=true; n->annD=d; n->annD.ip=ip; n->annD.port=h.port; n->annD.seq=(int)h.node; n->annD.data=d.data.substr(sizeof(Hdr),h.len); n->annCbCalls=0; n->annConnects=n->connectsInCall; n->annAcceptKey.clear();
      if(!l){ probe(P_ANNRX); n->reqFail.clear(); } if(!(n->cbm&1)&&!l){ n->annAccepted++; n->annAcceptKey="x"; } } return; }
  if(!l||!l->complete) return;
  if(l->rogue||!d.from||d.from->kind!=N_PUB){ return; }
  Ident id{d.from,d.epoch,d.seq,false,d.data.substr(sizeof(Hdr),h.len),l};
  bool mixed=l->pub!=d.from||(l->accepted&&(l->pubEpoch!=d.epoch||l->pubInc!=d.from->inc))||(l->accepted&&l->pubClosed&&d.ord>l->acceptOrd&&l->pubCloseAt>=0&&d.from->pkts.size()>(size_t)d.seq&&d.from->pkts[d.seq].sentAt>=l->pubCloseAt);
  if(!l->accepted){ // consumed before the publisher accepted: fine unless an earlier epoch
    if(l->pubEpoch>=0&&l->pubEpoch!=d.epoch) mixed=true; }
  if(mixed&&!l->mixed){ l->mixed=true; if(!l->pubClosed||l->pubEpoch!=d.epoch||l->pubInc!=d.from->inc) { if(l->F&&h.pid>=l->next&&!l->cons.count(h.pid)) known(KF_SPLICE,"%s: pid %llu sent after the publisher restarted was taken into the subscription made before the restart",ln(l).c_str(),(ull)h.pid); } }
  consumed(n,l,h.pid,id); }

// ---------------------------------------------------------------- control streams
static uint64_t rd64(const char* p){ uint64_t v; memcpy(&v,p,8); return v; } static uint16_t rd16(const char* p){ uint16_t v; memcpy(&v,p,2); return v; }
static size_t cmdLen(const std::string& b,bool fromPub){ // 0: incomplete, SIZE_MAX: unknown command
  if(b.empty()) return 0; uint8_t c=b[0];
  if(fromPub){ if(c!=1) return SIZE_MAX; if(b.size()<21) return 0; size_t l=21+rd16(&b[13]); return b.size()<l?0:l; }
  if(c==2) return b.size()<17?0:17; if(c==3){ if(b.size()<3) return 0; size_t l=3+rd16(&b[1]); return b.size()<l?0:l; } return SIZE_MAX; }
static void subAckOut(Node* n,Link* l,uint64_t a,uint64_t b){
  if(a==0||b<a||b-a>10000000) { viol("C14","bad-ack","%s: acknowledged the range %llu..%llu",ln(l).c_str(),(ull)a,(ull)b); return; }
  for(uint64_t p=a;p<=b;p++){ if(!l->got.count(p)) { viol("C14,C16","false-ack","%s: packet %llu was acknowledged but never received by multicast in this subscription (range %llu..%llu)",ln(l).c_str(),(ull)p,(ull)a,(ull)b); return; }
    auto it=l->needAck.find(p); if(it!=l->needAck.end()){ if(it->second>l->permit) viol("C13","early-ack","%s: packet %llu received at %.6f was acknowledged at %.6f, before any acknowledgement was due",ln(l).c_str(),(ull)p,it->second/1e6,W.now/1e6); l->needAck.erase(it); } }
  if(b>a) probe(P_ACKMERGE); (void)n; }
void onStreamWrite(Sock* s,const char* p,size_t k){
  Link* l=s->link; if(!l) return;
  if(s->isServer){ if(s->own->kind!=N_PUB) return; Parser& q=l->pPubOut; q.buf.append(p,k); size_t m;
    while((m=cmdLen(q.buf,true))>0){ if(m==SIZE_MAX){ viol("C02,C03,C18","bad-stream","%s: the publisher wrote an unknown command %d to its control stream",ln(l).c_str(),(uint8_t)q.buf[0]); q.buf.clear(); return; }
      Hdr h; memcpy(&h,&q.buf[1],sizeof h); std::string pl=q.buf.substr(21,m-21); q.buf.erase(0,m); Node* n=s->own;
      if(n->byPid.get(h.pid)<0){ viol("C02,C18,C12","bad-retransmission","%s: retransmission of packet %llu, which was never transmitted",ln(l).c_str(),(ull)h.pid); continue; }
      Pkt& pk=n->pkts[n->byPid.get(h.pid)]; probe(P_RESEND); if(pl.size()==sim_max_payload) probe(P_MAXRESEND);
      if(pl!=pk.data) viol("C02,C18","wrong-retransmission","%s: packet %llu was retransmitted with wrong bytes (%zu bytes %s, expected %zu bytes %s)",ln(l).c_str(),(ull)h.pid,pl.size(),hexs(pl).c_str(),pk.data.size(),hexs(pk.data).c_str());
      if(!l->A||h.pid<l->A) viol("C18,C16","retransmission-not-owed","%s: packet %llu was retransmitted but was sent before the subscriber was accepted",ln(l).c_str(),(ull)h.pid);
      if(W.now<pk.sentAt+MS(99)) viol("C13,C18","early-retransmission","%s: packet %llu was retransmitted %.1f ms after it was sent",ln(l).c_str(),(ull)h.pid,(W.now-pk.sentAt)/1e3);
      if(l->acked.count(h.pid)&&!l->ackTimerBefore.count(h.pid)) viol("C18","retransmission-to-acker","%s: packet %llu was retransmitted though the subscriber had acknowledged it in time",ln(l).c_str(),(ull)h.pid);
      if(l->resent.count(h.pid)) viol("C18","retransmission-twice","%s: packet %llu was retransmitted twice",ln(l).c_str(),(ull)h.pid);
      l->resent.insert(h.pid); l->unacked.erase(h.pid); l->assumed.erase(h.pid); }
  } else { if(s->own->kind!=N_SUB||l->rogue) return; Parser& q=l->pSubOut; q.buf.append(p,k); size_t m; if(q.buf.size()&&cmdLen(q.buf,false)==0) probe(P_PARTCMD);
    while((m=cmdLen(q.buf,false))>0){ if(m==SIZE_MAX){ viol("C06,C14,C03","bad-stream","%s: the subscriber wrote an unknown command %d to its control stream",ln(l).c_str(),(uint8_t)q.buf[0]); q.buf.clear(); return; }
      std::string c=q.buf.substr(0,m); q.buf.erase(0,m);
      if(c[0]==2) subAckOut(s->own,l,rd64(&c[1]),rd64(&c[9]));
      else { if(l->ctlN>=l->ctl.size()) viol("C06,C20","extra-control","%s: a control message of %zu bytes was sent that no accepted call asked for",ln(l).c_str(),m-3); else { if(c.substr(3)!=l->ctl[l->ctlN]) viol("C06","control-bytes","%s: control message %zu was sent as %zu bytes %s, expected %zu bytes %s",ln(l).c_str(),l->ctlN,m-3,hexs(c.substr(3)).c_str(),l->ctl[l->ctlN].size(),hexs(l->ctl[l->ctlN]).c_str()); l->ctlN++; } } } } }
void onStreamRead(Sock* s,const char* p,size_t k){
  Link* l=s->link; if(!l) return;
  if(s->isServer){ if(s->own->kind!=N_PUB) return; Node* n=s->own; Parser& q=l->pPubIn; if(q.bad) return; q.buf.append(p,k); size_t m;
    while((m=cmdLen(q.buf,false))>0){ if(m==SIZE_MAX){ q.bad=true; q.buf.clear(); return; } std::string c=q.buf.substr(0,m); q.buf.erase(0,m);
      if(c[0]==2){ uint64_t a=rd64(&c[1]),b=rd64(&c[9]); probe(P_ACKRX); for(auto it=l->unacked.lower_bound(a);it!=l->unacked.end()&&it->first<=b;){ l->acked.insert(it->first); if(n->lastTimer>=it->second+MS(100)-10) l->ackTimerBefore[it->first]=n->lastTimer; it=l->unacked.erase(it); }
        for(auto it=l->assumed.lower_bound(a);it!=l->assumed.end()&&it->first<=b;++it) { l->acked.insert(it->first); l->ackTimerBefore[it->first]=0; } }
      else n->ctlExpect++; }
    if(q.buf.size()>65400+17) {}
  } else { if(s->own->kind!=N_SUB||l->rogue) return; Node* n=s->own; Parser& q=l->pSubIn; q.buf.append(p,k); size_t m;
    while((m=cmdLen(q.buf,true))>0&&m!=SIZE_MAX){ Hdr h; memcpy(&h,&q.buf[1],sizeof h); std::string pl=q.buf.substr(21,m-21); q.buf.erase(0,m); int seq=l->pub?l->pub->byPid.get(h.pid):-1; Ident id{l->pub,l->pubEpoch,seq,true,pl,l}; consumed(n,l,h.pid,id); } } }

// ---------------------------------------------------------------- connections
Link* onConnect(Node* n,Sock* s,uint32_t ip,uint16_t port){
  Link* l=new Link; l->id=W.links.size(); l->sub=n; l->subInc=n->inc; l->ip=ip; l->port=port; l->cs=s; l->pub=nodeByIp(ip,port); W.links.push_back(l);
  if(n->kind!=N_SUB){ l->rogue=true; return l; }
  if(l->pub&&l->pub->kind==N_RAW) l->rogue=true; if(l->pub&&l->pub->kind==N_PUB){ l->pubEpoch=l->pub->epoch; l->pubInc=l->pub->inc; } if(!l->pub) l->rogue=true; if(l->rogue) n->hasRogue=true;
  for(Link* o:n->slinks) if(o->subInc==n->inc&&o->ip==ip&&o->port==port&&!o->subClosed){ viol("C09","duplicate-connection","%s: a second control connection to the same publisher was opened while one exists (%s)",ln(l).c_str(),o->complete?"established":"connecting"); break; }
  if(l->pub&&l->pub->kind==N_PUB&&!pairOk(l->pub,n)) viol("C22,C09","foreign-group","a subscription to a publisher of another multicast group was started");
  if(!n->annRx||n->annD.ip!=ip||n->annD.port!=port) viol("C09,C15,C22","connect-without-announce","a connection to %x:%d was opened without an announcement from there",ip,port);
  else if(n->annAcceptKey.empty()) viol("C09","connect-declined","a connection to %x:%d was opened though the application did not accept the announcement",ip,port);
  l->nodeId=(uint32_t)n->annD.seq; for(Link* o:n->slinks) if(o->ip==ip&&o->port==port){ probe(P_RECONNECT); break; }
  n->slinks.push_back(l); return l; }
void onConnFail(Sock* s){ s->link->failed=true; }
void onAccept(Sock* ss){ Node* n=ss->own; Link* l=ss->link; if(!l) return; l->ss=ss; l->accepted=true; l->acceptAt=W.now; l->acceptOrd=W.ord; if(!l->pub) l->pub=n; l->pubEpoch=n->epoch; l->pubInc=n->inc; n->plinks.push_back(l); if(n->kind==N_PUB) n->accLink=l; }
static void subLinkDone(Node* n,Link* l){ l->subClosed=true; l->subCloseAt=W.now; (void)n; l->cons.clear(); l->needAck.clear(); }
void onSubClosed(Node* n,Link* l){ subLinkDone(n,l); }
void onKernelClose(Sock* s){
  Link* l=s->link; if(!l||s->t!=S_TCP) return; Node* n=s->own;
  bool live=W.cur==n&&n->depth>0&&n->up&&!n->downUntil;
  if(s->isServer){ if(l->ss!=s) return; l->pubClosed=true; l->pubCloseAt=W.now; l->unacked.clear(); l->assumed.clear();
    if(live&&n->kind==N_PUB){ n->closedInCall.push_back(l);
      bool reason=s->eofRead||s->optFailed||n->closingByApp||n->call==K_DEACT||n->call==K_DELETE||l->rejected||l->pPubIn.bad||n->call==K_CLOSE;
      if(!reason) viol("C03,C07,C21,C17","healthy-close","%s: the publisher closed a healthy connection",ln(l).c_str()); }
    n->plinks.erase(std::remove(n->plinks.begin(),n->plinks.end(),l),n->plinks.end());
  } else { if(l->cs!=s) return; bool was=l->subClosed;
    if(live&&n->kind==N_SUB&&!was){ bool reason=s->eofRead||s->optFailed||n->closingByApp||n->call==K_DEACT||n->call==K_DELETE||n->call==K_CLOSE||s->st==T_DEAD||l->failed||s->rrst||l->rogue; if(!l->complete&&(s->st==T_DEAD||n->sockFailInCall)) reason=true;
      if(!reason) viol("C03,C07,C09,C21","healthy-close","%s: the subscriber closed a healthy connection",ln(l).c_str()); }
    subLinkDone(n,l); } }
void onNodeDown(Node* n,bool crash){ (void)crash; n->expectQ.clear(); n->expectN=0; for(Link* l:n->slinks) if(!l->subClosed&&l->subInc==n->inc) subLinkDone(n,l); }

// ---------------------------------------------------------------- release of publisher payloads
void onUserFree(Node* n,void* p,int64_t len,bool viaCb){
  auto it=n->live.find(p); if(it==n->live.end()){ viol("C04","released-twice","the release function was called for %p, which is not an outstanding payload (released twice, refused or never handed over)",(void*)0); return; }
  Pkt& k=n->pkts[it->second];
  if(viaCb&&len!=(int64_t)k.len) viol("C04","release-length","payload %d of %u bytes was released with length %lld",k.seq,k.len,(long long)len);
  if(!k.accepted&&n->cur!=it->second) viol("C04,C20","released-refused","payload %d was released though its queue call was refused",k.seq);
  if(k.len&&memcmp(p,k.data.data(),k.len)) viol("C04","payload-modified","the bytes of payload %d had changed when it was released",k.seq);
  if(!viaCb&&!W.cfg.pubFreeNull) viol("C04","wrong-release","payload %d was passed to free() although a release function is set",k.seq);
  bool down=n->call==K_DELETE||n->call==K_DEACT;
  if(!k.ann){ if(k.sentAt<0&&n->call!=K_DELETE&&!down) viol("C04","released-early","payload %d was released before it was transmitted",k.seq);
    if(k.sentAt>=0) { n->inflight--; for(Link* l:n->plinks) if(linkOpenP(l)){ auto u=l->unacked.find(k.pid); if(u==l->unacked.end()) continue;
        if(W.now<u->second+MS(100)-1000) viol("C04,C14","released-unacked","packet %llu was released %.1f ms after transmission although %s had neither acknowledged it nor been sent it again",(ull)k.pid,(W.now-u->second)/1e3,ln(l).c_str());
        l->assumed[k.pid]=W.now; l->unacked.erase(u); } } }
  k.freed++; probe(P_PUBFREE); n->relInCall++; n->live.erase(it); memset(p,0xDD,k.len?k.len:1); free(p); }

// ---------------------------------------------------------------- around every library call
void preCall(Node* n){ n->sysInCall=0; n->allocInCall=0; n->connectsInCall=0; n->sockFailInCall=false; n->annRx=false; n->annAcceptKey.clear(); n->accLink=nullptr; n->annCbCalls=0; n->annCbPub=0; n->annCbSent=false; n->readyCb=0; n->expect0=n->expectN; n->relInCall=0; n->discInCall=false; n->thrChanged=false; n->ret=0; n->callStart=W.now; n->ctlExpect=0; n->queuedOk=false; n->compInCall=0; n->nested=false; n->nestQ=0; n->closedInCall.clear(); n->api++;
  n->annAccepted=0; SH->api++;
  if(n->kind==N_PUB&&n->pub&&n->call!=K_INIT){ n->susp0=rmc_pub_traffic_suspended(n->pub)==EBUSY; n->qlen0=rmc_pub_queue_length(n->pub); } }
static size_t expectSize(Node* n){ size_t s=0; for(auto&k:n->expectQ) s+=k.second.size(); return s; }
static void checkFds(Node* n){
  for(auto&r:n->regs) if(!n->fds.count(r.second.fd)) viol("C10,C11","registered-closed","index %d is registered for polling with descriptor %d, which is not open",r.first,r.second.fd);
  if(n->fds.size()!=n->regs.size()) for(auto&f:n->fds){ bool ok=false; for(auto&r:n->regs) if(r.second.fd==f.first) ok=true; if(!ok) viol("C11,C10","descriptor-leak","descriptor %d (%s) is open but not registered for polling after the call",f.first,f.second->t==S_UDP?"udp":f.second->listening?"listener":"tcp"); } }
void postCall(Node* n){
  if(!n->up) return;
  checkFds(n);
  if(n->kind==N_PUB){
    if(n->pub&&n->call!=K_DELETE&&n->call!=K_INIT){
      size_t conns=0; for(auto&f:n->fds) if(f.second->isServer) conns++;
      uint32_t c=rmc_pub_get_subscriber_count(n->pub); if(c!=conns) viol("C11","subscriber-count","the subscriber count is %u but %zu connections are open",c,conns);
      uint32_t sc=rmc_pub_get_socket_count(n->pub); if(sc!=n->fds.size()) viol("C11","socket-count","the socket count is %u but %zu sockets are open",sc,n->fds.size());
      bool s=rmc_pub_traffic_suspended(n->pub)==EBUSY;
      if(s&&!n->susp0) probe(P_SUSPEND); if(!s&&n->susp0) probe(P_RESUME);
      if(s&&n->thrS<=0) viol(n->thrBad?"C08,C20":"C08","suspended-off","traffic is suspended although throttling is off");
      if(s&&!(n->inflight>n->thrR||(n->thrS==n->thrR&&n->inflight==n->thrR))) viol(n->thrBad?"C08,C20":"C08","not-resumed","traffic is suspended with %d unreleased packets, resume threshold %lld%s",n->inflight,(long long)n->thrR,conns?"":" and no subscriber");
      if(s&&!n->susp0&&!n->queuedOk&&!n->nestQ&&!n->annCbSent&&!(n->call==K_TIMEOUT&&!(n->cbm&8)&&rmc_pub_queue_length(n->pub)>n->qlen0)) viol(n->thrBad?"C08,C20":"C08","suspended-elsewhere","traffic became suspended outside an accepted queue call");
      if(s&&!n->susp0&&n->inflight<n->thrS&&!n->nested) viol(n->thrBad?"C08,C20":"C08","suspended-early","traffic was suspended with %d unreleased packets, threshold %lld",n->inflight,(long long)n->thrS);
      if(!s&&n->queuedOk&&n->thrS>0&&n->inflight>=n->thrS&&!n->nested) viol(n->thrBad?"C08,C20":"C08","not-suspended","a queue call found %d unreleased packets, threshold %lld, but traffic is not suspended",n->inflight,(long long)n->thrS);
      if(!s&&n->susp0&&!n->thrChanged&&n->inflight>n->thrR) viol("C08","resumed-early","traffic was resumed with %d unreleased packets, resume threshold %lld",n->inflight,(long long)n->thrR);
      if(s||n->susp0) n->lastSusp=W.now;
      n->susp=s;
      // announcements without a callback are recognised by the growth of the queue
      uint32_t ql=rmc_pub_queue_length(n->pub);
      if(n->call==K_TIMEOUT){ bool due=n->annInt>0&&n->annNext>=0;
        bool must=due&&n->annNext<=n->callStart-20, may=due&&(n->annNext<=W.now+20||n->annFuzzy);
        bool did,fuzzy=false; if(n->cbm&8) did=n->annCbPub>0; else { did=ql>n->qlen0+n->nestQ; if(did) n->annPend.push_back(std::string()); if(n->susp0){ did=may; if(may&&!must) fuzzy=true; } }
        if(n->annCbPub>1) viol("C12","announce-twice","the announce callback was called %d times in one timeout call",n->annCbPub);
        if(did&&!may) viol("C12","announce-early","an announcement was produced %s",n->annInt>0?"before the interval had passed":"although announcing is off");
        if(!did&&must) viol("C12,C13","announce-missed","no announcement was produced by a timeout call %.1f ms after it fell due",(n->callStart-n->annNext)/1e3);
        if(did){ if(n->annNext>=0) n->annNext=fuzzy?std::max(n->annNext,W.now+n->annInt):W.now+n->annInt; n->annFuzzy=fuzzy; n->lastAnn=W.now; n->annDue=false; } }
      size_t q=n->dataQ.size()+n->annPend.size();
      if(ql!=q) viol(ql>q&&n->call==K_OTHER?"C19,C20":"C19","queue-length","the queue length is %u but %zu accepted packets are not yet transmitted",ql,q);
      uint32_t a=0,b=0,e=0; int r=rmc_pub_context_get_pending(n->pub,&a,&b,&e); if(a!=q) viol("C19","pending-queue","the pending query reports %u queued packets, %zu are",a,q);
      { uint32_t x=0,y=0; uint32_t v=n->api&3; int r2=v==0?rmc_pub_context_get_pending(n->pub,0,0,0):v==1?rmc_pub_context_get_pending(n->pub,0,&x,0):v==2?rmc_pub_context_get_pending(n->pub,&x,0,&y):rmc_pub_context_get_pending(n->pub,0,0,&y); if(r2!=r) viol("C19","pending-arguments","the pending query returns %d, but %d when asked for fewer numbers",r,r2); if(v==1&&x!=b) viol("C19","pending-arguments","the pending query reports %u bytes, but %u when asked for fewer numbers",b,x); if(v>=2&&y!=e) viol("C19","pending-arguments","the pending query reports %u unacknowledged packets, but %u when asked for fewer numbers",e,y); }
      if(r!=0&&r!=EBUSY) viol("C19","pending-result","the pending query returned %d",r);
      if(r==0){ if(q) viol("C19","idle-queued","the pending query reports idle with %zu accepted packets not transmitted",q);
        for(Link* l:n->plinks) if(linkOpenP(l)){ for(auto&u:l->unacked) viol("C19","idle-unacked","the pending query reports idle but %s has neither acknowledged nor been sent packet %llu again",ln(l).c_str(),(ull)u.first); for(auto&u:l->assumed) viol("C19","idle-unsent","the pending query reports idle but packet %llu given up for %s was not written to its connection",(ull)u.first,ln(l).c_str()); if(!l->pPubOut.buf.empty()) viol("C19","idle-partial","the pending query reports idle but %s has a half-written retransmission",ln(l).c_str()); } }
      else if(!q&&!b&&!e) viol("C19","busy-without-cause","the pending query reports busy with nothing pending");
      if(r==EBUSY) probe(P_PENDBUSY); else probe(P_QUIET);
      if(r==EBUSY&&!q){ bool any=false; for(Link* l:n->plinks) if(linkOpenP(l)){ if(!l->unacked.empty()||!l->assumed.empty()||!l->pPubOut.buf.empty()) any=true; if(l->ss&&l->A) { for(auto&x:l->ackTimerBefore) if(!l->resent.count(x.first)) any=true; } } if(!any) viol("C19","busy-idle","the pending query reports busy (%u bytes, %u packets) although every owed packet is acknowledged or sent",b,e); }
      { uint32_t un=0; bool amb=false; Link* one=nullptr; int open=0; size_t cost=0; for(Link* l:n->plinks) if(linkOpenP(l)) cost+=l->unacked.size()+l->assumed.size()+l->ackTimerBefore.size(); n->deepCost+=400; bool deep=cost<=n->deepCost; if(deep) n->deepCost=std::min<size_t>(n->deepCost-cost,400); // many connections with many packets each: not after every call
        if(deep) for(Link* l:n->plinks) if(linkOpenP(l)){ un+=l->unacked.size(); open++; one=l; for(auto&x:l->ackTimerBefore) if(!l->resent.count(x.first)) amb=true; }
        if(deep&&e>un) viol("C19","pending-count","the pending query reports %u unacknowledged packets, %u are",e,un);
        if(deep&&!b&&!amb&&e!=un) viol("C19","pending-count","the pending query reports %u unacknowledged packets and nothing to write, %u are unacknowledged",e,un);
        if(open>1&&!amb){ uint64_t tot=0,part=0,mn=~0ULL,mx=0; size_t cnt=0; for(Link* l:n->plinks) if(linkOpenP(l)){ part+=l->pPubOut.buf.size(); auto one=[&](uint64_t pid){ uint64_t k=21+n->pkts[n->byPid.get(pid)].len; tot+=k; cnt++; mn=std::min(mn,k); mx=std::max(mx,k); }; for(auto&x:l->unacked) one(x.first); for(auto&x:l->assumed) if(!l->unacked.count(x.first)) one(x.first); } if(cnt){ uint64_t hi=tot-part-std::min<uint64_t>(tot-part,e*mn), lo=tot-std::min<uint64_t>(tot,part+e*mx); if(b<lo||b>hi) viol("C19","pending-bytes","the pending query reports %u bytes to write on %d connections, between %llu and %llu are",b,open,(ull)lo,(ull)hi); } }
        if(deep&&open==1&&!amb){ std::set<uint64_t> o; for(auto&x:one->unacked) o.insert(x.first); for(auto&x:one->assumed) o.insert(x.first); int k=(int)o.size()-(int)e; uint64_t want=0; for(uint64_t pid:o){ if(k--<=0) break; want+=21+n->pkts[n->byPid.get(pid)].len; } want-=one->pPubOut.buf.size(); if(want!=b) viol("C19","pending-bytes","the pending query reports %u bytes to write, %llu are",b,(ull)want); } }
      // connect and disconnect callbacks
      if(n->accLink){ Link* l=n->accLink; bool opt=l->ss->optFailed; if((W.cfg.cbmask&16)&&!opt&&l->connectCb!=1) viol("C17","connect-callback","%s: accepted but the connect callback was called %d times",ln(l).c_str(),l->connectCb); l->admitted=!opt&&!l->rejected; if(l->rejected&&!l->pubClosed) viol("C17","reject-ignored","%s: the application rejected the connection but it stays open",ln(l).c_str()); if(l->rejected) probe(P_REJ); }
      for(Link* l:n->closedInCall){ if(W.cfg.cbmask&32){ if(l->admitted&&l->disconnectCb!=1) viol("C17","disconnect-callback","%s: the connection ended but the disconnect callback was called %d times",ln(l).c_str(),l->disconnectCb); if(!l->admitted&&l->disconnectCb>1) viol("C17","disconnect-callback","%s: rejected, but the disconnect callback was called %d times",ln(l).c_str(),l->disconnectCb); } probe(P_DISC); }
      for(Link* l:n->plinks) if(linkOpenP(l)&&l->disconnectCb) viol("C17","disconnect-open","%s: the disconnect callback was called but the connection is open",ln(l).c_str());
      if(n->ctlExpect>0&&(W.cfg.cbmask&4)&&!n->hasRogue) viol("C06","control-lost","%d complete control message(s) read from the stream were not handed over",n->ctlExpect);
    }
  } else if(n->kind==N_SUB){
    finishAnnounce(n);
    if(n->sub&&n->call!=K_DELETE&&n->call!=K_INIT){
      size_t conns=0; for(auto&f:n->fds) if(f.second->t==S_TCP) conns++;
      uint32_t c=rmc_sub_get_publisher_count(n->sub); if(c!=conns) viol("C11","publisher-count","the publisher count is %u but %zu connections are open",c,conns);
      uint32_t sc=rmc_sub_get_socket_count(n->sub); if(sc!=n->fds.size()) viol("C11","socket-count","the socket count is %u but %zu sockets are open",sc,n->fds.size());
      if(n->call!=K_DEACT){ size_t e=expectSize(n); int rc=rmc_sub_get_dispatch_ready_count(n->sub);
        if(n->hasRogue?(size_t)rc<e:(size_t)rc!=e) viol((size_t)rc>e?"C01,C16,C12":W.cfg.anyListen?"C01,C03,C22":"C01,C03","ready-count","%d packets are ready for dispatch, %zu are complete in order",rc,e);
        if(n->expectN>n->expect0&&(n->call==K_READ)&&(n->cbm&64)&&!n->readyCb) viol(W.cfg.anyListen?"C01,C22":"C01","ready-callback","%zu packets became ready in a read call but the ready callback was not called",n->expectN-n->expect0);
        if(W.cfg.dispatch==1&&(n->cbm&64)&&n->call==K_READ&&e) viol("C01","ready-callback","%zu packets that became ready in a read call were not announced by the ready callback",e); }
    } } }

static bool quietSub(Node* n,Us since){ return n->up&&n->activated&&n->stallEnd<since&&n->stallUntil<=W.now&&!n->stuck; }
// called by the event loop with the deadline the library reported (-1: none), in node time
void checkTimers(Node* n,Us next){
  Us nx=next==-1?INT64_MAX:next-n->clk;
  if(n->kind==N_PUB){
    if(n->annInt>0&&n->annNext>=0&&nx>n->annNext+50) viol("C13,C12","deadline-late","the announcement is due at %.6f but the next deadline reported is %.6f",n->annNext/1e6,next==-1?-1.0:nx/1e6);
    if(nx>n->lastTimer+150) for(Link* l:n->plinks) if(linkOpenP(l)&&!l->unacked.empty()){ for(auto&u:l->unacked) if(u.second+MS(100)>n->lastTimer+100){ if(nx>u.second+MS(100)+50) viol("C13","deadline-late","%s: packet %llu is due for retransmission at %.6f but the next deadline reported is %.6f",ln(l).c_str(),(ull)u.first,(u.second+MS(100))/1e6,next==-1?-1.0:nx/1e6); break; } }
    Us m=INT64_MAX; if(n->annInt>0&&n->annNext>=0) m=n->annFuzzy?0:n->annNext; for(Link* l:n->plinks) if(linkOpenP(l)&&!l->unacked.empty()) m=std::min(m,l->unacked.begin()->second+MS(100)); // multicast times grow with the packet id
    if(next!=-1&&nx<(m==INT64_MAX?m:m-50)) viol("C13","deadline-spurious","the next deadline reported is %.6f but nothing is due before %.6f",nx/1e6,m==INT64_MAX?-1.0:m/1e6);
  } else if(n->kind==N_SUB){
    for(Link* l:n->slinks) if(l->subInc==n->inc&&!l->subClosed&&!l->rogue&&!l->needAck.empty()){ Us o=INT64_MAX; for(auto&u:l->needAck) if(u.second>l->permit&&u.second+MS(50)>n->lastTimer+100&&u.second<o) o=u.second; if(o!=INT64_MAX&&nx>o+MS(50)+50) viol("C13","deadline-late","%s: an acknowledgement is due at %.6f but the next deadline reported is %.6f",ln(l).c_str(),(o+MS(50))/1e6,next==-1?-1.0:nx/1e6); }  
    if(next!=-1&&!n->hasRogue){ Us m=INT64_MAX; bool skip=false; for(Link* l:n->slinks) if(l->subInc==n->inc&&!l->subClosed){ if(l->mixed) skip=true; for(auto&u:l->needAck) m=std::min(m,u.second+MS(50)); } if(!skip&&nx<(m==INT64_MAX?m:m-50)) viol("C13","deadline-spurious","the next deadline reported is %.6f but no acknowledgement is due before %.6f",nx/1e6,m==INT64_MAX?-1.0:m/1e6); } } }
void checkIteration(Node* n){ (void)n; }

static const char* livenessProps(Link* l){ static char b[64]; strcpy(b,"C03"); if(W.multi||W.rogue||W.cfg.stuck||SH->faultCount[F_STALL]) strcat(b,",C07"); if(l&&l->id>=0&&(SH->faultCount[F_CRASH]||SH->faultCount[F_GRACE]||SH->faultCount[F_RST]||SH->faultCount[F_REACT]||SH->faultCount[F_PCLOSE]||SH->faultCount[F_SCLOSE])) strcat(b,",C16"); if(W.sysFault) strcat(b,",C21"); strcat(b,",C10"); if(W.rogue) strcat(b,",C15"); return b; }
static bool stuckNode(Node* n){ return n&&n->stuck; }
static int pubConns(Node* s){ int k=0; for(Link* x:s->slinks) if(x->subInc==s->inc&&!x->subClosed) k++; return k; }
void checkPeriodic(){
  for(Node* n:W.nodes) if(n->kind==N_PUB?(int)n->plinks.size()>=W.cfg.maxSubs:n->kind==N_SUB&&pubConns(n)>=W.cfg.maxPubs) n->lastFullC=W.now;
  for(Node* n:W.pubs) if(n->up&&n->activated){
    if((n->dataQ.size()||n->annPend.size())&&n->stallUntil<=W.now) for(auto&f:n->fds) if(f.second->t==S_UDP&&f.second->wblock<=W.now){ Us last=std::max(std::max(f.second->lastBlocked,f.second->wblock),std::max(f.second->lastWrite,std::max(std::max(n->stallEnd,n->lastAnn),n->lastQueued))); if(W.now>last+MS(40)) viol("C18,C10,C21,C19","transmission-late","P%d: %zu accepted packets and %zu announcements are not transmitted though the multicast socket has been writable since %.6f",n->idx,n->dataQ.size(),n->annPend.size(),last/1e6); }
    for(Link* l:n->plinks) if(linkOpenP(l)&&l->ss){
      // retransmissions that are overdue
      if(!l->unacked.empty()&&n->stallUntil<=W.now){ Us last=std::max(std::max(std::max(l->ss->lastBlocked,l->ss->lastFull),l->ss->lastWrite),std::max(n->stallEnd,l->acceptAt)); auto u=l->unacked.begin(); Us due=std::max(u->second+MS(100),last);
        if(W.now>due+MS(60)&&(int64_t)l->ss->snd.size()<W.cfg.sndCap/2&&!l->ss->rrst&&!l->ss->rfin) viol("C13,C07,C03","retransmission-late","%s: packet %llu sent at %.6f is neither acknowledged nor retransmitted",ln(l).c_str(),(ull)u->first,u->second/1e6); }
      if(W.healed&&!l->assumed.empty()&&!stuckNode(l->sub)&&l->sub->kind==N_SUB){ auto u=l->assumed.begin(); if(W.now>std::max(u->second,W.healAt)+MS(3000)) viol("C04,C03,C14","given-up","%s: packet %llu was released at %.6f without an acknowledgement and was never sent again",ln(l).c_str(),(ull)u->first,u->second/1e6); } }
  }
  for(Node* n:W.subs) if(n->up&&n->activated&&!n->stuck){
    for(Link* l:n->slinks){ if(l->subInc!=n->inc||l->subClosed||l->rogue) continue;
      if(l->complete&&!l->needAck.empty()&&l->cs->st==T_EST){ Us o=INT64_MAX; uint64_t op=0; for(auto&u:l->needAck) if(u.second<o){ o=u.second; op=u.first; } Us due=std::max(o+MS(50),std::max(std::max(std::max(l->cs->lastBlocked,l->cs->lastFull),l->cs->lastWrite),n->stallEnd)); if(W.now>due+MS(40)&&quietSub(n,o)&&(int64_t)l->cs->snd.size()<W.cfg.sndCap/2) viol("C13,C14","ack-late","%s: packet %llu received at %.6f is not acknowledged",ln(l).c_str(),(ull)op,o/1e6); }
      if(!W.healed||!l->accepted||l->pubClosed||!l->complete||!l->pub||!l->pub->up||l->pub->stuck||!l->A) continue;
      uint64_t want=l->F?l->next:l->A; if(want<l->A) want=l->A; 
      bool behind=l->F?l->next<=l->lastOwed:true;
      if(l->F>l->A){ if(W.cfg.clean&&!l->mixed) viol("C03","first-packet","%s: delivery started at %llu, %llu was owed",ln(l).c_str(),(ull)l->F,(ull)l->A); else known(KF_JOINLATE,"%s: packets %llu..%llu, transmitted while the connection was accepted, are skipped because the subscription starts at the first one to arrive",ln(l).c_str(),(ull)l->A,(ull)(l->F-1)); }
      if(!behind) continue; if(want>l->lastOwed) continue;
      int i=l->pub->byPid.get(want); if(i<0) continue; Us t=std::max(std::max(l->pub->pkts[i].sentAt,W.healAt),std::max(l->acceptAt,l->completeAt));
      if(W.now<=t+MS(3000)) continue;
      if(l->F&&l->F<l->A&&l->next<l->A){ if(!W.cfg.clean||l->mixed){ known(KF_JOINGAP,"%s: delivery waits for packet %llu, which was sent before the connection was accepted and will never be retransmitted",ln(l).c_str(),(ull)l->next); continue; } }
      if(l->mixed) continue;
      viol(livenessProps(l),"undelivered","%s: packet %llu, sent at %.6f on an open connection, is not delivered at %.6f",ln(l).c_str(),(ull)want,l->pub->pkts[i].sentAt/1e6,W.now/1e6); } } }

static Link* openLink(Node* p,Node* s){ for(Link* l:p->plinks) if(l->sub==s&&l->subInc==s->inc&&linkOpenP(l)&&!l->subClosed) return l; return nullptr; }
void checkFinal(){
  for(Node* n:W.nodes) if(n->kind!=N_RAW&&!n->stuck){
    if(!n->up||!n->activated) viol("C11,C16,C21","not-active","node %c%d could not be activated again",n->kind==N_PUB?'P':'S',n->idx); }
  for(Node* p:W.pubs){ if(p->stuck||!p->up) continue;
    int capS=W.cfg.maxSubs,haveS=(int)p->plinks.size();
    for(Node* s:W.subs){ if(s->stuck||!s->up||!pairOk(p,s)) continue; Link* l=openLink(p,s); bool lc=l&&l->complete;
      int capP=W.cfg.maxPubs,haveP=pubConns(s);
      bool announcing=p->annInt>0&&!p->annDue&&W.cfg.annDecline<1000;
      if(!lc){ if(!announcing||W.now-std::max({p->lastSusp,p->lastFullC,s->lastFullC})<std::max(MS(1000),3*p->annInt)||haveS>=capS||haveP>=capP||W.cfg.pRejectP||W.cfg.pRejectS) continue; char b[80]; snprintf(b,80,"C09,C16,C03%s%s,C07",W.sysFault?",C21":"",W.rogue?",C15":""); viol(b,"not-subscribed","S%d is not subscribed to P%d at the end (announcing every %lld ms, connection %s)",s->idx,p->idx,(long long)(p->annInt/1000),l?"accepted but not completed":"missing"); continue; }
      if(l->mixed) continue;
      if(!l->ctl.empty()&&(W.cfg.cbmask&4)&&l->ctlRecv<l->ctl.size()&&W.now-l->ctlAt[l->ctlRecv]>MS(1000)) viol(W.sysFault?"C06,C21,C10":"C06,C10","control-undelivered","%s: %zu of %zu accepted control messages were not delivered",ln(l).c_str(),l->ctl.size()-l->ctlRecv,l->ctl.size());
      for(auto&u:l->needAck) if(W.now-u.second>MS(1000)) viol("C14,C13","never-acked","%s: packet %llu was received by multicast but never acknowledged",ln(l).c_str(),(ull)u.first);
    }
    if(W.cfg.contGap) continue;
    if(!p->dataQ.empty()||!p->annPend.empty()) { if(W.now-p->lastAnn>MS(300)||!p->dataQ.empty()) viol(W.sysFault?"C18,C19,C10,C21,C03":"C18,C19,C10,C03","untransmitted","P%d: %zu packets and %zu announcements accepted but never transmitted",p->idx,p->dataQ.size(),p->annPend.size()); }
    bool faultyPeer=false; for(Link* l:p->plinks) if(l->sub->stuck||l->sub->kind==N_RAW) faultyPeer=true;
    if(!faultyPeer){ for(auto&k:p->pkts) if(k.accepted&&!k.ann&&k.sentAt>=0&&!k.freed&&k.ptr) viol(W.sysFault?"C04,C19,C21":"C04,C19","unreleased","P%d: packet %llu was transmitted at %.6f but is not released at the end",p->idx,(ull)k.pid,k.sentAt/1e6);
      for(auto&k:p->pkts) if(k.accepted&&k.ann&&!k.freed&&k.ptr&&p->annPend.empty()) viol("C04","unreleased-announce","P%d: the announcement payload %d handed over by the application was sent but is not released",p->idx,k.seq);
      if(p->dataQ.empty()&&p->annPend.empty()){ int r=rmc_pub_context_get_pending(p->pub,0,0,0); if(r) viol("C19","never-idle","P%d: the pending query still reports busy at the end",p->idx); } } } }
