// Simulated applications (publisher, subscriber, misbehaving peers), event loops, operations and world set-up.
#include "core.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <arpa/inet.h>
typedef unsigned long long ull;
static Node* N(user_data_t u){ if(u.ptr!=W.cur->ud) viol("C05,C10,C11,C22","wrong-user-data","a callback was called with user data that is not the one given at initialisation or set last"); return W.cur; }
int rmcPayloadMax(){ return (int)sim_max_payload; }
extern "C" __attribute__((noinline)) void scribble_stack(){ volatile char b[96*1024]; memset((void*)b,W.cfg.pair==2&&pairSide==1?(int)W.cfg.bFill:0xC3,sizeof b); asm volatile(""::"r"(b):"memory"); }
extern "C" __attribute__((noinline)) void scribble_little(){ volatile char b[8*1024]; memset((void*)b,W.cfg.pair==2&&pairSide==1?(int)W.cfg.bFill:0xC3,sizeof b); asm volatile(""::"r"(b):"memory"); }
void scribble(uint64_t k){ if(sim_max_packet>2000&&(k&31)==0) scribble_stack(); else scribble_little(); }
volatile uint64_t outerCalls=0; volatile int inCall=0;
Call::Call(Node* n_,int k):n(n_){ prev=W.cur; W.cur=n; pk=n->call; n->depth++; n->call=k; sys0=n->sysInCall; if(n->depth==1){ outerCalls=outerCalls+1; inCall=1; if((n->api&7)==0) scribble(n->api); preCall(n); sys0=0;
    if(k==K_TIMEOUT&&n->kind==N_SUB) for(Link* l:n->slinks) if(l->subInc==n->inc&&!l->subClosed&&!l->needAck.empty()){ Us o=INT64_MAX; for(auto&u:l->needAck) o=std::min(o,u.second); if(W.now-o>=MS(50)-100) l->permit=W.now; } } }
Call::~Call(){ if(n->depth==1){ inCall=0; if(n->call==K_TIMEOUT) n->lastTimer=W.now; if(W.now-n->callStart>MS(20)) n->stallEnd=std::max(n->stallEnd,W.now); postCall(n); pairCall(n); } n->depth--; n->call=pk; W.cur=prev; }
void kick(Node* n,Us delay){ if(!n->up) return; Us t=std::max(W.now+delay,n->stallUntil); if(n->wakeSched&&n->wakeAt<=t) return; n->wakeSched=true; n->wakeAt=t; uint64_t g=++n->wakeGen; int inc=n->inc; at(t,[n,g,inc]{ if(n->wakeGen!=g||n->inc!=inc||!n->up) return; n->wakeSched=false; if(n->stallUntil>W.now){ kick(n,0); return; } iterate(n); }); }

// ---------------------------------------------------------------- poll callbacks
static void cbAdd(user_data_t u,int fd,rmc_index_t idx,rmc_poll_action_t a){ Node* n=N(u); L_("poll_add fd %d idx %d act %d",fd,idx,a);
  if(!n->fds.count(fd)) viol("C10,C11","add-closed","descriptor %d was added for polling but is not open",fd);
  if(n->regs.count(idx)){ viol("C10","add-twice","index %d was added for polling twice",idx); }
  for(auto&r:n->regs) if(r.second.fd==fd) viol("C10","add-twice","descriptor %d was added for polling under two indices",fd);
  if(idx>=256&&idx<0x7000) probe(P_SLOT8); n->regs[idx]=Reg{fd,a,a,++n->regGen,0}; hashIn(0xAD,idx,a); }
static void cbMod(user_data_t u,int fd,rmc_index_t idx,rmc_poll_action_t o,rmc_poll_action_t a){ Node* n=N(u); L_("poll_modify fd %d idx %d %d->%d",fd,idx,o,a);
  auto it=n->regs.find(idx); if(it==n->regs.end()){ viol("C10","modify-unknown","poll action of index %d (descriptor %d) was modified but it is not added",idx,fd); return; }
  if(it->second.fd!=fd) viol("C10","modify-wrong","poll action of index %d was modified with descriptor %d instead of %d",idx,fd,it->second.fd);
  if(idx<0x7000&&o!=it->second.action) viol("C10","modify-old-action","the poll action of index %d was reported as %d before the modification, it was %d",idx,o,it->second.action); if(W.cfg.driver==1&&o==a) return; it->second.action=a; it->second.armed=a; hashIn(0xAE,idx,a); }
static void cbRem(user_data_t u,int fd,rmc_index_t idx){ Node* n=N(u); L_("poll_remove fd %d idx %d",fd,idx);
  auto it=n->regs.find(idx); if(it==n->regs.end()){ viol("C10","remove-unknown","index %d (descriptor %d) was removed but is not added",idx,fd); return; }
  if(it->second.fd!=fd) viol("C10","remove-wrong","index %d was removed with descriptor %d instead of %d",idx,fd,it->second.fd);
  if(!n->fds.count(fd)) viol("C10","remove-closed","descriptor %d was removed from polling after it had been closed",fd);
  n->regs.erase(it); hashIn(0xAF,idx); }

// ---------------------------------------------------------------- publisher application
static bool pubQueue(Node* n,int len,bool ann);
static void reQueue(Node* n,int bit){ // the application queues packets from inside a callback
  if(!(W.cfg.reent&bit)||W.finishing||n->call==K_DEACT||n->call==K_DELETE||n->reentN++>60||W.now>W.cfg.healAt+MS(900)) return; int k=1+(int)(choose(0x4EE7,n->id)%3); for(int i=0;i<k;i++){ uint64_t z=choose(0x4EE8,n->id); int len=8+(int)(z%60); if(z%16==5) len=(int)sim_max_payload; probe(P_REENT); if(!pubQueue(n,len,false)) break; } }
static void pubFreeCb(void* p,payload_len_t len,user_data_t){ Node* n=W.cur; onUserFree(n,p,len,true); if(n->pub&&n->call!=K_QUEUE&&n->call!=K_CLOSE&&n->call!=K_OTHER) reQueue(n,32); }
static uint8_t pubAnnCb(rmc_pub_context_t* c,void* p,payload_len_t max,payload_len_t* len){ Node* n=W.cur; if(c!=n->pub) viol("C12","wrong-context","announce callback with a foreign context"); n->annCbPub++;
  if(max!=sim_max_payload) viol("C12,C20","announce-room","the announce callback was offered %u bytes instead of %u",max,sim_max_payload);
  uint64_t k=choose(0xA22,n->id); if(!W.healed&&(int64_t)(k%1000)<W.cfg.annDecline){ *len=(payload_len_t)(k>>20)%50; n->annCbPub=1; n->annCbSent=false; return 0; } reQueue(n,64);
  int l=W.cfg.annLen>=0?(int)W.cfg.annLen:(int)((k>>12)%4==0?(k>>16)%(max+1):(k>>16)%64); if(l>max) l=max;
  int over=(k>>40)%97==0?1+(int)((k>>48)%std::min(300,65535-(int)max)):0; if(over){ l=max; probe(P_ANNOVER); } // reports more than it was offered room for
  std::string s(l,0); uint64_t h=H(W.seed,0xA77,n->id,k); for(int i=0;i<l;i++){ if((i&7)==0) h=mix64(h+i); s[i]=(char)(h>>((i&7)*8)); } if(l) memcpy(p,s.data(),l); if(l+over||(k>>50)%2) *len=(payload_len_t)(l+over); /* an application without a payload may leave the length alone */
  if(!n->susp0&&rmc_pub_traffic_suspended(n->pub)!=EBUSY){ n->annPend.push_back(s); n->annCbSent=true; } return 1; }
static uint8_t pubConnCb(rmc_pub_context_t*,uint32_t ip,in_port_t port){ Node* n=W.cur; Link* l=n->accLink; L_("subscriber connected %x:%d",ip,port);
  if(!l||l->connectCb){ viol("C17","connect-callback","the connect callback was called without a newly accepted connection"); return 1; }
  l->connectCb++; if(ip!=l->ss->rip||port!=l->ss->rport) viol("C17","connect-address","the connect callback reported %x:%u, the subscriber is %x:%u",ip,port,l->ss->rip,l->ss->rport);
  bool no=fault(F_REJECTP,W.cfg.pRejectP); if(no) l->rejected=true; reQueue(n,2); return !no; }
static void pubDiscCb(rmc_pub_context_t*,uint32_t ip,in_port_t port){ Node* n=W.cur; L_("subscriber disconnected %x:%d",ip,port); n->discInCall=true;
  Link* m=nullptr; for(Link* l:n->plinks) if(l->ss&&l->ss->rip==ip&&l->ss->rport==port&&!l->disconnectCb) m=l; if(!m) for(Link* l:n->closedInCall) if(l->ss->rip==ip&&l->ss->rport==port) m=l;
  if(!m){ viol("C17","disconnect-address","the disconnect callback reported %x:%u, which is no connected subscriber",ip,port); return; }
  if((W.cfg.cbmask&16)&&!m->connectCb&&!m->ss->optFailed) viol("C17","disconnect-unpaired","disconnect callback without a connect callback"); m->disconnectCb++; reQueue(n,8); }
static void pubCtlCb(rmc_pub_context_t*,uint32_t ip,uint16_t port,rmc_node_id_t,void* p,payload_len_t len){ Node* n=W.cur; std::string s((const char*)p,len); L_("control message %u bytes from %x:%d",len,ip,port); hashIn(0xC1,len);
  Link* l=n->readLink; if(!l){ viol("C06,C17","control-unexpected","a control message was handed over outside a read"); return; }
  if(ip!=l->ss->rip||port!=l->ss->rport) viol("C17","control-address","a control message from %x:%u was reported as coming from %x:%u",l->ss->rip,l->ss->rport,ip,port);
  n->ctlExpect--; reQueue(n,1); if(l->sub->kind!=N_SUB) return; probe(P_CTL);
  if(n->ctlExpect<0) viol("C06","control-extra","a control message was handed over that is not in the stream");
  if(l->ctlRecv>=l->ctl.size()){ viol("C06","control-extra","a control message (%u bytes %s) was handed over that was never accepted for sending",len,hexs(s).c_str()); return; }
  if(l->ctl[l->ctlRecv]!=s) viol("C06","control-bytes","control message %zu was handed over as %zu bytes %s, expected %zu bytes %s",l->ctlRecv,s.size(),hexs(s).c_str(),l->ctl[l->ctlRecv].size(),hexs(l->ctl[l->ctlRecv]).c_str()); l->ctlRecv++; }
static bool pubQueue(Node* n,int len,bool ann){ // false: busy
  bool susp=rmc_pub_traffic_suspended(n->pub)==EBUSY; int rel0=n->depth?n->relInCall:0; if(n->depth) n->nested=true;
  Pkt k; k.seq=(int)n->pkts.size(); k.ann=ann; k.len=len; fillPayload(k.data,n->idx,n->epoch,k.seq,len); k.ptr=(uint8_t*)malloc(len?len:1); memcpy(k.ptr,k.data.data(),len); n->pkts.push_back(k); int i=k.seq; n->cur=i; n->live[k.ptr]=i; bool ok=false;
  { Call c(n,K_QUEUE); int r=rmc_pub_queue_packet(n->pub,k.ptr,(payload_len_t)len,ann?1:0); n->ret=r; L_("queue packet %d len %d ann %d -> %d",i,len,ann,r);
    if(r==0){ if(susp) viol("C08","queued-while-suspended","a packet was accepted while traffic was suspended"); ok=true; n->lastQueued=W.now; n->pkts[i].accepted=true; n->queuedOk=true; if(n->nested&&n->depth>1) n->nestQ++; if(ann) n->annPend.push_back(k.data); else n->dataQ.push_back(i); }
    else if(r==EBUSY){ if(!susp) viol("C08","busy-without-cause","a packet was refused as busy while traffic was not suspended"); probe(P_REFUSED); }
    else viol("C20","refused-valid","a valid packet of %d bytes was refused with error %d",len,r);
    if(ok&&n->depth>1&&n->thrS>0&&n->inflight>=n->thrS&&rmc_pub_traffic_suspended(n->pub)!=EBUSY) viol("C08","not-suspended","a queue call from a callback found %d unreleased packets, threshold %lld, but traffic is not suspended",n->inflight,(long long)n->thrS);
    if(c.sys()&&!ok) viol("C20","refused-effect","a refused queue call made system calls");
    if(n->relInCall!=rel0&&!ok) viol("C20,C04","refused-released","a refused queue call released a payload"); }
  n->cur=-1; if(!ok){ if(n->live.count(k.ptr)){ n->live.erase(k.ptr); free(k.ptr); } n->pkts[i].ptr=nullptr; } return ok; }
// ---------------------------------------------------------------- subscriber application
static void drain(Node* n,int max); static int ctlSend(Node* n,Link* l,uint64_t key,int len,bool byNode);
static void* subAllocCb(payload_len_t len,user_data_t u){ Node* n=N(u); void* p=malloc(len?len:1); memset(p,0xE1,len?len:1); n->pay[p]=len; return p; }
static void subFreeCb(void* p,payload_len_t len,user_data_t u){ Node* n=W.cur; if(u.ptr!=n&&u.ptr!=n->ud) viol("C05","release-user-data","the subscriber's release function was called with user data %llx instead of the one given at initialisation",(ull)u.u64<4096?(ull)u.u64:0ULL);
  auto it=n->pay.find(p); if(it==n->pay.end()){ viol("C05","released-twice","the subscriber's release function was called for memory that is not an outstanding payload"); return; }
  if(it->second!=len) viol("C05","release-length","a payload of %zu bytes was released with length %u",it->second,len); n->pay.erase(it); memset(p,0xDD,len?len:1); free(p); probe(P_SUBFREE); }
static void checkPair(Node* n,uint32_t ip,uint16_t port,const char* what){ Node* p=pubBy(ip,port); if(!p) return; if(p->grp!=n->grp) viol("C22,C12,C09","foreign-group","%s for a publisher of another multicast group",what); }
static uint8_t subAnnCb(rmc_sub_context_t*,uint32_t ip,in_port_t port,rmc_node_id_t id,void* p,payload_len_t len){ Node* n=W.cur; std::string s((const char*)p,len); n->annCbCalls++; checkPair(n,ip,port,"the announce callback was called"); L_("announce from %x:%d len %u",ip,port,len);
  if(!n->annRx){ viol("C12,C15","announce-spurious","the announce callback was called for something that is not an announcement of an unsubscribed publisher"); return 0; }
  if(ip!=n->annD.ip||port!=n->annD.port||id!=(uint32_t)n->annD.seq) viol("C12","announce-identity","announcement of %x:%u node %x reported as %x:%u node %x",n->annD.ip,n->annD.port,(uint32_t)n->annD.seq,ip,port,id);
  if(s!=n->annD.data) viol("C12","announce-content","announcement bytes %s reported as %s",hexs(n->annD.data).c_str(),hexs(s).c_str());
  if((W.cfg.reent&128)&&!W.finishing&&n->reentN++<60&&W.now<W.cfg.healAt+MS(900)) for(Link* l:n->slinks) if(l->subInc==n->inc&&!l->subClosed&&l->complete&&!l->rogue){ uint64_t z=choose(0x4EEC,n->id); if(z%3) continue; probe(P_REENT); ctlSend(n,l,z,1+(int)((z>>20)%40),(z>>30)&1); break; }
  if(fault(F_REJECTS,W.cfg.pRejectS)){ n->annAcceptKey.clear(); return 0; } n->annAccepted++; n->annAcceptKey="x"; return 1; }
static void subDoneCb(rmc_sub_context_t*,uint32_t ip,in_port_t port,rmc_node_id_t id){ Node* n=W.cur; n->compInCall++; L_("subscription complete %x:%d",ip,port);
  Link* l=curLink(n,ip,port); if(!l||!n->completing){ viol("C09","completion-spurious","the completion callback reported %x:%u, which is not the connection that was completed",ip,port); return; }
  l->completeCb++; if(l!=n->readLink) viol("C09","completion-wrong","the completion callback reported %x:%u for another connection",ip,port); if(l->completeCb>1) viol("C09","completion-twice","the completion callback was called twice for one connection");
  if(id!=l->nodeId) viol("C09","completion-node-id","the completion callback reported node id %x, announced was %x",id,l->nodeId);
  if((W.cfg.reent&4)&&!l->rogue&&!W.finishing&&n->reentN++<60&&W.now<W.cfg.healAt+MS(900)){ int k=1+(int)(choose(0x4EE9,n->id)%3); for(int i=0;i<k;i++){ uint64_t z=choose(0x4EEA,n->id); probe(P_REENT); if(ctlSend(n,l,z,1+(int)(z%40),(z>>30)&1)) break; } } }
static void subReadyCb(rmc_sub_context_t*){ Node* n=W.cur; n->readyCb++; if(W.cfg.dispatch==1) drain(n,100000); if(W.cfg.reent&16) for(size_t i=n->slinks.size();i--;){ Link* l=n->slinks[i]; if(l->subInc==n->inc&&!l->subClosed&&l->complete&&!l->rogue){ uint64_t z=choose(0x4EEB,n->id); if(z%4==0&&!W.finishing&&n->reentN++<60&&W.now<W.cfg.healAt+MS(900)){ probe(P_REENT); ctlSend(n,l,z,1+(int)((z>>20)%40),(z>>30)&1); } break; } } }
static void dispatched(Node* n,const std::string& s){
  bool tagged=s.size()>=8&&(uint8_t)s[0]<W.pubs.size()&&(uint8_t)s[4]==(0xA0|(uint8_t)s[0])&&s[7]==0x5A; int k=tagged?(uint8_t)s[0]:0;
  if(!tagged&&n->hasRogue&&!W.cfg.tiny) { n->dispatched++; return; }
  if(!tagged&&!W.cfg.tiny){ viol("C02,C01,C15,C12","foreign-payload","a payload of %zu bytes (%s) was delivered that no publisher queued",s.size(),hexs(s).c_str()); return; }
  auto&q=n->expectQ[k]; if(q.empty()){ viol("C01,C16,C15","unexpected-delivery","S%d: a packet of P%d (%zu bytes %s) was delivered though none is ready: a duplicate or out of order",n->idx,k,s.size(),hexs(s).c_str()); return; }
  Ident id=q.front(); q.pop_front(); hashIn(0xDE,id.seq,k);
  std::string want=id.pub&&id.seq>=0&&id.epoch==id.pub->epoch?payloadOf(id.pub,id.epoch,id.seq):id.raw;
  if(want!=s){ bool other=false; if(id.pub) for(auto&p:id.pub->pkts) if(p.data==s&&p.seq!=id.seq&&s.size()>=8) other=true;
    if(other) viol("C01,C02","wrong-order","S%d: packet %d of P%d was expected next but another packet (%s) was delivered",n->idx,id.seq,k,hexs(s).c_str());
    viol("C02","corrupted","S%d: packet %d of P%d (%s) was delivered as %zu bytes %s instead of %zu bytes %s",n->idx,id.seq,k,id.tcp?"retransmitted":"multicast",s.size(),hexs(s).c_str(),want.size(),hexs(want).c_str()); }
  if(id.link) id.link->delivered++; n->dispatched++; probe(P_DELIV); probe(id.tcp?P_TCPDELIV:P_MCDELIV); }
static void drain(Node* n,int max){
  while(max-->0){ rmc_sub_packet_t* p; { Call c(n,K_DISPATCH); p=rmc_sub_get_next_dispatch_ready(n->sub); if(c.sys()) viol("C07","dispatch-syscall","asking for the next packet made a system call"); }
    if(!p){ size_t e=0; for(auto&k:n->expectQ) e+=k.second.size(); if(e&&n->depth==0) viol("C01","not-handed-over","%zu packets are complete in order but none is offered for dispatch",e); return; }
    Call c(n,K_DISPATCH); std::string s((const char*)rmc_sub_packet_payload(p),rmc_sub_packet_payload_len(p)); void* pay=rmc_sub_packet_payload(p); bool cb=n->pay.count(pay)>0,own=n->mem.count(pay)>0;
    if(!cb&&!own) viol("C05","payload-unknown","a packet was offered whose payload is not an outstanding allocation");
    dispatched(n,s);
    if(W.cfg.keep&&(int64_t)(choose(0x4EE,n->id)%1000)<W.cfg.keep){ int r=rmc_sub_packet_dispatched_keep_payload(n->sub,p); if(r) viol("C05,C01","dispatch-failed","dispatching a ready packet failed with %d",r); probe(P_KEPT); n->memKept++;
      if(W.cfg.subAllocNull){ if(!n->mem.count(pay)) viol("C05","kept-released","a payload the application kept was released"); else { n->mem.erase(pay); free(pay); } } else { if(!n->pay.count(pay)) viol("C05","kept-released","a payload the application kept was released"); else { n->pay.erase(pay); free(pay); } } }
    else { int r=rmc_sub_packet_dispatched(n->sub,p); if(r) viol("C05,C01","dispatch-failed","dispatching a ready packet failed with %d",r); if(n->pay.count(pay)&&cb) viol("C05","not-released","the payload of a dispatched packet was not released"); } } }
// ---------------------------------------------------------------- control messages
static void ctlBytes(std::string& o,Node* n,uint64_t key,int len){ o.resize(len); uint64_t h=H(W.seed,0xC731,key,n->id); for(int i=0;i<len;i++){ if((i&7)==0) h=mix64(h+i); o[i]=(char)(h>>((i&7)*8)); } }
static int ctlSend(Node* n,Link* l,uint64_t key,int len,bool byNode){
  std::string s; ctlBytes(s,n,key,len); int ret; std::unique_ptr<char,void(*)(void*)> buf((char*)malloc(s.size()),free); memcpy(buf.get(),s.data(),s.size()); bool uniq=true; for(Link* x:n->slinks) if(x!=l&&x->nodeId==l->nodeId&&!x->subClosed&&x->subInc==n->inc) uniq=false;
  { Call c(n,K_CTRL); if(byNode&&uniq) ret=rmc_sub_write_control_message_by_node_id(n->sub,l->nodeId,buf.get(),(payload_len_t)s.size()); else ret=rmc_sub_write_control_message_by_address(n->sub,l->ip,l->port,buf.get(),(payload_len_t)s.size()); n->ret=ret; L_("control message of %d bytes -> %d",len,ret);
    if(ret==0){ l->ctl.push_back(s); l->ctlAt.push_back(W.now); } else { probe(P_CTLREFUSED); if(ret!=ENOMEM) viol("C06,C20","control-refused","a control message on an established connection was refused with error %d",ret); else if(l->pSubOut.buf.empty()&&l->ctlN==l->ctl.size()&&l->needAck.empty()&&(unsigned)len+8<=sim_max_packet) viol("C06,C20","control-no-room","a control message of %d bytes was refused although the connection's buffer is empty",len); if(c.sys()) viol("C20","refused-effect","a refused control message call made system calls"); } }
  memset(buf.get(),0xBB,s.size()); return ret; }
static void sendCtl(Node* n){
  while(!n->ctlQ.empty()&&n->ctlQ.front().t<=W.now){ CtlReq& r=n->ctlQ.front(); Node* p=W.pubs[r.pub]; Link* l=curLink(n,p->ip,p->listenPort); if(!l||!l->complete||l->rogue){ if(r.first<0) r.first=W.now; if(W.now-r.first>MS(3000)) { n->ctlQ.pop_front(); continue; } r.t=W.now+MS(5); return; }
    int ret=ctlSend(n,l,r.key,r.len,r.key&1);
    if(ret==0||(unsigned)r.len+8>sim_max_packet) n->ctlQ.pop_front(); else { r.t=W.now+MS(5); return; } } }

// ---------------------------------------------------------------- event loop
static void dispatchEvent(Node* n,uint16_t idx,bool rd,uint64_t gen){
  auto it=n->regs.find(idx); if(it==n->regs.end()||it->second.gen!=gen) return; int fd=it->second.fd; auto fi=n->fds.find(fd); if(fi==n->fds.end()) return; Sock* s=fi->second; Link* l=s->link; uint8_t op=0; int r; n->ioFailInCall=n->sockFailInCall=false;
  if(n->kind==N_PUB){
    if(rd){ { Call c(n,K_READ); n->readLink=l; r=rmc_pub_read(n->pub,idx,n->api&4?&op:nullptr); n->readLink=nullptr; n->ret=r; L_("pub_read idx %d -> %d",idx,r); if(idx<0x7000&&r&&r!=EAGAIN&&r!=ENOMEM&&r!=EPROTO&&!n->ioFailInCall) viol("C21,C17","spurious-error","reading a connection reported error %d though nothing failed",r); if(r==EPROTO&&l&&!l->pPubIn.bad) viol("C06,C03,C14","healthy-stream-rejected","the publisher rejected a correct control stream"); if(l&&l->pPubIn.bad&&n->fds.count(fd)&&r==0) viol("C15","bad-stream-accepted","an unknown command was read but the call reported success and the connection stays open"); }
      if(idx==IDX_LISTEN&&r){ probe(P_SLOTFULL); auto j=n->regs.find(idx); if(j!=n->regs.end()) j->second.notBefore=W.now+MS(10); }
      else if(idx<0x7000&&(r==EPROTO||r==ENOMEM)){ if(r==ENOMEM&&l&&l->sub->kind==N_SUB) viol("C06,C03","read-buffer-full","the publisher's read buffer is full although the subscriber sent complete commands"); if(n->regs.count(idx)){ n->closingByApp=true; { Call c(n,K_CLOSE); rmc_pub_close_connection(n->pub,idx); } n->closingByApp=false; } }
    } else { bool poll=W.cfg.nullPoll&1,none=idx==IDX_MCAST&&rmc_pub_queue_length(n->pub)==0; if(none&&!poll) viol("C10","write-interest","write interest is registered for the multicast descriptor although nothing is queued");
      Call c(n,K_WRITE); r=rmc_pub_write(n->pub,idx,n->api&4?&op:nullptr); n->ret=r; L_("pub_write idx %d -> %d",idx,r); if(!none&&r!=ENODATA) n->wrWork=true; if(idx==IDX_MCAST&&r&&!(none&&poll)&&!n->ioFailInCall) viol("C21,C18","spurious-error","a multicast write call reported error %d though no system call failed",r); if(r==ENODATA&&poll) {} else if(r==ENODATA) viol("C10","write-interest","write interest is registered for connection %d although there is nothing to write",idx); else if(idx<0x7000&&r&&!n->ioFailInCall) viol("C21","spurious-error","writing a connection reported error %d though nothing failed",r); }
  } else {
    bool connecting=l&&!l->complete;
    if(rd){ { Call c(n,K_READ); n->readLink=l; r=rmc_sub_read(n->sub,idx,n->api&4?&op:nullptr); n->readLink=nullptr; n->ret=r; L_("sub_read idx %d -> %d op %d",idx,r,op); if(idx==IDX_MCAST&&r&&!n->ioFailInCall&&!n->sockFailInCall) viol("C21,C15","spurious-error","a multicast read call reported error %d though no system call failed and no datagram was malformed",r); if(idx<0x7000&&r&&r!=EAGAIN&&r!=ENOMEM&&r!=EPROTO&&!n->ioFailInCall&&!(connecting&&(W.cfg.nullPoll&1))) viol("C21","spurious-error","reading a connection reported error %d though nothing failed",r); if(r==EPROTO&&l&&!l->rogue) viol("C02,C03","healthy-stream-rejected","the subscriber rejected a correct control stream"); }
      if(idx<0x7000&&r==ENOMEM){ if(l&&!l->rogue) viol("C02,C03","read-buffer-full","the subscriber's read buffer is full although the publisher sent complete commands"); if(n->regs.count(idx)){ n->closingByApp=true; { Call c(n,K_CLOSE); rmc_sub_close_connection(n->sub,idx); } n->closingByApp=false; } }
    } else { Call c(n,K_WRITE); n->completing=connecting; n->readLink=l; r=rmc_sub_write(n->sub,idx,n->api&4?&op:nullptr); n->ret=r; n->completing=false; n->readLink=nullptr; L_("sub_write idx %d -> %d op %d",idx,r,op);
      if(connecting&&!l->subClosed&&n->fds.count(fd)){ if(r==0&&s->st!=T_EST&&s->st!=T_DEAD) viol("C09","completed-early","a connection was completed before it was established"); if(r==0){ l->complete=true; l->completeAt=W.now; if((n->cbm&2)&&l->completeCb!=1) viol("C09","completion-missing","the connection was completed but the completion callback was called %d times",l->completeCb); } else viol("C09,C21","complete-failed-open","completing a connection failed with %d but it stays open",r); }
      else if(connecting&&l->completeCb) viol("C09","completion-spurious","the completion callback was called for a connection that failed");
      if(!connecting&&r&&r!=ENODATA&&!n->ioFailInCall) viol("C21","spurious-error","writing a connection reported error %d though nothing failed",r); if(connecting&&r&&s->st==T_EST&&!s->optFailed&&!n->ioFailInCall&&!n->sockFailInCall) viol("C21,C09","spurious-error","completing an established connection reported error %d though nothing failed",r); if(r!=ENODATA) n->wrWork=true; if(!connecting&&r==ENODATA&&!(W.cfg.nullPoll&1)) viol("C10","write-interest","write interest is registered for connection %d although there is nothing to write",idx); } } }
static void rawIterate(Node* n);
static bool held(Node* n){ return W.cfg.bulk&&n->plinks.empty()&&W.now<W.cfg.healAt; } // what comes after the bulk waits for a subscriber
static void queueDue(Node* n){ if(held(n)) return;
  while(!n->toQueue.empty()&&n->toQueue.front().first<=W.now&&n->retryAt<=W.now){ auto q=n->toQueue.front(); if(!pubQueue(n,q.second.first,q.second.second!=0)){ n->retryAt=W.now+MS(5); break; } n->toQueue.pop_front(); }
  if(W.cfg.contGap>0&&n->contNext<=W.now&&W.now>MS(100)&&!W.finishing){ n->contNext=W.now+W.cfg.contGap; if(n->dataQ.size()<50&&n->retryAt<=W.now) if(!pubQueue(n,(int)std::min<int64_t>(W.cfg.contLen,sim_max_payload),false)) n->retryAt=W.now+MS(5); } }
// an application without a modify callback asks for reading always and tries to write every now and then
static int armedOf(Node* n,uint16_t idx,const Reg& r,Sock* s){ if(!(W.cfg.nullPoll&1)) return r.armed; if(s->listening||(n->kind==N_SUB&&idx==IDX_MCAST)) return RMC_POLLREAD; return RMC_POLLREAD|(n->nextWr<=W.now?RMC_POLLWRITE:0); }
void iterate(Node* n){
  if(!n->up) return; if(n->stallUntil>W.now){ kick(n,0); return; } if(n->kind==N_RAW){ rawIterate(n); return; } if(!n->activated) return;
  Us t0=W.now; uint64_t pc=n->pcount; int ev=0; bool err=false; n->sysInCall=0; hashIn(0x17,n->id);
  struct E{ uint16_t idx; int act; uint64_t gen; uint64_t ord; }; std::vector<E> es;
  for(auto&r:n->regs){ if(r.second.notBefore>W.now) continue; auto f=n->fds.find(r.second.fd); if(f==n->fds.end()) continue; int a=armedOf(n,r.first,r.second,f->second)&readiness(f->second); if(a) es.push_back({r.first,a,r.second.gen,choose(0x0E,n->id*131+r.first)}); }
  std::sort(es.begin(),es.end(),[](const E&a,const E&b){ return a.ord<b.ord||(a.ord==b.ord&&a.idx<b.idx); }); if((int64_t)es.size()>W.cfg.evPerLoop){ es.resize(W.cfg.evPerLoop); n->wrWork=true; }
  for(auto&e:es){ auto it=n->regs.find(e.idx); if(it==n->regs.end()||it->second.gen!=e.gen) continue; if(W.cfg.driver==2){ it->second.armed=0; probe(P_ONESHOT); } ev++;
    bool wf=(e.ord>>40)&1; int first=wf?RMC_POLLWRITE:RMC_POLLREAD; for(int k=0;k<2;k++){ int w=k?(first^3):first; if(!(e.act&w)) continue;
      if(k){ auto j=n->regs.find(e.idx); if(j==n->regs.end()||j->second.gen!=e.gen) break; if(w==RMC_POLLWRITE&&!(W.cfg.nullPoll&1)&&!(j->second.action&RMC_POLLWRITE)) continue; }
      dispatchEvent(n,e.idx,w==RMC_POLLREAD,e.gen); if(!n->up||!n->activated) return; }
    if(W.cfg.driver==2){ auto j=n->regs.find(e.idx); if(j!=n->regs.end()&&j->second.gen==e.gen&&!j->second.armed&&j->second.action) viol("C10","not-rearmed","index %d was not modified by the event call, so a one-shot poller never reports it again",e.idx); } }
  Us wake=INT64_MAX; if(W.cfg.nullPoll&1){ if(n->nextWr<=W.now) n->nextWr=n->wrWork?W.now:W.now+MS(2); n->wrWork=false; n->spin=0; wake=n->nextWr; probe(P_NULLPOLL); }
  if(n->kind==N_SUB){
    if(W.cfg.dispatch==0) drain(n,100000); else if(W.cfg.dispatch==2){ if(n->nextDispatch<=W.now){ drain(n,100000); n->nextDispatch=W.now+MS(3)+(Us)(choose(0xD15,n->id)%MS(60)); } wake=std::min(wake,n->nextDispatch); } else if(W.cfg.dispatch==3){ drain(n,1+(int)(choose(0xD15,n->id)%4)); if(rmc_sub_get_dispatch_ready_count(n->sub)) wake=std::min(wake,W.now+500); } else if(W.cfg.dispatch==1){ if(n->expectN&&!(n->cbm&64)) drain(n,100000); }
    sendCtl(n); if(!n->ctlQ.empty()) wake=std::min(wake,n->ctlQ.front().t);
  } else { queueDue(n); if(held(n)) wake=std::min(wake,W.now+MS(1)); else if(!n->toQueue.empty()) wake=std::min(wake,std::max(n->toQueue.front().first,n->retryAt)); if(!held(n)&&W.cfg.contGap>0&&!W.finishing) wake=std::min(wake,std::max(n->contNext,MS(101))); }
  if(!n->up||!n->activated) return;
  Us next=-1; int tcalls=0;
  { Call c(n,K_OTHER); if(n->kind==N_PUB) rmc_pub_timeout_get_next(n->pub,&next); else rmc_sub_timeout_get_next(n->sub,&next); if(W.cfg.pair) hashIn(0xA8,next==-1?~0ULL:(uint64_t)(next-n->clk)); checkTimers(n,next); }
  if(((next!=-1&&next<=nodeClock(n))||(W.cfg.eager&&choose(0xEA6,n->id)%4==0))&&n->timerBackoff<=W.now){ int r; { Call c(n,K_TIMEOUT); r=n->kind==N_PUB?rmc_pub_timeout_process(n->pub):rmc_sub_timeout_process(n->sub); n->ret=r; L_("timeout_process -> %d",r); } tcalls=1; if(r){ err=true; n->timerBackoff=W.now+MS(1)+(Us)(choose(0x7B0,n->id)%MS(4)); }
    { Call c(n,K_OTHER); if(n->kind==N_PUB) rmc_pub_timeout_get_next(n->pub,&next); else rmc_sub_timeout_get_next(n->sub,&next); if(W.cfg.pair) hashIn(0xA8,next==-1?~0ULL:(uint64_t)(next-n->clk)); checkTimers(n,next); } }
  if(next!=-1) wake=std::min(wake,std::max(std::max(next-n->clk,n->timerBackoff),W.now));
  for(auto&r:n->regs){ auto f=n->fds.find(r.second.fd); if(f==n->fds.end()) continue; if(armedOf(n,r.first,r.second,f->second)&readiness(f->second)) wake=std::min(wake,std::max(W.now,r.second.notBefore)); if(f->second->wblock>W.now&&(r.second.armed&RMC_POLLWRITE)) wake=std::min(wake,f->second->wblock); }
  if((ev||tcalls)&&!err&&n->pcount==pc){ if(++n->spin>5000) viol("C10,C13","spinning","node %c%d: 5000 event loop rounds in a row made no progress",n->kind==N_PUB?'P':'S',n->idx); } else n->spin=0;
  if(wake!=INT64_MAX) kick(n,std::max(t0+(n->dataQ.size()>1000?1:W.cfg.loopCost),wake)-W.now); }

// ---------------------------------------------------------------- node life cycle
static std::string ipStr(uint32_t ip){ char b[32]; snprintf(b,32,"%u.%u.%u.%u",ip>>24,(ip>>16)&255,(ip>>8)&255,ip&255); return b; }
static void setAnnounce(Node* n,int64_t us){ Call c(n,K_OTHER); int r=rmc_pub_set_announce_interval(n->pub,(uint32_t)us); if(r) viol("C12,C20","set-interval","setting the announce interval failed with %d",r); if(us>0&&n->annNext<0) n->annNext=W.now+us; if(!us) n->annNext=-1; n->annInt=us; }
static void setThrottle(Node* n,int64_t s,int64_t r){ Call c(n,K_OTHER); n->thrChanged=true; n->thrS=s; n->thrR=r; int x=rmc_pub_throttling(n->pub,(uint32_t)s,(uint32_t)r); if(x) viol("C08,C20","set-throttling","valid thresholds %lld/%lld were refused with %d",(long long)s,(long long)r,x); }
static void tryActivate(Node* n,int inc){
  if(!n->up||n->inc!=inc||n->activated) return; if(n->stallUntil>W.now){ at(n->stallUntil,[n,inc]{ tryActivate(n,inc); }); return; }
  int r; bool ff; { Call c(n,K_ACT); uint32_t fc=0; for(int i=F_SOCKERR;i<=F_NAMEERR;i++) fc+=SH->faultCount[i]; r=n->kind==N_PUB?rmc_pub_activate_context(n->pub):rmc_sub_activate_context(n->sub); uint32_t fc2=0; for(int i=F_SOCKERR;i<=F_NAMEERR;i++) fc2+=SH->faultCount[i]; ff=fc2!=fc; n->ret=r; L_("activate -> %d",r);
    if(r&&!ff) viol("C11,C16,C21","activation-failed","activation failed with %d though no system call failed",r); if(!r&&ff) viol("C11,C21","activation-ignored","a system call failed during activation but it reported success");
    if(r&&!n->fds.empty()) viol("C11,C21","activation-leak","a failed activation left %zu descriptors open",n->fds.size());
    if(!r&&(n->regs.size()!=(n->kind==N_PUB?2u:1u)||!n->regs.count(IDX_MCAST)||(n->kind==N_PUB&&!n->regs.count(IDX_LISTEN)))) viol("C10,C11","activation-registrations","activation succeeded but registered %zu descriptors",n->regs.size()); }
  if(r){ probe(P_ACTFAIL); at(W.now+MS(20),[n,inc]{ tryActivate(n,inc); }); return; }
  n->ttlSet=1; for(auto&f:n->fds){ Sock* s=f.second; if(s->listening){ if(s->lip!=(W.cfg.anyListen?0:n->ip)||(n->cfgPort&&s->lport!=n->cfgPort)) viol("C22","wrong-listen-address","the publisher listens on %x:%u instead of the configured %x:%u",s->lip,s->lport,W.cfg.anyListen?0:n->ip,n->cfgPort); } else if(n->kind==N_SUB&&s->t==S_UDP&&(!s->joined||s->group!=grpIp(n)||s->lport!=grpPort(n)||s->mif!=(W.cfg.mcastIf?n->ip:0))) viol("C22","wrong-membership","the subscriber joined %x:%u on interface %x instead of %x:%u on %x",s->joined?s->group:0,s->lport,s->mif,grpIp(n),grpPort(n),W.cfg.mcastIf?n->ip:0); }
  n->activated=true; n->lastQueued=W.now; for(auto&f:n->fds) if(f.second->listening) n->listenPort=f.second->lport;
  n->listenIp=n->kind==N_PUB&&!W.cfg.anyListen?n->ip:0;
  if(n->kind==N_PUB&&W.cfg.stray&&!W.healed) for(auto&f:n->fds) if(f.second->t==S_UDP) for(int i=0;i<2;i++){ Sock* s=f.second; at(W.now+(Us)(choose(0x57AA,n->id)%(i?400000:1500)),[s]{ if(!s->open) return; Dgram d; d.data=std::string(1+W.now%50,'x'); d.ip=0x0A000999; d.port=77; s->rx.push_back(d); noteFault(F_STRAY); L_("net: stray datagram to sock%d",s->id); kick(s->own); }); }
  if(W.healed&&n->kind==N_PUB&&n->annInt>MS(1000)){ setAnnounce(n,0); setAnnounce(n,MS(200)); }
  kick(n,W.cfg.stray?(Us)(choose(0x57AB,n->id)%3000):0); }
void startNode(Node* n){
  if(n->up) return; if(W.cfg.bulk&&n->kind==N_SUB&&(!W.pubs[0]->activated||W.pubs[0]->dataQ.size()>200)){ at(W.now+MS(10),[n]{ startNode(n); }); return; } n->up=true; n->inc++; n->activated=false; n->stallUntil=0; n->downUntil=0; n->regs.clear(); n->fds.clear(); n->mem.clear(); n->memKept=0; n->wakeSched=false; n->spin=0; n->timerBackoff=0; n->sigpipeIgn=false; n->lastTimer=-1; n->closingByApp=false; n->call=0; n->depth=0; n->hasRogue=false; hashIn(0x57A,n->id);
  n->clk=W.cfg.clkMode?(Us)(H(W.seed,0xC1C,n->id)%(W.cfg.clkMode==1?4000000000ULL:4000000000000ULL)):MS(1000); if(W.cfg.pair==2&&pairSide==1) n->clk+=W.cfg.bClk; user_data_t u=user_data_ptr(n); n->ud=n; std::string gs=ipStr(grpIp(n)); char* grp=(char*)gs.c_str(); int gport=grpPort(n); std::string ip=ipStr(n->ip); int r;
  if(n->kind==N_PUB){ if(n->inc>1) n->epoch++; n->pkts.clear(); n->live.clear(); n->dataQ.clear(); n->annPend.clear(); sim_first_pid=(unsigned long)W.cfg.pid0; n->lastPid=sim_first_pid-1; n->byPid.clear(n->lastPid); n->inflight=0; n->susp=false; n->plinks.clear(); n->annNext=-1; n->annInt=0; n->thrS=n->thrR=0; n->thrBad=false; n->nodeId=n->cfgId; n->retryAt=0;
    { Call c(n,K_INIT); r=rmc_pub_init_context(&n->pub,n->cfgId,grp,gport,W.cfg.mcastIf?(char*)ip.c_str():nullptr,W.cfg.anyListen?nullptr:(char*)ip.c_str(),n->cfgPort,u,cbAdd,W.cfg.nullPoll&1?nullptr:cbMod,W.cfg.nullPoll&2?nullptr:cbRem,(uint32_t)W.cfg.maxSubs,W.cfg.pubFreeNull?nullptr:pubFreeCb); if(r) viol("*","init","init failed with %d",r);
      if(W.cfg.cbmask&8) rmc_pub_set_announce_callback(n->pub,pubAnnCb); n->cbm=W.cfg.cbmask; if(W.cfg.cbmask&16) rmc_pub_set_subscriber_connect_callback(n->pub,pubConnCb); if(W.cfg.cbmask&32) rmc_pub_set_subscriber_disconnect_callback(n->pub,pubDiscCb); if(W.cfg.cbmask&4) rmc_pub_set_control_message_callback(n->pub,pubCtlCb); }
    if(n->cfgId&&rmc_pub_node_id(n->pub)!=n->cfgId) viol("C09,C22","node-id","the publisher's node id is not the configured one"); n->nodeId=rmc_pub_node_id(n->pub); if(rmc_pub_user_data(n->pub).ptr!=n) viol("C10,C05,C22","user-data","the publisher's user data is not the one given at initialisation"); if(rmc_pub_get_max_subscriber_count(n->pub)!=W.cfg.maxSubs) viol("C11,C20","max-count","the publisher has %u connection slots instead of %lld",rmc_pub_get_max_subscriber_count(n->pub),(long long)W.cfg.maxSubs);
    if(W.cfg.thrS>0) setThrottle(n,W.cfg.thrS,W.cfg.thrR); if(W.cfg.annInt>0) setAnnounce(n,W.cfg.annInt);
  } else { n->pay.clear(); n->expectQ.clear(); n->expectN=0;
    n->cbm=W.cfg.cbmask; { Call c(n,K_INIT); r=rmc_sub_init_context(&n->sub,n->cfgId,grp,gport,W.cfg.mcastIf?(char*)ip.c_str():nullptr,u,cbAdd,W.cfg.nullPoll&1?nullptr:cbMod,W.cfg.nullPoll&2?nullptr:cbRem,(uint32_t)W.cfg.maxPubs,W.cfg.subAllocNull?nullptr:subAllocCb,W.cfg.subAllocNull?nullptr:subFreeCb); if(r) viol("*","init","init failed with %d",r);
      if(W.cfg.cbmask&1) rmc_sub_set_announce_callback(n->sub,subAnnCb); if(W.cfg.cbmask&2) rmc_sub_set_subscription_complete_callback(n->sub,subDoneCb); if(W.cfg.cbmask&64) rmc_sub_set_packet_ready_callback(n->sub,subReadyCb); }
    if(n->cfgId&&rmc_sub_node_id(n->sub)!=n->cfgId) viol("C09,C22","node-id","the subscriber's node id is not the configured one"); if(rmc_sub_user_data(n->sub).ptr!=n) viol("C10,C05,C22","user-data","the subscriber's user data is not the one given at initialisation"); if(rmc_sub_get_max_publisher_count(n->sub)!=W.cfg.maxPubs) viol("C11,C20","max-count","the subscriber has %u connection slots instead of %lld",rmc_sub_get_max_publisher_count(n->sub),(long long)W.cfg.maxPubs); }
  if(n->kind==N_PUB) for(int i=0;i<W.cfg.preQueue;i++) if(!pubQueue(n,8+(int)(choose(0x9E,n->id)%40),false)) break;
  if(n->kind==N_PUB&&n->idx==0&&n->inc==1) for(int64_t i=0;i<W.cfg.bulk;i++) if(!pubQueue(n,8,false)) break;
  int inc=n->inc; tryActivate(n,inc); }
static void crash(Node* n){ if(!n->up) return; L_("=== crash of node %d",n->id); hashIn(0xC4A5,n->id); n->downUntil=1; { Enter e(n); for(auto*l:n->plinks) { l->pubClosed=true; l->pubCloseAt=W.now; } killNodeSockets(n); } onNodeDown(n,true); n->up=false; n->activated=false; n->plinks.clear(); n->live.clear(); n->pay.clear(); n->mem.clear(); n->expectQ.clear(); n->wakeSched=false; n->wakeGen++; n->downUntil=0; }
static bool deactivate(Node* n,const char* why){
  if(!n->up) return false; (void)why; int r; { Call c(n,K_DEACT); r=n->kind==N_PUB?rmc_pub_deactivate_context(n->pub):rmc_sub_deactivate_context(n->sub); L_("deactivate -> %d",r); if(r) viol("C10,C11","deactivate-failed","deactivation failed with %d",r);
    if(!n->regs.empty()) viol("C10","registered-after-deactivate","%zu descriptors are registered for polling after deactivation",n->regs.size()); if(!n->fds.empty()) viol("C11","open-after-deactivate","%zu descriptors are open after deactivation",n->fds.size());
    if(n->kind==N_SUB){ n->expectQ.clear(); n->expectN=0; if(rmc_sub_get_dispatch_ready_count(n->sub)) viol("C05,C16","ready-after-deactivate","packets are still ready after deactivation"); if(!n->pay.empty()) viol("C05","payload-leak","%zu payloads are neither dispatched nor released after deactivation",n->pay.size()); } else for(auto&k:n->pkts) if(k.accepted&&k.ptr&&!k.freed&&k.sentAt>=0) viol("C04","unreleased-deactivate","packet %llu was transmitted and is not released after deactivation",(ull)k.pid); }
  n->activated=false; return true; }
static void destroy(Node* n){
  if(!n->up) return; { Call c(n,K_DELETE); int r=n->kind==N_PUB?rmc_pub_delete_context(n->pub):rmc_sub_delete_context(n->sub); L_("delete -> %d",r); if(r) viol("C11","delete-failed","deletion failed with %d",r); n->pub=nullptr; n->sub=nullptr; n->expectQ.clear(); n->expectN=0;
    if(!n->regs.empty()) viol("C10","registered-after-delete","%zu descriptors are registered for polling after deletion",n->regs.size()); if(!n->fds.empty()) viol("C11","open-after-delete","%zu descriptors are open after deletion",n->fds.size());
    if(n->kind==N_PUB&&!n->live.empty()) viol("C04","payload-leak","%zu payloads handed over are not released after deletion",n->live.size());
    if(n->kind==N_SUB&&!n->pay.empty()) viol("C05","payload-leak","%zu payloads are neither dispatched nor released after deletion",n->pay.size());
    size_t left=n->mem.size(); if(left>n->memKept){ size_t sz=0; for(auto&m:n->mem) sz=std::max(sz,m.second); viol(n->kind==N_SUB?"C11,C05":"C11","memory-leak","%zu blocks of memory are not freed after deletion (the largest has %zu bytes)",left-n->memKept,sz); } else if(left) known(KF_KEEPLEAK,"%zu descriptor blocks of packets dispatched with their payload kept are never freed",left); }
  n->up=false; n->activated=false; n->wakeSched=false; n->wakeGen++; }
static void restartAt(Node* n,Us t){ at(t,[n]{ if(!n->up){ L_("=== restart of node %d",n->id); probe(P_RESTART); startNode(n); } }); }

// ---------------------------------------------------------------- misbehaving peers
#pragma pack(push,1)
struct RHdr{ uint64_t pid; uint32_t node; uint16_t len; uint32_t ip; uint16_t port; };
#pragma pack(pop)
static std::string rnd(uint64_t key,size_t n){ std::string s(n,0); uint64_t h=H(W.seed,0x4A4D,key); for(size_t i=0;i<n;i++){ if((i&7)==0) h=mix64(h+i); s[i]=(char)(h>>((i&7)*8)); } return s; }
static void rawSend(Node* n,const std::string& s){ Enter e(n); Dgram g; g.data=s; g.ip=n->ip; g.port=5555; g.from=n; g.ord=++W.ord; hashIn(0x6A,s.size()); mcastDeliver(n,GRPIP,GPORT,g); }
static std::string pkt(uint64_t pid,const std::string& pay,int lenOverride=-1){ RHdr h; h.pid=pid; h.node=0x7777; h.len=lenOverride>=0?lenOverride:pay.size(); h.ip=0; h.port=0; std::string s(1,(char)1); s.append((char*)&h,sizeof h); s+=pay; return s; }
static std::string ack(uint64_t a,uint64_t b){ std::string s(1,(char)2); s.append((char*)&a,8); s.append((char*)&b,8); return s; }
static std::string ctl(const std::string& p,int len){ std::string s(1,(char)3); uint16_t l=len; s.append((char*)&l,2); s+=p; return s; }
static std::string rogueChunk(Node* n,bool asPub){ uint64_t k=H(n->rawSeed,n->rawStep++); int kind=n->rawKind; std::string pay=rnd(k,k%200); if(pay.size()) pay[0]=(char)0xEE; if(pay.size()>4) pay[4]=0;
  if(asPub) switch(kind%9){ case 0: return ""; case 1:{ std::string s=rnd(k,1+k%300); if(s[0]==1) s[0]=7; return s; } case 2: return pkt(1+n->rawStep,pay,60000).substr(0,21+pay.size()); case 3: return pkt(n->rawStep,pay); case 4: return pkt(5,std::string(3000,(char)0xEE),0xFFFF); case 5: return pkt(n->rawStep,""); case 6:{ uint64_t pids[]={0,1,~0ULL,~0ULL-1,3,3,2,1ULL<<63,7}; return pkt(pids[k%9],pay); } case 7:{ std::string s=pkt(n->rawStep,pay); return s.substr(0,1+k%s.size()); } default: return std::string(1,(char)(k&0xFF)==1?9:(char)(2+(k%250))); }
  switch(kind%11){ case 0: return ""; case 1:{ std::string s=rnd(k,1+k%300); if(s[0]==2||s[0]==3) s[0]=(char)0x91; return s; } case 2: return ack(k&1?0:1,k&2?~0ULL:1ULL<<62); case 3: return ack(1,2).substr(0,1+k%16); case 4: return n->rawStep==1?ctl(std::string(5000,'x'),0xFFFF):std::string(9000,'x'); case 5: return ""; case 6: return ctl(pay.empty()?"x":pay,pay.empty()?1:pay.size()); case 7: return ack(1,1+k%40); case 8: return ack(10+k%10,k%10); case 9: return ctl("",0); default: return ack(k%30,k%30+(k>>8)%30)+ctl("hello",5)+std::string(k&1?1:0,(char)0xF7); } }
static void rawIterate(Node* n){
  if(W.healed&&!n->stuck){ for(Sock* s:n->raw) if(s->open){ Enter e(n); n->fds.erase(s->fd); closeSock(s,false); } n->raw.clear(); return; }
  Enter e(n); Us wake=INT64_MAX; bool asPub=n->idx&1;
  if(asPub){ // announce and serve
    Sock* l=nullptr; for(Sock* s:n->raw) if(s->listening) l=s; if(!l){ l=newSock(n,S_LISTEN); allocFd(n,l); l->listening=true; l->backlog=5; l->lport=n->listenPort; l->lip=n->ip; l->t=S_TCP; n->raw.push_back(l); }
    while(!l->aq.empty()){ Sock* c=l->aq.front(); l->aq.pop_front(); allocFd(n,c); n->raw.push_back(c); if(c->link){ c->link->ss=c; c->link->accepted=true; } noteFault(F_ROGUEP); }
    if(n->retryAt<=W.now){ n->retryAt=W.now+(n->crowd?MS(400):MS(60)); RHdr h; h.pid=0; h.node=0x7000+n->id; std::string pay=rnd(n->rawStep+77,n->rawStep%40); h.len=pay.size(); h.ip=n->ip; h.port=n->listenPort; rawSend(n,std::string((char*)&h,sizeof h)+pay); n->rawStep++;
      if(n->rawKind%9==6||n->rawKind%9==3){ h.pid=n->rawKind%9==3?(uint64_t)(1+n->rawStep/2):(H(n->rawSeed,n->rawStep)%3==0?~0ULL:H(n->rawSeed,n->rawStep)%9); std::string q(12,(char)0xEE); q[4]=0; h.len=q.size(); rawSend(n,std::string((char*)&h,sizeof h)+q); } }
    wake=n->retryAt; }
  bool mute=false; if(n->crowd&&!asPub){ mute=n->retryAt>W.now; if(!mute) n->retryAt=W.now+MS(150); }
  for(size_t i=0;i<n->raw.size();i++){ Sock* s=n->raw[i]; if(!s->open||s->listening||s->t!=S_TCP) continue; if(s->st==T_SYN){ continue; } if(s->st==T_DEAD||s->rrst||s->rfin){ n->fds.erase(s->fd); closeSock(s,false); continue; } if(s->st!=T_EST) continue;
    uint64_t k=H(n->rawSeed,0x9,n->rawStep); bool reads=(asPub?n->rawKind%9!=0:(n->rawKind%11!=0&&n->rawKind%11!=3)); if(reads&&s->rcv.size()) kread(s,1<<20);
    if(mute) continue;
    std::string c=rogueChunk(n,asPub); if(c.size()) kwrite(s,c); if((asPub?n->rawKind%9==5:n->rawKind%11==5)&&k%3==0){ n->fds.erase(s->fd); closeSock(s,(k>>8)&1); } }
  n->rawStep++;
  n->raw.erase(std::remove_if(n->raw.begin(),n->raw.end(),[](Sock*s){ return !s->open; }),n->raw.end());
  if(!asPub&&n->raw.empty()&&n->rawStep<4000){ Node* p=W.pubs[n->cfgPort%W.pubs.size()]; if(p->up&&p->listenPort){ for(int i=0;i<std::max(1,n->annAccepted);i++){ Sock* s=newSock(n,S_TCP); s->nb=true; allocFd(n,s); s->link=onConnect(n,s,p->ip,p->listenPort); s->link->rogue=true; p->hasRogue=true; kconnect(s,p->ip,p->listenPort); n->raw.push_back(s); } noteFault(F_ROGUEC); } }
  Us step=MS(2)+(Us)(H(n->rawSeed,0x57E9,n->rawStep)%MS(40)); kick(n,std::min(step,wake==INT64_MAX?step:std::max<Us>(wake-W.now,1000))); }
static Node* addRaw(bool asPub,int kind,uint64_t seed){ Node* n=new Node; n->id=W.nodes.size(); n->kind=N_RAW; n->idx=asPub?1:0; n->ip=0x0A000901+n->id; n->up=true; n->inc=1; n->rawKind=kind; n->rawSeed=H(W.seed,seed); n->listenPort=asPub?4900+n->id:0; n->activated=true; W.nodes.push_back(n); return n; }

// ---------------------------------------------------------------- operations
static Node* nd(int64_t i){ size_t t=W.pubs.size()+W.subs.size(); size_t k=(size_t)(i<0?-i:i)%t; return k<W.pubs.size()?W.pubs[k]:W.subs[k-W.pubs.size()]; }
static void badCall(Node* n,int kind,int64_t x){
  if(!n->up) return; if(!n->activated){ if(kind<9) return; if(kind<18) kind=9+kind%9; } struct Snap{ uint32_t q,c,s; uint64_t g; size_t live,pay; int rd; } a,b;
  auto snap=[&](Snap& s){ memset(&s,0,sizeof s); if(n->kind==N_PUB){ s.q=rmc_pub_queue_length(n->pub); s.c=rmc_pub_get_subscriber_count(n->pub); s.s=rmc_pub_get_socket_count(n->pub); } else { s.c=rmc_sub_get_publisher_count(n->sub); s.s=rmc_sub_get_socket_count(n->sub); s.rd=rmc_sub_get_dispatch_ready_count(n->sub); } s.g=n->regGen; s.live=n->live.size(); s.pay=n->pay.size(); };
  snap(a); static char buf[70000]; int r=0; const char* what=""; bool may0=false; Call c(n,K_OTHER);
  if(kind>=18){ size_t m0=n->mem.size(); char bad[]="no-address",ok[]="239.1.2.3",ip[]="10.0.0.1"; char* a[3]={ok,ip,ip}; int w=x%3; a[w]=x&8?bad:bad+3; what="initialising with an invalid address"; user_data_t u=user_data_u32(7);
    if(n->kind==N_PUB){ rmc_pub_context_t* z=nullptr; if(x&16){ a[w]=ip; what="initialising without a place for the context"; } r=x&16?rmc_pub_init_context(x&32?nullptr:&z,1,x&32?ok:nullptr,1,nullptr,nullptr,0,u,cbAdd,cbMod,cbRem,4,nullptr):rmc_pub_init_context(&z,1,a[0],1,a[1],a[2],0,u,cbAdd,cbMod,cbRem,4,nullptr); }
    else { rmc_sub_context_t* z=nullptr; if(w==2) a[w=1]=bad; r=x&16?rmc_sub_init_context(x&32?nullptr:&z,1,x&32?ok:nullptr,1,nullptr,u,cbAdd,cbMod,cbRem,4,nullptr,nullptr):rmc_sub_init_context(&z,1,a[0],1,a[1],u,cbAdd,cbMod,cbRem,4,nullptr,nullptr); }
    if(n->mem.size()!=m0) viol("C20,C11","refused-effect","%s was refused but left %zu blocks of memory allocated",what,n->mem.size()-m0); }
  else if(kind>=9){ // null contexts and arguments, unknown packets; the only kinds used on a deactivated context
    uint8_t o=0; usec_timestamp_t ts=0; uint16_t special=(x&1)?IDX_MCAST:IDX_LISTEN; bool off=!n->activated; char dummy[256]; memset(dummy,0xC3,sizeof dummy);
    if(n->kind==N_PUB) switch((kind-9)%9){
      case 0: what="reading on a null context"; r=rmc_pub_read(nullptr,special,&o); break;
      case 1: what="closing on a null context"; r=rmc_pub_close_connection(nullptr,0); break;
      case 2: what="thresholds on a null context"; r=rmc_pub_throttling(nullptr,3,1); break;
      case 3: what="setting callbacks on a null context"; r=rmc_pub_set_announce_callback(nullptr,pubAnnCb)&&rmc_pub_set_subscriber_connect_callback(nullptr,pubConnCb)&&rmc_pub_set_subscriber_disconnect_callback(nullptr,pubDiscCb)&&rmc_pub_set_control_message_callback(nullptr,pubCtlCb)&&rmc_pub_set_user_data(nullptr,user_data_u32(7)); break;
      case 4: what="activating a null context"; r=rmc_pub_activate_context(nullptr); break;
      case 5: what="deactivating a null context"; r=rmc_pub_deactivate_context(nullptr); break;
      case 6: what="asking a null context"; r=rmc_pub_context_get_pending(nullptr,nullptr,nullptr,nullptr)&&!(rmc_pub_get_subscriber_count(nullptr)||rmc_pub_get_socket_count(nullptr)||rmc_pub_get_max_subscriber_count(nullptr)||rmc_pub_node_id(nullptr)||rmc_pub_user_data(nullptr).u64); break;
      case 7: what=off?"writing on a deactivated context":"writing an index out of range"; may0=off; r=rmc_pub_write(n->pub,off&&(x&1)?IDX_MCAST:(uint16_t)(W.cfg.maxSubs+(x>>1)%100),&o); break;
      default: what=off?"reading on a deactivated context":"reading an index out of range"; r=rmc_pub_read(n->pub,off?(x&2)?special:0:(uint16_t)(W.cfg.maxSubs+(x>>1)%100),&o); break; }
    else switch((kind-9)%9){
      case 0: what="a control message on a null context"; r=rmc_sub_write_control_message_by_address(nullptr,1,1,buf,10)&&rmc_sub_write_control_message_by_node_id(nullptr,1,buf,10); break;
      case 1: what="a null control message"; { Link* l=nullptr; for(Link* y:n->slinks) if(y->subInc==n->inc&&!y->subClosed) l=y; r=l?rmc_sub_write_control_message_by_address(n->sub,l->ip,l->port,nullptr,10)&&rmc_sub_write_control_message_by_node_id(n->sub,l->nodeId,nullptr,10):rmc_sub_write_control_message_by_address(n->sub,1,1,nullptr,10); } break;
      case 2: what="dispatching an unknown packet"; r=rmc_sub_packet_dispatched(n->sub,(rmc_sub_packet_t*)dummy); break;
      case 3: what="keeping an unknown packet"; r=rmc_sub_packet_dispatched_keep_payload(n->sub,(rmc_sub_packet_t*)dummy); break;
      case 4: what="dispatching a null packet"; r=rmc_sub_packet_dispatched(n->sub,nullptr)&&rmc_sub_packet_dispatched_keep_payload(nullptr,(rmc_sub_packet_t*)dummy); break;
      case 5: what="setting callbacks on a null context"; r=rmc_sub_set_announce_callback(nullptr,subAnnCb)&&rmc_sub_set_subscription_complete_callback(nullptr,subDoneCb)&&rmc_sub_set_packet_ready_callback(nullptr,subReadyCb)&&rmc_sub_set_user_data(nullptr,user_data_u32(7)); break;
      case 6: what="asking a null context"; r=!(rmc_sub_get_publisher_count(nullptr)||rmc_sub_get_socket_count(nullptr)||rmc_sub_get_max_publisher_count(nullptr)||rmc_sub_node_id(nullptr)||rmc_sub_user_data(nullptr).u64||rmc_sub_get_next_dispatch_ready(nullptr)||rmc_sub_packet_payload(nullptr)||rmc_sub_packet_payload_len(nullptr)); break;
      case 7: what=off?"writing on a deactivated context":"writing an index out of range"; r=rmc_sub_write(n->sub,off?0:(uint16_t)(W.cfg.maxPubs+(x>>1)%100),&o); break;
      default: what=off?"reading on a deactivated context":"reading an index out of range"; r=rmc_sub_read(n->sub,off?(x&2)?IDX_MCAST:0:(uint16_t)(W.cfg.maxPubs+(x>>1)%100),&o); break; }
    (void)ts; }
  else if(n->kind==N_PUB) switch(kind%9){
    case 0:{ int len=(int)sim_max_payload+1+(int)(x%200); if(len>65535) len=65535; what="queueing a packet above the maximum"; n->cur=-1; r=rmc_pub_queue_packet(n->pub,buf,(payload_len_t)len,(x>>8)&1); break; }
    case 1: what="queueing a null payload"; r=rmc_pub_queue_packet(n->pub,nullptr,10,0); break;
    case 2: what="throttling thresholds with suspend below resume"; { uint32_t S=(uint32_t)(x>>4)%5; n->thrBad=true; r=rmc_pub_throttling(n->pub,S,S+1+(uint32_t)(x%9)); } break;
    case 3: what="closing an unused connection"; { uint16_t i=0; while(n->regs.count(i)) i++; r=rmc_pub_close_connection(n->pub,(x&1)?i:(uint16_t)(W.cfg.maxSubs+5)); } break;
    case 4: what="reading an unused connection"; { uint16_t i=0; while(n->regs.count(i)) i++; uint8_t o; r=rmc_pub_read(n->pub,(x&1)?i:(uint16_t)(W.cfg.maxSubs+5),&o); } break;
    case 5: what="writing an unused connection"; { uint16_t i=0; while(n->regs.count(i)) i++; uint8_t o; r=rmc_pub_write(n->pub,(x&1)?i:(uint16_t)(W.cfg.maxSubs+5),&o); } break;
    case 8: what="activating twice"; r=rmc_pub_activate_context(n->pub); break;
    case 6: what="queueing on a null context"; r=rmc_pub_queue_packet(nullptr,buf,10,0); break;
    default: what="asking a null deadline"; r=rmc_pub_timeout_get_next(n->pub,nullptr); break; }
  else switch(kind%9){
    case 0: what="a control message to an unknown address"; r=rmc_sub_write_control_message_by_address(n->sub,0x0A0A0A0A,77,buf,10); break;
    case 1: what="a control message to an unknown node id"; r=rmc_sub_write_control_message_by_node_id(n->sub,0xFEFEFEFE,buf,10); break;
    case 2: what="an empty control message"; { Link* l=nullptr; for(Link* y:n->slinks) if(y->subInc==n->inc&&!y->subClosed) l=y; if(!l){ return; } r=rmc_sub_write_control_message_by_address(n->sub,l->ip,l->port,buf,0); } break;
    case 3: what="a control message larger than the buffer"; { Link* l=nullptr; for(Link* y:n->slinks) if(y->subInc==n->inc&&!y->subClosed) l=y; if(!l){ return; } int len=(int)sim_max_packet+(int)(x%300); if(len>65535) len=65535; r=rmc_sub_write_control_message_by_address(n->sub,l->ip,l->port,buf,(payload_len_t)len); } break;
    case 4: what="reading an unused connection"; { uint16_t i=0; while(n->regs.count(i)) i++; uint8_t o; r=rmc_sub_read(n->sub,(x&1)?i:(uint16_t)(W.cfg.maxPubs+5),&o); } break;
    case 5: what="writing an unused connection"; { uint16_t i=0; while(n->regs.count(i)) i++; uint8_t o; r=rmc_sub_write(n->sub,(x&1)?i:(uint16_t)(W.cfg.maxPubs+5),&o); } break;
    case 8: what="reading on a null context"; { uint8_t o; r=rmc_sub_read(nullptr,IDX_MCAST,&o); } break;
    case 6: what="activating twice"; r=rmc_sub_activate_context(n->sub); break;
    default: what="a control message on a connection not yet established"; { Link* l=nullptr; for(Link* y:n->slinks) if(y->subInc==n->inc&&!y->subClosed&&!y->complete) l=y; if(!l) return; r=rmc_sub_write_control_message_by_address(n->sub,l->ip,l->port,buf,10); } break; }
  L_("bad call: %s -> %d",what,r); if(!r&&!may0) viol("C20","bad-call-accepted","%s was accepted",what); if(c.sys()) viol("C20","refused-effect","%s was refused but made system calls",what); snap(b); if(memcmp(&a,&b,sizeof a)) viol("C20","refused-effect","%s was refused but changed the state",what); probe(P_REFUSED); }
void applyOp(const Op& o){
  Node* n; L_("op %s %lld %lld %lld %lld",opName[o.k],(long long)o.a,(long long)o.b,(long long)o.c,(long long)o.d); hashIn(0x09,o.k);
  switch(o.k){
   case O_QUEUE: { n=W.pubs[o.a%W.pubs.size()]; uint64_t h=H(W.seed,0x0B,o.c); Us t=W.now; for(int64_t i=0;i<o.b;i++){ int64_t len=o.c>=0?o.c:0; if(o.c<0){ uint64_t z=H(h,(uint64_t)o.c,i); int64_t mx=sim_max_payload; int lo=W.cfg.tiny?0:8; switch((-o.c)%5){ case 0: len=lo+z%64; break; case 1: len=lo+z%(mx-lo+1); break; case 2: len=z%4==0?mx-(int64_t)(z>>8)%3:lo+(z>>8)%60; break; case 3: len=lo+z%600; break; default: len=z%2?lo+(z>>8)%20:lo+(z>>8)%(mx/3); } } if(len>(int64_t)sim_max_payload) len=sim_max_payload; if(len<8&&!W.cfg.tiny) len=8; n->toQueue.push_back({t,{(int)len,0}}); t+=o.d; } if(n->up) kick(n); break; }
   case O_USERANN: { n=W.pubs[o.a%W.pubs.size()]; n->toQueue.push_front({W.now,{(int)std::min<int64_t>(o.b,sim_max_payload),1}}); if(n->up) kick(n); break; }
   case O_CTRL: { n=W.subs[o.a%W.subs.size()]; CtlReq r; r.t=W.now; r.pub=o.b%W.pubs.size(); r.len=std::max<int64_t>(1,std::min<int64_t>(o.c,(int64_t)sim_max_packet-8)); r.key=H(o.d,o.a,o.t); for(int i=0;i<(o.d&15)+1;i++){ r.key=mix64(r.key); n->ctlQ.push_back(r); r.t+=(o.d>>4)&0xFFF; } if(n->up) kick(n); break; }
   case O_STALL: n=nd(o.a); if(n->up){ n->stallUntil=std::max(n->stallUntil,W.now+o.b); n->stallEnd=std::max(n->stallEnd,n->stallUntil); noteFault(F_STALL); kick(n); } break;
   case O_PART: { n=nd(o.a); Node* m=nd(o.b); if(n!=m){ auto&p=W.part[{std::min(n->id,m->id),std::max(n->id,m->id)}]; p=std::max(p,W.now+o.c); noteFault(F_PART); } break; }
   case O_RST: { std::vector<Link*> v; for(Link* l:W.links) if(l->cs&&l->ss&&l->cs->st==T_EST&&l->cs->open&&l->ss->open) v.push_back(l); if(v.size()){ resetPair(v[(size_t)o.a%v.size()]->cs); noteFault(F_RST); } break; }
   case O_PCLOSE: { n=W.pubs[o.a%W.pubs.size()]; if(!n->up||!n->activated) break; std::vector<uint16_t> v; for(auto&r:n->regs) if(r.first<0x7000) v.push_back(r.first); if(v.size()){ noteFault(F_PCLOSE); n->closingByApp=true; { Call c(n,K_CLOSE); int r=rmc_pub_close_connection(n->pub,v[(size_t)o.b%v.size()]); if(r) viol("C11,C17","close-failed","closing an open connection failed with %d",r); if(n->regs.count(v[(size_t)o.b%v.size()])) viol("C10,C11","close-ignored","a connection closed by the application is still registered"); } n->closingByApp=false; kick(n); } break; }
   case O_SCLOSE: { n=W.subs[o.a%W.subs.size()]; if(!n->up||!n->activated) break; std::vector<uint16_t> v; for(auto&r:n->regs) if(r.first<0x7000) v.push_back(r.first); if(v.size()){ noteFault(F_SCLOSE); n->closingByApp=true; { Call c(n,K_CLOSE); rmc_sub_close_connection(n->sub,v[(size_t)o.b%v.size()]); if(n->regs.count(v[(size_t)o.b%v.size()])) viol("C10,C11","close-ignored","a connection closed by the application is still registered"); } n->closingByApp=false; kick(n); } break; }
   case O_CRASH: n=nd(o.a); if(n->up){ noteFault(F_CRASH); crash(n); restartAt(n,W.now+std::max<int64_t>(o.b,MS(100))); } break;
   case O_GRACE: n=nd(o.a); if(n->up&&n->stallUntil<=W.now){ noteFault(F_GRACE); if(o.c&1) deactivate(n,"grace"); destroy(n); restartAt(n,W.now+std::max<int64_t>(o.b,1000)); } break;
   case O_REACT: n=nd(o.a); if(n->up&&n->activated&&n->stallUntil<=W.now){ noteFault(F_REACT); deactivate(n,"react"); int inc=n->inc; at(W.now+std::max<int64_t>(o.b,100),[n,inc]{ tryActivate(n,inc); }); } break;
   case O_GARB: { static Node* g=nullptr; if(!g) g=addRaw(false,0,1); noteFault(F_GARBAGE); RHdr h; h.pid=o.c%5; h.node=0x6600; h.ip=0x0A000701+o.d%40; h.port=6000+o.d%10; h.len=0; std::string b;
      switch(o.b%13){ case 12: { const std::string& x=W.pubs[o.d%W.pubs.size()]->lastDg; if(x.size()<20) break; memcpy(&h,x.data(),20); h.pid+=o.c%4; h.len=(uint16_t)(65500+(o.c>>3)%36); b=std::string((char*)&h,sizeof h)+rnd(o.c,o.d%30); break; }  case 0: b=rnd(o.c,o.c%20); break; case 9: case 10: { const std::string& x=W.pubs[o.d%W.pubs.size()]->lastDg; if(x.size()<21){ b=x.substr(0,x.size()/2); break; } int64_t k=o.b%13==9?1+o.c%20:1+o.c%(int64_t)x.size(); if(k>(int64_t)x.size()-20&&k<20&&o.c%3) k=(int64_t)x.size()-20; b=x.substr(0,x.size()-k); break; } case 11: h.pid=0; h.len=20+o.c%60; b=std::string((char*)&h,sizeof h)+rnd(o.c,h.len-1-(o.c>>8)%20); break; case 1: h.len=o.d%3?1+o.c%60000:65500+o.c%36; b=std::string((char*)&h,sizeof h)+rnd(o.c,o.c%std::min<int64_t>(h.len,1000)); break; case 2: h.pid=1+o.c%1000; h.len=10; b=std::string((char*)&h,sizeof h)+std::string(10,(char)0xEE); break; case 3: b=""; break; case 4: h.pid=0; h.len=5; b=std::string((char*)&h,sizeof h)+"bogus"; break; case 5: h.pid=0; h.ip=nd(o.d)->ip; h.port=1; h.len=0; b=std::string((char*)&h,sizeof h)+"trailing bytes"; break; case 6: b=rnd(o.c,40+o.c%2000); if(b.size()>=8) b[0]=(char)(b[0]|1); break; case 7: h.pid=0; h.ip=0; h.len=0; b=std::string((char*)&h,sizeof h); break; default: h.pid=~0ULL; h.len=4; b=std::string((char*)&h,sizeof h)+"xxxx"; break; }
      W.rogue=true; for(Node* s:W.subs) s->hasRogue=s->hasRogue; rawSend(g,b); break; }
   case O_ROGUEC: { W.rogue=true; if(o.d>=100){ for(int64_t i=0;i<o.d;i+=10){ Node* r=addRaw(false,(int)o.b,o.c+i); r->cfgPort=o.a; r->annAccepted=10; r->crowd=true; at(W.now+i*100,[r]{ kick(r); }); } break; } Node* r=addRaw(false,(int)o.b,o.c); r->cfgPort=o.a; r->annAccepted=(int)o.d; kick(r); break; }
   case O_ROGUEP: { W.rogue=true; for(int64_t i=1;i<o.d;i++){ Node* r=addRaw(true,(int)o.b,o.c+i); r->crowd=true; at(W.now+i*100,[r]{ kick(r); }); } Node* r=addRaw(true,(int)o.b,o.c); kick(r); break; }
   case O_ANNINT: n=W.pubs[o.a%W.pubs.size()]; if(n->up&&n->activated&&n->stallUntil<=W.now){ setAnnounce(n,o.b); kick(n); } break;
   case O_THR: n=W.pubs[o.a%W.pubs.size()]; if(n->up&&n->activated){ setThrottle(n,o.b,o.c); kick(n); } break;
   case O_LOG: pairLogOp(o); break;
   case O_JUMP: { if(W.healed) break; Us g=o.a,old=W.now; noteFault(F_JUMP); W.now+=g; W.jumped+=g; for(Ev* e:W.q.all()) e->t+=g; W.cfg.healAt+=g; W.end+=g; W.nextP+=g; for(auto&p:W.part) if(p.second>old) p.second+=g; for(Sock* s:W.socks) if(s->wblock>old) s->wblock+=g;
      for(Node* m:W.nodes){ if(m->stallUntil>old) m->stallUntil+=g; m->stallEnd=std::max(W.now,m->stallUntil); m->wakeAt+=g; for(auto&q:m->toQueue) q.first+=g; for(auto&q:m->ctlQ){ q.t+=g; q.first=-1; } if(m->up) kick(m,(Us)(choose(0x10B,m->id)%3000)); } break; }
   case O_CBSET: n=nd(o.a); if(n->up){ Call c(n,K_OTHER); noteFault(F_CBSET); int64_t m=o.b; if(W.cfg.dispatch==1) m|=64; int r; if(n->kind==N_PUB){ m=(n->cbm&~8)|(m&8); r=rmc_pub_set_announce_callback(n->pub,m&8?pubAnnCb:nullptr); } else { m=(n->cbm&~67)|(m&67); r=rmc_sub_set_announce_callback(n->sub,m&1?subAnnCb:nullptr)|rmc_sub_set_subscription_complete_callback(n->sub,m&2?subDoneCb:nullptr)|rmc_sub_set_packet_ready_callback(n->sub,m&64?subReadyCb:nullptr); } n->cbm=m; if(r) viol("C12,C09,C01,C20","set-callback","setting the callbacks failed with %d",r); } break;
   case O_BADCALL: badCall(nd(o.a),(int)o.b,o.c); break;
   case O_UDATA: n=nd(o.a); if(n->up){ Call c(n,K_OTHER); void* p=(char*)n+o.b; int r=n->kind==N_PUB?rmc_pub_set_user_data(n->pub,user_data_ptr(p)):rmc_sub_set_user_data(n->sub,user_data_ptr(p)); n->ud=p; user_data_t u=n->kind==N_PUB?rmc_pub_user_data(n->pub):rmc_sub_user_data(n->sub); if(r||u.ptr!=p) viol("C10,C20","set-user-data","setting the user data returned %d and did not take effect",r); } break;
   case O_UDPBLOCK: n=W.pubs[o.a%W.pubs.size()]; if(n->up) for(auto&f:n->fds) if(f.second->t==S_UDP){ f.second->wblock=std::max(f.second->wblock,W.now+o.b); noteFault(F_UDPBLOCK); at(f.second->wblock,[n]{ kick(n); }); } break;
   case O_TTL: n=W.pubs[o.a%W.pubs.size()]; if(n->up&&n->activated){ Call c(n,K_OTHER); int r=rmc_pub_set_multicast_ttl(n->pub,(int)o.b); if(r&&!n->sockFailInCall) viol("C20,C21","refused-valid","setting the multicast lifetime failed with %d though no system call failed",r); if(!r&&n->sockFailInCall) viol("C21","failure-hidden","setting the multicast lifetime reported success though the system call failed"); if(!r) n->ttlSet=(int)o.b; if(!r) for(auto&f:n->fds) if(f.second->t==S_UDP&&f.second->ttl!=o.b) viol("C20,C22","ttl-not-set","the multicast lifetime was set to %lld but the socket has %d",(long long)o.b,f.second->ttl); } break; } }
void healAll(){ L_("=== faults stop"); W.healed=true; W.healAt=W.now; W.part.clear(); W.cfg.pRejectP=W.cfg.pRejectS=0; if(W.cfg.annInt>MS(1000)) W.cfg.annInt=MS(200);
  for(Sock* s:W.socks) if(s->t==S_UDP&&s->wblock>W.now) s->wblock=W.now;
  for(Node* n:W.nodes) if(n->stallUntil>W.now){ n->stallUntil=W.now; n->stallEnd=W.now; }
  if(W.cfg.stuck){ Node* n=W.subs[(size_t)(W.cfg.stuck-1)%W.subs.size()]; if(n->up&&n->activated){ n->stuck=true; n->stallUntil=INT64_MAX/4; n->stallEnd=n->stallUntil; noteFault(F_STUCKPEER); } for(Node* r:W.nodes) if(r->kind==N_RAW&&(W.cfg.stuck&1)) r->stuck=true; }
  for(Node* n:W.pubs) if(n->up&&n->activated&&(n->annInt<=0||n->annInt>MS(1000)||n->annNext>W.now+MS(1000))){ if(n->annInt>0) setAnnounce(n,0); setAnnounce(n,MS(200)); }
  for(Node* n:W.nodes) if(!n->stuck) kick(n); for(Sock* s:W.socks) pump(s); }
void priorContexts(int k);
void setupWorld(){
  W.cfg=W.sc.cfg; W.seed=W.sc.seed; W.prop=W.sc.prop;
  pairSetup();
  for(int i=0;i<W.cfg.nPub+W.cfg.nSub;i++){ Node* n=new Node; n->id=W.nodes.size(); bool p=i<W.cfg.nPub; n->kind=p?N_PUB:N_SUB; n->idx=p?i:i-W.cfg.nPub; uint32_t base=W.cfg.ipMode?0xC0A80000:0x0A000000; n->ip=base+(p?0x101+(W.cfg.shareHost?0:n->idx):(W.cfg.shareHost==2?0x101:0x201+(W.cfg.shareHost?0:n->idx))); n->cfgId=W.cfg.zeroId?0:(W.cfg.ipMode?0xF0000000u:0)+0x1000*(p?1:2)+n->idx+1; n->cfgPort=p?(W.cfg.ephemeral?0:(W.cfg.ipMode?61001:4001)+n->idx):0; n->grp=W.cfg.grpMode?n->idx&1:0; if(W.cfg.selfId&&!p&&n->idx==W.cfg.nSub-1&&!W.cfg.zeroId) n->cfgId=W.pubs[0]->cfgId; W.nodes.push_back(n); (p?W.pubs:W.subs).push_back(n); }
  W.multi=W.cfg.nPub+W.cfg.nSub>2; if(W.cfg.nPub>1) probe(P_MULTIPUB); if(W.cfg.nSub>1) probe(P_MULTISUB); probe(W.cfg.clean?P_JOINCLEAN:P_JOINWILD);
  for(Node* n:W.nodes){ Us t=W.cfg.startSpread?(Us)(H(W.seed,0x57A7,n->id)%(uint64_t)W.cfg.startSpread):0; if(W.cfg.subFirst==1&&n->kind==N_PUB) t+=MS(5); if(W.cfg.bulk&&n->kind==N_SUB) t+=MS(400); at(t,[n]{ startNode(n); }); }
  if(W.cfg.pair==2&&pairSide==1&&W.cfg.bPrior) priorContexts((int)W.cfg.bPrior); }
// contexts that lived in this process before the ones under test: they must leave nothing behind
static void priorFree(void* p,payload_len_t,user_data_t){ free(p); }
void priorContexts(int k){
  uint64_t es=W.evseq,od=W.ord,hs=SH->hash; uint16_t ep=W.eph; size_t ns=W.socks.size(); bool hl=W.healed; auto ch=W.chN; W.healed=true;
  for(int i=0;i<k;i++){ Node* n=new Node; n->id=900+i; n->ip=0x0A636301+i; n->clk=MS(1000)*(i+1); n->ud=n; uint64_t z=H(W.seed,0x9410,i); n->kind=z&1?N_PUB:N_SUB; n->inc=1; Enter e(n); std::string g=ipStr(GRPIP+(z>>1)%3); int r=0;
    if(n->kind==N_PUB){ r|=rmc_pub_init_context(&n->pub,0x9000+i,(char*)g.c_str(),GPORT,nullptr,nullptr,0,user_data_ptr(n),(z>>40)%3?cbAdd:nullptr,(z>>42)%3&&(z>>40)%3?cbMod:nullptr,(z>>44)%3&&(z>>40)%3?cbRem:nullptr,1+(z>>4)%5,priorFree); if(z&0x100) rmc_pub_set_announce_interval(n->pub,1000+(z>>9)%100000); if(z&0x200) rmc_pub_throttling(n->pub,3,1); if(z&0x400) rmc_pub_set_multicast_ttl(n->pub,9); for(int q=0;q<(int)((z>>12)%5);q++){ size_t len=1+(z>>20)%100; void* p=malloc(len); memset(p,7,len); if(rmc_pub_queue_packet(n->pub,p,(payload_len_t)len,0)) free(p); } if(z&0x800) r|=rmc_pub_activate_context(n->pub); Us nx; rmc_pub_timeout_get_next(n->pub,&nx); if(z&0x10000) r|=rmc_pub_deactivate_context(n->pub); r|=rmc_pub_delete_context(n->pub); }
    else { r|=rmc_sub_init_context(&n->sub,0x9000+i,(char*)g.c_str(),GPORT,nullptr,user_data_ptr(n),(z>>40)%3?cbAdd:nullptr,(z>>42)%3&&(z>>40)%3?cbMod:nullptr,(z>>44)%3&&(z>>40)%3?cbRem:nullptr,1+(z>>4)%5,nullptr,nullptr); if(z&0x800) r|=rmc_sub_activate_context(n->sub); Us nx; rmc_sub_timeout_get_next(n->sub,&nx); if(z&0x10000) r|=rmc_sub_deactivate_context(n->sub); r|=rmc_sub_delete_context(n->sub); }
    probe(P_PRIOR); if(r) viol("C11,C24","prior-context","setting up and deleting a context failed with %d",r); }
  W.socks.resize(ns); W.evseq=es; W.ord=od; W.eph=ep; W.healed=hl; W.chN=ch; SH->hash=hs; }
void teardownAll(){ L_("=== teardown"); std::vector<Node*> v; for(Node* n:W.nodes) if(n->kind!=N_RAW&&n->up){ v.push_back(n); n->stallUntil=0; } std::sort(v.begin(),v.end(),[](Node*a,Node*b){ return H(W.seed,0x7EA,a->id)<H(W.seed,0x7EA,b->id); });
  for(Node* n:v){ int m=(int)((W.cfg.teardown+H(W.seed,0x7EB,n->id))%5); if(m==1||m==2) deactivate(n,"teardown"); if(m==2) deactivate(n,"teardown again");
    if(m==3){ deactivate(n,"teardown"); int inc=n->inc; tryActivate(n,inc); } destroy(n); } }
void runScenario(const Scenario& sc){
  W.sc=sc; setupWorld(); for(auto&o:W.sc.ops) at(o.t,[o]{ applyOp(o); }); at(W.cfg.healAt,[]{ healAll(); });
  W.end=W.cfg.healAt+W.cfg.settle; W.nextP=MS(10); 
  while(!W.q.empty()){ Ev* e=W.q.top(); if(e->t>W.end) break; while(W.nextP<=e->t){ W.now=std::max(W.now,W.nextP); checkPeriodic(); W.nextP+=MS(10); } W.q.pop(); if(e->t>W.now) W.now=e->t; SH->events=SH->events+1; e->f(); delete e; SH->now=W.now-W.jumped; if(SH->events>1500000){ probe(P_TRUNC); SH->done=1; _exit(0); } }
  if(W.now<W.end) W.now=W.end; checkPeriodic(); checkFinal(); W.endReached=true; W.finishing=true; teardownAll(); pairEnd(); SH->now=W.now-W.jumped; SH->done=1; }
