// Scenario generation (one seed, one scenario) and the replay file format.
#include "core.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <sstream>
static bool is(const std::string& p,const char* l){ return strstr(l,p.c_str())!=nullptr; }
Scenario generate(uint64_t seed,const std::string& prop){
  Scenario s; s.seed=seed; s.prop=prop; Rng r(H(seed,0x6E4)); Cfg& c=s.cfg; const std::string& P=prop; int64_t big=sim_max_packet>2000;
  bool quiet=r.p(150); // hardly any fault: plain operation must work as well
  c.nPub=r.pick({1,1,1,2,2,3}); c.nSub=r.pick({1,1,2,2,3,4}); if(!big&&r.p(40)) c.nSub=r.r(5,7); if(is(P,"C07")) { c.nSub=r.r(2,4); c.nPub=r.pick({1,2,3}); } if(big&&c.nPub*c.nSub>6) c.nSub=2;
  c.clean=r.p(is(P,"C03,C16")?550:750); c.driver=r.r(0,2); c.cbmask=127; if(r.p(200)) c.cbmask=r.r(0,127); if(is(P,"C06")) c.cbmask|=4; if(is(P,"C17")) c.cbmask|=48; if(is(P,"C12")&&r.p(800)) c.cbmask|=9; if(is(P,"C09")&&r.p(800)) c.cbmask|=3;
  c.pubFreeNull=r.p(200); c.subAllocNull=r.p(200); if(is(P,"C05")) c.subAllocNull=r.p(80);
  c.latency=r.pick({20,100,200,500,2000,10000}); c.jitter=r.pick({0,50,300,3000}); c.segMode=r.pick({0,0,1,2,3}); if(is(P,"C02,C06,C15")) c.segMode=r.pick({0,1,2,2,3,3});
  c.sndCap=r.pick({65536,65536,8192,1500,400,100}); c.rcvCap=r.pick({65536,65536,8192,1500,500}); c.udpCap=r.pick({256,256,20,5});
  if(big){ c.sndCap=r.pick({131072,65536,20000}); c.rcvCap=r.pick({131072,65536,20000}); if(c.segMode==1) c.segMode=3; }
  if(!quiet){
    c.pLoss=r.pick({0,20,100,300,600,900}); c.pDup=r.pick({0,0,50,300}); c.pDelay=r.pick({0,0,100,500}); c.maxDelay=r.pick({2000,20000,80000,200000});
    c.pShortW=r.pick({0,0,200,600}); c.pShortR=r.pick({0,0,200,600}); c.pTcpSlow=r.pick({0,0,0,100,300}); c.pSendEagain=r.pick({0,0,0,50,300});
    if(is(P,"C03,C04,C13,C18,C19,C02,C08")&&r.p(700)) c.pLoss=r.pick({100,300,600,1000});
    if(r.p(is(P,"C21")?850:is(P,"C09,C10,C11")?350:120)){ int m=r.pick({20,60,200}); for(int k=0;k<(is(P,"C21")?4:2);k++) switch(r.r(0,15)){ case 0: c.pSendErr=m*2; break; case 1: c.pRecvErr=m*2; break; case 2: c.pConnErr=m*2; break; case 3: c.pConnRefuse=m*2; break; case 4: c.pSynLoss=m; break; case 5: c.pAccErr=m*3; break; case 6: c.pSockErr=m*2; break; case 7: c.pOptErr=m; break; case 8: c.pGetOptErr=m*2; break; case 9: c.pBindErr=m*2; break; case 10: c.pListenErr=m*2; break; case 11: c.pNameErr=m*2; break; case 12: c.pWEagain=m*2; break; case 13: c.pConnImm=m*4; break; case 14: c.pRAgain=m*2; break; default: c.pSendEagain=m*2; } }
    if(is(P,"C11")&&r.p(400)){ c.pBindErr=r.pick({0,200,500}); c.pOptErr=r.pick({0,100,300}); c.pListenErr=r.pick({0,300}); c.pSockErr=r.pick({0,100,300}); c.pNameErr=r.pick({0,300}); }
  }
  c.annInt=r.pick({20000,50000,100000,200000}); if(is(P,"C12")) c.annInt=r.pick({5000,20000,33000,60000,150000}); c.annLen=r.p(600)?-1:(int64_t)r.r(0,40); if(r.p(is(P,"C12")?300:60)) c.annDecline=r.pick({300,700,1000});
  if(big&&c.annLen<0) c.annLen=r.p(150)?-1:r.r(0,2000);
  if(r.p(is(P,"C17")?300:60)&&!quiet) c.pRejectP=r.pick({100,400}); if(r.p(is(P,"C09")?300:60)&&!quiet) c.pRejectS=r.pick({100,400});
  if(r.p(is(P,"C08")?950:is(P,"C19,C04")?250:100)){ c.thrS=r.pick({1,2,3,5,10,30}); c.thrR=r.pick({0,1,(int64_t)c.thrS/2,(int64_t)c.thrS-1,(int64_t)c.thrS}); if(c.thrR>c.thrS) c.thrR=c.thrS; }
  c.maxSubs=r.p(150)?r.r(1,c.nSub):8; c.maxPubs=r.p(150)?r.r(1,c.nPub):8; if(is(P,"C11")&&r.p(300)){ c.maxSubs=r.r(1,2); c.maxPubs=r.r(1,2); } if(big){ c.maxSubs=std::min<int64_t>(c.maxSubs,4); c.maxPubs=std::min<int64_t>(c.maxPubs,3); }
  c.dispatch=r.pick({0,0,1,2,3}); if(c.dispatch==1) c.cbmask|=64; c.keep=is(P,"C05,C11")?(r.p(200)?r.pick({100,500}):0):(r.p(50)?200:0);
  c.loopCost=r.pick({20,50,200}); c.evPerLoop=r.pick({64,64,1,3}); c.clkMode=r.pick({0,1,2}); c.shareHost=r.pick({0,0,0,1,2}); c.ephemeral=r.p(200); c.anyListen=r.p(300); c.zeroId=r.p(120); c.subFirst=r.p(500); c.startSpread=r.p(300)?MS(r.r(1,400)):0; c.teardown=r.r(0,4); c.mcastIf=r.p(250); c.stray=r.p(120); if(r.p(is(P,"C22")?500:100)&&c.nPub+c.nSub>2) c.grpMode=r.r(1,2); if(r.p(is(P,"C22")?250:60)) c.selfId=1; c.fdBase=r.pick({3,-1,0,1000}); c.ipMode=r.p(300); c.eager=r.p(200); if(is(P,"C22")) c.mcastIf=r.p(600); if(!quiet) c.pRxBad=r.pick({0,0,0,20,100}); c.reent=r.p(300)?r.r(1,255):0; c.logLevel=r.p(80)?r.pick({2,4,6,6}):0; if(c.reent&1) c.cbmask|=4; c.preQueue=r.p(is(P,"C18,C19,C20,C11")?250:60)?r.r(1,4):0;
  int64_t active=MS(r.pick({400,800,1200,2000})); c.healAt=active+MS(200); c.settle=MS(4500);
  int nops=0; auto add=[&](Us t,int k,int64_t a=0,int64_t b=0,int64_t cc=0,int64_t d=0){ s.ops.push_back(Op{t,k,a,b,cc,d}); nops++; };
  bool rogueOk=true;
  if(r.p(100)&&!is(P,"C15,C07,C16")){ c.tiny=1; c.nPub=1; rogueOk=false; }
  if(r.p(is(P,"C03,C13")?300:70)){ c.contGap=r.pick({3000,8000,20000,60000}); c.contLen=r.r(8,200); c.thrS=0; if(big) c.contLen=r.r(8,4000); }
  // traffic
  int nq=r.r(2,big?5:10); for(int i=0;i<nq;i++){ int64_t kind=-(int64_t)(1+r.u()%100000); int64_t cnt=r.pick({1,2,5,10,20,40}); if(big) cnt=r.pick({1,2,4,8}); if(is(P,"C02,C20")&&r.p(400)) kind=-(int64_t)(5*(r.u()%1000)+2); if(c.tiny&&r.p(400)) kind=r.r(0,9); add(MS(r.r(30,active/1000)),O_QUEUE,r.r(0,2),cnt,kind,r.pick({0,0,100,1000,5000})); }
  for(int i=0;i<r.r(1,3);i++) add(c.healAt+MS(r.r(1,900)),O_QUEUE,r.r(0,2),r.r(1,big?3:12),-(int64_t)(1+r.u()%1000),r.pick({0,1000,5000}));
  // control messages
  int nc=is(P,"C06")?r.r(3,14):r.p(450)?r.r(1,5):0; if(!(c.cbmask&4)&&!is(P,"C06")) nc=r.p(300)?nc:0; for(int i=0;i<nc;i++){ int64_t len=r.pick({1,3,20,100,(int64_t)r.r(1,sim_max_payload),(int64_t)sim_max_payload,(int64_t)sim_max_packet-8,(int64_t)r.r(1,sim_max_packet-8)}); if(big&&r.p(700)) len=r.r(1,3000); add(MS(r.r(60,active/1000+300)),O_CTRL,r.r(0,3),r.r(0,2),len,(int64_t)(r.u()&0xFFFFFFF)); }
  if(!quiet){
    struct W_{ int k; int w; }; std::vector<W_> ws={{O_STALL,10},{O_PART,8},{O_RST,8},{O_PCLOSE,6},{O_SCLOSE,6},{O_CRASH,6},{O_GRACE,4},{O_REACT,4},{O_GARB,4},{O_ROGUEC,2},{O_ROGUEP,2},{O_ANNINT,3},{O_THR,1},{O_BADCALL,5},{O_USERANN,2},{O_UDPBLOCK,4},{O_TTL,1},{O_UDATA,2}};
    auto boost=[&](int k,int w){ for(auto&x:ws) if(x.k==k) x.w=w; };
    if(is(P,"C16")){ boost(O_CRASH,20); boost(O_GRACE,15); boost(O_REACT,15); boost(O_RST,15); } if(is(P,"C07")){ boost(O_STALL,30); boost(O_ROGUEC,15); boost(O_ROGUEP,12); boost(O_PART,15); } if(is(P,"C15")){ boost(O_GARB,40); boost(O_ROGUEC,30); boost(O_ROGUEP,30); } if(is(P,"C12")){ boost(O_ANNINT,25); boost(O_USERANN,20); boost(O_GARB,1); }
    if(is(P,"C08")){ boost(O_THR,25); boost(O_STALL,20); boost(O_RST,12); boost(O_PCLOSE,10); } if(is(P,"C20")) boost(O_BADCALL,60); if(is(P,"C17")){ boost(O_PCLOSE,20); boost(O_RST,20); boost(O_ROGUEC,8); } if(is(P,"C05")){ boost(O_SCLOSE,20); boost(O_REACT,15); boost(O_GRACE,15); } if(is(P,"C04")){ boost(O_USERANN,10); boost(O_PCLOSE,12); boost(O_REACT,10); boost(O_GRACE,10);} if(is(P,"C18")) boost(O_UDPBLOCK,25); if(is(P,"C22")){ boost(O_TTL,15); boost(O_REACT,12); boost(O_GRACE,10); boost(O_UDATA,8); } if(is(P,"C11")){ boost(O_REACT,15); boost(O_GRACE,12); boost(O_ROGUEC,8); boost(O_SCLOSE,12); boost(O_PCLOSE,12); } if(is(P,"C10")){ boost(O_UDATA,8); boost(O_REACT,12); boost(O_GRACE,10); boost(O_UDPBLOCK,12); } if(is(P,"C14,C01,C02")){ boost(O_RST,12); boost(O_CRASH,10); }
    if(!rogueOk||c.tiny){ boost(O_ROGUEC,0); boost(O_ROGUEP,0); boost(O_GARB,0); boost(O_CRASH,0); boost(O_GRACE,0); boost(O_USERANN,0); }
    int tot=0; for(auto&x:ws) tot+=x.w; int n=r.pick({0,1,2,4,8,14}); if(is(P,"C15,C20,C16,C12")&&n<3) n=r.r(3,8); int nr=0;
    for(int i=0;i<n;i++){ int z=r.r(0,tot-1),k=0; for(auto&x:ws){ if(z<x.w){ k=x.k; break; } z-=x.w; } Us t=MS(r.r(20,active/1000))+r.r(0,999); int any=r.r(0,c.nPub+c.nSub-1);
      switch(k){ case O_STALL: add(t,k,any,MS(r.pick({5,30,60,120,300,800}))); break; case O_PART: add(t,k,r.r(0,5),r.r(0,6),MS(r.pick({5,60,200,500}))); break; case O_RST: add(t,k,r.r(0,20)); break; case O_PCLOSE: case O_SCLOSE: add(t,k,r.r(0,3),r.r(0,5)); break; case O_CRASH: add(t,k,any,MS(r.pick({100,150,300,600}))); break; case O_GRACE: add(t,k,any,MS(r.pick({1,50,300})),r.r(0,1)); break; case O_REACT: add(t,k,any,MS(r.pick({0,1,50,200}))); break;
        case O_GARB: add(t,k,0,r.r(0,12),r.u()%100000,r.u()%1000); break; case O_ROGUEC: if(nr++<4) add(t,k,r.r(0,2),r.r(0,10),r.u()%100000,r.pick({1,1,1,3,7})); break; case O_ROGUEP: if(nr++<3) add(t,k,0,r.r(0,8),r.u()%100000); break; case O_ANNINT: add(t,k,r.r(0,2),r.pick({0,5000,30000,100000,400000,0,5000,30000,100000,3000000000LL,4294967295LL,2000000000LL})); break; case O_THR: { int64_t S=r.pick({0,1,2,4,10,25}); add(t,k,r.r(0,2),S,S?r.r(0,S):0); break; }
        case O_BADCALL: add(t,k,any,r.r(0,18),r.u()%100000); break; case O_USERANN: add(t,k,r.r(0,2),r.r(0,60)); break; case O_UDPBLOCK: add(t,k,r.r(0,2),MS(r.pick({1,10,60,200}))); break; case O_UDATA: add(t,k,any,r.r(0,3)); break; case O_TTL: add(t,k,r.r(0,2),r.r(1,30)); break; default: break; } }
    if(is(P,"C07")&&r.p(350)) c.stuck=r.r(1,8); 
  }
  if(c.tiny) c.annLen=r.r(0,9);
  { Rng z(H(seed,0xE872)); // rarer shapes, drawn from a generator of their own
    if(z.p(100)) for(auto&o:s.ops) if(o.k==O_CTRL&&z.p(700)) o.c=256*z.r(1,std::max<int64_t>(1,std::min<int64_t>(4,(sim_max_packet-8)/256))); else if(o.k==O_QUEUE&&sim_max_payload>=256&&z.p(200)) o.c=256*z.r(1,std::max<int64_t>(1,std::min<int64_t>(big?30:4,sim_max_payload/256)));
    if(z.p(450)){ int64_t b=z.pick({256,32768,65536,16777216,2147483648LL,4294967296LL,4294967296LL,4294967296LL,281474976710656LL,9007199254740992LL,4611686018427387904LL}); c.pid0=std::max<int64_t>(1,b-(z.p(150)?0:z.r(0,z.pick({8,30,120})))); }
    if(z.p(P=="C10"?60:25)&&c.driver!=2) { c.nullPoll=z.r(1,3); c.evPerLoop=1000; }
    if(!quiet&&z.p(is(P,"C12,C13")?250:80)){ int k=z.r(1,2); for(int i=0;i<k;i++) add(MS(z.r(30,active/1000)),O_JUMP,std::max<int64_t>(1000,z.pick({10000000,60000000,2147483648LL,4294967296LL,3600000000LL,4294967296000LL,2147483648000LL,86400000000LL})+z.pick({0,z.r(-200000,200000),z.r(-20000000,20000000)}))); }
    if(z.p(is(P,"C12,C09,C01")?150:40)){ int k=z.r(1,5); for(int i=0;i<k;i++) add(MS(z.r(20,active/1000+300)),O_CBSET,z.r(0,c.nPub+c.nSub-1),z.r(0,127)); }
    if(!big&&rogueOk&&!c.tiny&&z.u()%(is(P,"C11,C17,C09")?120:400)==0){ c.loopCost=20; c.evPerLoop=1000; if(z.p(600)){ c.maxSubs=300; add(MS(z.r(1,40)),O_ROGUEC,0,z.pick({0,6,7}),z.r(0,99999),z.r(256,290)); } else { c.maxPubs=300; add(MS(z.r(1,40)),O_ROGUEP,0,0,z.r(0,99999),z.r(256,290)); } if(!c.startSpread) c.startSpread=MS(300); }
    else if(!big&&!c.tiny&&z.u()%(is(P,"C01,C14,C18,C03")?250:700)==0){ c.bulk=65536-z.r(3,150); c.nPub=1; c.nSub=z.r(1,2); c.thrS=0; c.preQueue=0; c.contGap=z.pick({2000,3000,5000}); c.contLen=z.r(8,60); for(auto&o:s.ops) o.t+=MS(450); c.healAt+=MS(450); c.grpMode=0; s.ops.erase(std::remove_if(s.ops.begin(),s.ops.end(),[](const Op&o){ return o.k==O_ROGUEC||o.k==O_REACT||o.k==O_GRACE||o.k==O_CRASH||o.k==O_JUMP; }),s.ops.end()); } }
  c.lib=H(seed,0x11B)&1;
  if(is(P,"C23,C24")&&!P.empty()){ Rng z(H(seed,0x9A12)); c.pair=P=="C23"?1:2; c.logLevel=0;
    if(c.pair==1){ c.clkMode=0; c.bLevel=z.r(-1,6); c.envLevel=z.p(400)?z.r(99,108):0; c.bColor=z.r(0,2); c.bBuf=z.pick({0,0,1,64,4096}); c.bFail=z.pick({0,0,0,100,1000}); c.bStart=z.p(500); c.bTarget=z.p(250); int k=z.p(600)?z.r(1,6):0; for(int i=0;i<k;i++){ int a=z.r(0,3); add(MS(z.r(1,active/1000+600)),O_LOG,a,a==0?z.r(-1,7):a==2?z.r(0,2):0); } }
    else { c.bFill=z.pick({0,0xFF,0x01,0x5A,0x80}); c.bHeap=z.pick({0,1,7,40}); c.bFd=z.pick({0,-1,-1,3,100,1000}); if(!c.zeroId) c.bClk=z.pick({0,1,999,1000000,3600000000LL,4294967296LL,86400000000LL*400}); c.bPrior=z.p(600)?z.r(1,4):0; } }
  std::stable_sort(s.ops.begin(),s.ops.end(),[](const Op&a,const Op&b){ return a.t<b.t; }); return s; }
std::string dumpScenario(const Scenario& s){ std::ostringstream o; o<<"rmcsim 1\nproperty "<<s.prop<<"\nvariant "<<sim_max_packet<<"\nseed "<<s.seed<<"\n";
#define X(a,b) o<<"cfg " #a " "<<s.cfg.a<<"\n";
CFGS(X)
#undef X
  for(auto&p:s.ops) o<<"op "<<p.t<<" "<<opName[p.k]<<" "<<p.a<<" "<<p.b<<" "<<p.c<<" "<<p.d<<"\n"; for(uint32_t f:s.fired) o<<"fault "<<siteName[f>>24]<<" "<<(f&0xFFFFFF)<<"\n"; return o.str(); }
bool loadScenario(const std::string& txt,Scenario& s){ std::istringstream in(txt); std::string l; s.replay=true; bool ok=false; while(std::getline(in,l)){ std::istringstream x(l); std::string k; x>>k; if(k=="rmcsim") ok=true; else if(k=="property") x>>s.prop; else if(k=="seed") x>>s.seed; else if(k=="cfg"){ std::string a; int64_t v; x>>a>>v;
#define X(n,b) if(a==#n) s.cfg.n=v;
CFGS(X)
#undef X
    } else if(k=="op"){ Op p; std::string nme; x>>p.t>>nme>>p.a>>p.b>>p.c>>p.d; p.k=-1; for(int i=0;i<O_NOPS;i++) if(nme==opName[i]) p.k=i; if(p.k>=0) s.ops.push_back(p); } else if(k=="fault"){ std::string nme; uint32_t n; x>>nme>>n; for(int i=0;i<F_NSITES;i++) if(nme==siteName[i]) s.fired.insert(((uint32_t)i<<24)|n); } } return ok; }
