#!/usr/bin/env python3
"""Decide one property by deterministic simulation.
  check.py PROP [--tier quick|thorough] [--seed N] [--runs-scale X]
  check.py replay FILE [--trace]
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: the check itself failed."""
import sys,os,subprocess,json,time,collections,re,tempfile,shutil
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V+"/sim"); sys.dont_write_bytecode=True
import build
KF={"JOINLATE":0,"JOINGAP":1,"SPLICE":2,"KEEPLEAK":3}
# variant: share of the runs (packet size of the build: small 600, tiny 256, native 65400)
SHARE={"small":0.5,"tiny":0.25,"native":0.25}
RUNS={"quick":40000,"thorough":1500000}; CAP={"quick":60.0,"thorough":780.0}
def known_list():
    out=[]
    for l in open(V+"/known_findings.txt"):
        m=re.match(r"known: property=(\S+) id=(\S+) (.*)",l)
        if m: out.append((m.group(1),m.group(2),m.group(3)))
    return out
def mask():
    m=0
    for _,i,_ in known_list(): m|=1<<KF[i]
    return m
def sim(d,v,*a,timeout=None):
    return subprocess.run([f"{d}/rmcsim-{v}"]+[str(x) for x in a]+["--known",str(mask())],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=timeout)
def replay(path,trace):
    t=open(path).read(); size=int(re.search(r"^variant (\d+)",t,re.M).group(1)); v={600:"small",256:"tiny"}.get(size,"native")
    d=build.build((v,)); r=sim(d,v,"--mode","replay","--file",path,*(["--trace","1"] if trace else [])); sys.stdout.write(r.stdout); return r.returncode
def main():
    a=sys.argv[1:]
    if a and a[0]=="replay": sys.exit(replay(a[1],"--trace" in a))
    prop=a[0]; opt={a[i]:a[i+1] for i in range(1,len(a)-1,2)}
    tier=opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"; seed=int(opt.get("--seed") or os.environ.get("VERIF_SEED") or 1); t0=time.time()
    scale=float(opt.get("--runs-scale",1))
    os.makedirs(V+"/evidence",exist_ok=True); os.makedirs(V+"/replays",exist_ok=True)
    try: d=build.build()
    except RuntimeError as e: print("BUILD FAILED\n"+str(e)[-4000:]); sys.exit(2)
    tb=time.time()-t0
    W=os.cpu_count() or 4; ps=[]; base=seed*1000003+int(prop[1:])
    # every worker walks its own residue class of the seed indices of each variant in turn
    N={v:max(8,int(RUNS[tier]*scale*s)) for v,s in SHARE.items()}; cap=CAP[tier]
    import threading
    lines=[]; lock=threading.Lock(); stop=threading.Event(); errs=[]; tmp=tempfile.mkdtemp(prefix="rmcsim"); stopf=tmp+"/stop"
    def worker(w):
        for v in (["small","tiny","native"] if w%2==0 else ["native","tiny","small"]):
            if stop.is_set(): return
            left=cap-(time.time()-t0-tb); share=SHARE[v]
            if left<=0: return
            r=sim(d,v,"--mode","batch","--prop",prop,"--seed",base,"--n",N[v],"--from",w,"--step",W,"--budget",max(1.0,min(left,cap*share*1.3)),"--stop",stopf)
            with lock:
                if r.returncode!=0: errs.append((v,w,r.returncode,r.stdout[-500:]))
                for l in r.stdout.splitlines():
                    lines.append((v,l))
                    if l.startswith("V "): stop.set(); open(stopf,"w").close()
    th=[threading.Thread(target=worker,args=(w,)) for w in range(W)]
    for t in th: t.start()
    for t in th: t.join()
    shutil.rmtree(tmp,ignore_errors=True)
    wall=time.time()-t0-tb
    tot=collections.Counter(); faults=collections.Counter(); fdesc={}; probes=collections.Counter(); kn=collections.Counter(); kd={}; hashes=set(); samples=[]; viols=[]; runs=collections.Counter(); nontriv=0
    for v,l in lines:
        p=l.split(" ")
        if p[0]=="T": tot[p[1]]+=int(p[2]); runs[v]+=int(p[2]) if p[1]=="runs" else 0
        elif p[0]=="F": faults[p[1]]+=int(p[2]); fdesc[p[1]]=" ".join(p[3:])
        elif p[0]=="P": probes[p[1]]+=int(p[2])
        elif p[0]=="K": kn[int(p[1])]+=int(p[2]); kd.setdefault(int(p[1]),v+": "+" ".join(p[3:]))
        elif p[0]=="R":
            if int(p[5])>=200: hashes.add(p[3])
            if len(samples)<3 or (len(samples)<6 and v not in [s["variant"] for s in samples]): samples.append({"variant":v,"index":int(p[1]),"seed":int(p[2]),"history_hash":p[3],"simulated_us":int(p[4]),"events":int(p[5])})
        elif p[0]=="V": viols.append((["small","tiny","native"].index(v),int(p[1]),v,int(p[2])," ".join(p[3:])))
    vio=None
    for _,i,v,s,what in sorted(viols)[:6]:
        # gate: the seed must fail identically twice, the minimised replay file must fail in a fresh process
        r1=sim(d,v,"--mode","one","--prop",prop,"--seed",s); r2=sim(d,v,"--mode","one","--prop",prop,"--seed",s)
        if r1.returncode!=1 or r1.stdout.split("\n")[0]!=r2.stdout.split("\n")[0]: errs.append((v,i,"not repeatable",r1.stdout[:300])); continue
        f=f"{V}/replays/{prop}-{v}-{s}.replay"
        r=sim(d,v,"--mode","shrink","--prop",prop,"--seed",s,"--budget",25 if tier=="quick" else 90,"--out",f)
        if r.returncode!=0: errs.append((v,i,"shrink",r.stdout[:300])); continue
        q=sim(d,v,"--mode","replay","--file",f); q2=sim(d,v,"--mode","replay","--file",f); exp=re.search(r"expected hash (\S+)",open(f).read()).group(1)
        if q.returncode!=1 or q.stdout.split("\n")[0]!=q2.stdout.split("\n")[0] or exp not in q.stdout: errs.append((v,i,"replay",q.stdout[:300])); continue
        vio=(f,v,s,json.loads(r.stdout.splitlines()[-1]) if r.stdout.strip().startswith("{") else {},q.stdout.strip().split("\n")[0]); break
    out={"property":prop,"tier":tier,"seed":seed,"level":"exploration","wall_s":round(time.time()-t0,2),"violations":1 if vio else 0,
     "coverage":{"evaluations":tot["runs"],"distinct_nontrivial":len(hashes),
      "rule":"one evaluation is one whole simulated system run, generated from one seed (topology, configuration, workload, event-loop behaviour, schedule and fault plan). It counts as distinct and non-trivial if it executed at least 200 simulated events and its history hash (order and content of all datagrams, stream segments, API results and callbacks) differs from that of every other run of this check.",
      "samples":samples,"runs_per_build":{v:runs[v] for v in runs},"simulated_seconds":round(tot["simt"]/1e6,1),"events":tot["events"],"library_calls":tot["api"],
      "seeds_per_hour":int(tot["runs"]/max(wall,0.01)*3600),"simulated_to_real_time":round(tot["simt"]/1e6/max(wall,0.01),1),
      "faults_injected":{k:{"count":faults[k],"what":fdesc[k]} for k in sorted(faults)},"probes":dict(sorted(probes.items())),"probes_never_hit":sorted(k for k in probes if not probes[k]),
      "known_findings_seen":{k:kn[i] for k,i in KF.items() if kn[i]},"workers":W,"build_s":round(tb,2),
      "real_code":"all library sources of /repo (publisher, subscriber, connections, buffers, lists, protocol, log), compiled with AddressSanitizer","stubs":"sockets, TCP and UDP/multicast network, clock, random numbers, allocator, signal and exit (simulated kernel); the application's event loop (modelled on reliable_multicast.h's contract)"},
     "assumptions":["one thread per context; the application follows the documented event loop","the simulated TCP keeps order and loses nothing short of a reset; the simulated UDP may lose, duplicate, delay and reorder datagrams","sampling, not enumeration: seeds %d..., fixed run count with a time cap"%base]}
    if vio: out["coverage"]["violation"]={"variant":vio[1],"seed":vio[2],"replay":vio[0],"shrink":vio[3],"what":vio[4]}
    if errs: out["coverage"]["errors"]=[str(e) for e in errs][:5]
    json.dump(out,open(f"{V}/evidence/{prop}.json","w"),indent=1)
    print(f"{prop} {tier}: {tot['runs']} runs ({len(hashes)} distinct), {tot['simt']/1e6:.0f} simulated s, {tot['events']} events, {sum(faults.values())} faults, {wall:.1f} s")
    for p,i,txt in known_list():
        if p==prop: print(f"KNOWN-FINDING: property={p} {txt}"+(f" [seen {kn[KF[i]]} times, e.g. {kd[KF[i]]}]" if kn[KF[i]] else " [not met in this run]"))
    if vio:
        print(vio[4]); print(f"VIOLATION property={prop} replay={vio[0]}"); sys.exit(1)
    if errs: print("CHECK ERROR",errs[:3]); sys.exit(2)
    if not tot["runs"]: print("CHECK ERROR: no runs"); sys.exit(2)
    sys.exit(0)
main()
