#!/usr/bin/env python3
"""Build the simulator from /repo's working tree into /verif/build/<hash>; prints the directory."""
import hashlib,os,subprocess,sys,glob,shutil,concurrent.futures as cf,fcntl,time
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); REPO=os.environ.get("RMC_REPO","/repo")
SRC="pub time sub circular_buffer rmc_connection rmc_protocol rmc_sub_packet rmc_pub_packet rmc_sub_context rmc_pub_context rmc_sub_read rmc_pub_read rmc_sub_write rmc_pub_write rmc_pub_timeout rmc_sub_timeout rmc_log".split()
VARIANTS={"small":600,"tiny":256,"native":0}
SYMS="socket setsockopt getsockopt bind listen getsockname getpeername accept accept4 connect fcntl ioctl shutdown close read readv recv recvfrom recvmsg write writev send sendto sendmsg clock_gettime gettimeofday time usleep nanosleep sleep rand random rand_r signal sigaction malloc calloc realloc reallocarray strdup strndup aligned_alloc posix_memalign memalign asprintf vasprintf free exit abort __assert_fail perror vfprintf getenv isatty".split()
# Every program holds the library twice, compiled differently: a library that uses something uninitialised, or depends on
# undefined behaviour, behaves differently in the two. Runs use one or the other; pairs of runs (C24) compare them.
COPIES={"A":{"small":"-O1 -ftrivial-auto-var-init=zero","tiny":"-O1 -ftrivial-auto-var-init=zero","native":"-O1"},
        "B":{"small":"-O2 -ftrivial-auto-var-init=pattern","tiny":"-O2 -ftrivial-auto-var-init=pattern","native":"-O2 -ftrivial-auto-var-init=zero"}}
CF="-g -fno-omit-frame-pointer -fsanitize=address -fno-builtin-malloc -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fpic -D_GNU_SOURCE -DRMC_SIM -w".split()+["-include",HERE+"/hook.h"]
HF="-std=c++17 -O2 -g1 -Wno-misleading-indentation".split()
HS=["kernel","oracle","app","gen","pair","main"]
def sources():
    # what the library is made of: the repository's own list, plus files a change may have added
    s=list(SRC); skip=("_test","rmc_test","proto_test","wireshark")
    for f in sorted(glob.glob(REPO+"/*.c")):
        b=os.path.basename(f)[:-2]
        if b not in s and not any(k in b for k in skip) and os.path.basename(f) not in ("list_test.c",): s.append(b)
    return [b for b in s if os.path.exists(f"{REPO}/{b}.c")]
def run(c):
    r=subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise RuntimeError(" ".join(c)+"\n"+r.stdout)
def nm(opt,files):
    r=subprocess.run(["nm","-g",opt,"-f","posix"]+files,stdout=subprocess.PIPE,text=True,check=True); return sorted({l.split()[0] for l in r.stdout.splitlines() if l and not l.endswith(":")})
def digest():
    h=hashlib.sha256()
    for f in sorted(glob.glob(REPO+"/*.[ch]"))+sorted(glob.glob(HERE+"/*")):
        if os.path.isfile(f) and not f.endswith(".pyc"): h.update(f.encode()); h.update(open(f,"rb").read())
    return h.hexdigest()[:20]
def hdigest():
    h=hashlib.sha256()
    for f in sorted(glob.glob(HERE+"/*.[ch]pp"))+[HERE+"/build.py",REPO+"/reliable_multicast.h",REPO+"/rmc_list.h"]: h.update(open(f,"rb").read())
    return h.hexdigest()[:20]
def build(variants=("small","tiny","native")):
    bd=os.environ.get("RMC_BUILD",VERIF+"/build"); os.makedirs(bd,exist_ok=True)
    lock=open(bd+"/.lock","w"); fcntl.flock(lock,fcntl.LOCK_EX)
    d=f"{bd}/{digest()}"; want=[v for v in variants if not os.path.exists(f"{d}/rmcsim-{v}")]
    if not want:
        os.utime(d); return d
    os.makedirs(d,exist_ok=True); hd=f"{bd}/h-{hdigest()}"
    olds=sorted((x for x in glob.glob(bd+"/*") if os.path.isdir(x) and x not in (d,hd)),key=os.path.getmtime)
    for x in olds[:-6]: shutil.rmtree(x,ignore_errors=True)
    os.makedirs(hd,exist_ok=True)
    srcs=sources(); jobs=[]
    for h in HS:
        if not os.path.exists(f"{hd}/{h}.o"): jobs.append(["sh","-c",f"g++ {' '.join(HF)} -I{REPO} -c {HERE}/{h}.cpp -o {hd}/{h}.o.tmp && mv {hd}/{h}.o.tmp {hd}/{h}.o"])
    for v in want:
        sz=VARIANTS[v]; fl=CF+([f"-DRMC_SIM_MAX_PACKET={sz}"] if sz else [])
        for k in COPIES:
            for b in srcs: jobs.append(["sh","-c",f"gcc {COPIES[k][v]} {' '.join(fl)} -I{REPO} -c {REPO}/{b}.c -o {d}/{v}-{k}-{b}.o"])
        jobs.append(["gcc","-O1"]+fl+[f"-I{REPO}","-c",HERE+"/limits.c","-o",f"{d}/{v}-limits.o"])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(run,jobs))
    used=set(nm("-u",[f"{hd}/{h}.o" for h in HS]))
    def link(v):
        for k in COPIES:
            l=f"{d}/{v}-lib{k}.o"; run(["ld","-r","-o",l]+[f"{d}/{v}-{k}-{b}.o" for b in srcs]); names=nm("--defined-only",[l])
            open(l+".syms","w").write("".join(f"{s} sim_{s}\n" for s in SYMS)+"".join(f"{s} {k}__{s}\n" for s in names))
            run(["objcopy","--rename-section",f".init_array=sim_ctors{k}","--redefine-syms="+l+".syms",l])
        open(f"{d}/{v}-jump.s","w").write(".text\n"+"".join(f".globl {s}\n.type {s},@function\n{s}: cmpl $0,sim_lib(%rip)\n jne B__{s}\n jmp A__{s}\n" for s in names if s in used)+'.section .note.GNU-stack,"",@progbits\n')
        run(["gcc","-c",f"{d}/{v}-jump.s","-o",f"{d}/{v}-jump.o"])
        o=f"{d}/rmcsim-{v}"; run(["g++","-fsanitize=address","-o",o+".tmp"]+[f"{hd}/{h}.o" for h in HS]+[f"{d}/{v}-{x}.o" for x in ("libA","libB","jump","limits")]); os.rename(o+".tmp",o)
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(link,want))
    for f in glob.glob(d+"/*.o")+glob.glob(d+"/*.s")+glob.glob(d+"/*.syms"): os.unlink(f)
    return d
if __name__=="__main__":
    t=time.time()
    try: print(build(sys.argv[1:] or ("small","tiny","native")))
    except RuntimeError as e: print(e); sys.exit(2)
    print("%.1fs"%(time.time()-t),file=sys.stderr)
