"""Builds the harnesses from the current working tree of /repo (all sources of src/app, found by globbing) with ninja."""
import os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

WRAPS = """close read write recv recvfrom send sendto sendmsg writev readv recvmsg socket connect bind listen accept accept4
shutdown setsockopt getsockopt fcntl fcntl64 epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait eventfd
eventfd_write eventfd_read timerfd_create timerfd_settime clock_gettime gettimeofday time nanosleep clock_nanosleep
usleep sleep pthread_create pthread_join pthread_setaffinity_np pthread_getaffinity_np rand srand poll
ioctl getsockname getpeername timerfd_gettime _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv
_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE _ZNSt6thread4joinEv""".split()

COMMON = "-std=c++20 -DEBUG -g -fno-omit-frame-pointer -U_FORTIFY_SOURCE -w -pthread"
CFG = {
    # real code on the simulated kernel, address sanitizer
    "sim": dict(repo=COMMON + " -O1 -fsanitize=address -ftrivial-auto-var-init=pattern", har=COMMON + " -O1 -fsanitize=address",
                link="-fsanitize=address -pthread " + " ".join("-Wl,--wrap=" + w for w in WRAPS + ["_ZN3app6Logger8dispatchEPKcNS_8LogLevelENS_7LogTaskES2_i"]), pick=None),
    # reactor layer only, every memory access is a call-back into the controlled scheduler (no tsan runtime is linked)
    "acc": dict(repo=COMMON + " -O1 -fsanitize=thread", har=COMMON + " -O1",
                link="-pthread " + " ".join("-Wl,--wrap=" + w for w in WRAPS + ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "memcpy", "memmove", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_spin_lock", "pthread_spin_unlock", "sched_yield"]),
                pick=("common/reactor/", "common/logger/", "common/utils/")),
}
# harness name -> (config, harness sources)
HARNESS = {
    "h_mbclient": ("sim", ["h_mbclient.cpp"]),
    "h_mbserver": ("sim", ["h_mbserver.cpp"]),
    "h_mbcodec": ("sim", ["h_mbcodec.cpp"]),
    "h_reactor": ("sim", ["h_reactor.cpp"]),
    "h_threads": ("acc", ["h_threads.cpp"]),
    "h_uacodec": ("sim", ["h_uacodec.cpp"] + ["h_uacodec%d.cpp" % k for k in range(1, 6)]),
    "h_ua": ("sim", ["h_ua.cpp"]),
    "h_uaconn": ("sim", ["h_uaconn.cpp"]),
    "h_life": ("sim", ["h_life.cpp"]),
}
LIB = {"sim": ["sim.cpp", "explore.cpp"], "acc": ["sched.cpp", "sim.cpp", "explore.cpp"]}


def sources():
    root = os.path.join(REPO, "src/app")
    src, inc = [], []
    for d, dn, fs in os.walk(root):
        dn.sort()
        rel = os.path.relpath(d, root)
        parts = rel.split(os.sep)
        if "ut" in parts or "mock" in parts or "tests" in parts:
            continue
        inc.append(d)
        for f in sorted(fs):
            if f.endswith(".cpp") and not (rel == "." and f == "main.cpp"):
                src.append(os.path.normpath(os.path.join(rel, f)))
    return root, src, inc


def generate(cfg, names):
    root, src, inc = sources()
    c = CFG[cfg]
    bd = os.path.join(BUILD, cfg)
    os.makedirs(bd, exist_ok=True)
    if c["pick"]:
        src = [s for s in src if s.startswith(c["pick"])]
    I = " ".join("-I" + i for i in inc)
    o = ["ninja_required_version = 1.5", "builddir = " + bd,
         "rule cc", "  command = g++ $flags $inc -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CC $in",
         "rule ar", "  command = rm -f $out && ar rcs $out @$out.rsp", "  rspfile = $out.rsp", "  rspfile_content = $in",
         "rule link", "  command = g++ -o $out $pre $in $libs $link"]
    objs = []
    for s in src:
        ob = os.path.join(bd, "repo", s[:-4] + ".o")
        objs.append(ob)
        o += ["build %s: cc %s" % (ob, os.path.join(root, s)), "  flags = " + c["repo"], "  inc = " + I]
    lib = os.path.join(bd, "librepo.a")
    o.append("build %s: ar %s" % (lib, " ".join(objs)))
    hobjs = {}

    def har(s):
        if s not in hobjs:
            ob = os.path.join(bd, "har", s[:-4] + ".o")
            o.extend(["build %s: cc %s" % (ob, os.path.join(VERIF, "harness", s)), "  flags = " + c["har"], "  inc = " + I + " -I" + os.path.join(VERIF, "harness")])
            hobjs[s] = ob
        return hobjs[s]
    for n, (hc, hs) in HARNESS.items():
        if hc != cfg or not all(os.path.exists(os.path.join(VERIF, "harness", x)) for x in hs):
            continue
        ob = [har(s) for s in hs + LIB[cfg]]
        o += ["build %s: link %s | %s" % (os.path.join(bd, n), " ".join(ob), lib), "  pre = -Wl,--whole-archive %s -Wl,--no-whole-archive" % lib if cfg == "acc" else "  libs = " + lib, "  link = " + c["link"]]
    text = "\n".join(o) + "\n"
    p = os.path.join(bd, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    return p


def build(names):
    """Returns {name: path}; raises RuntimeError with the compiler output when it does not build."""
    os.makedirs(BUILD, exist_ok=True)
    res = {}
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for cfg in sorted({HARNESS[n][0] for n in names}):
            nin = generate(cfg, names)
            tg = [os.path.join(BUILD, cfg, n) for n in names if HARNESS[n][0] == cfg]
            p = subprocess.run(["ninja", "-f", nin, "-j", str(os.cpu_count() or 8)] + tg, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise RuntimeError(p.stdout[-6000:])
            for n in names:
                if HARNESS[n][0] == cfg:
                    res[n] = os.path.join(BUILD, cfg, n)
    return res


if __name__ == "__main__":
    names = sys.argv[1:] or [n for n in HARNESS if all(os.path.exists(os.path.join(VERIF, "harness", x)) for x in HARNESS[n][1])]
    try:
        for k, v in build(names).items():
            print(k, v)
    except RuntimeError as e:
        print(e)
        sys.exit(1)
