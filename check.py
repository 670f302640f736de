#!/usr/bin/env python3
"""check.py <ID> [--thorough] [--only SCENARIO] [--replay FILE] [--build-only]

Builds the library from /repo's current working tree together with checks/<ID>.cpp and the explorer
(mc/), runs the exploration, and passes on its verdict: exit 0, or exit 1 and a VIOLATION line.

A check source may carry directives in its first lines:
   // mc: flags <extra compile flags for library and harness>
   // mc: libflags <extra compile flags for the library only>
   // mc: link <extra link flags>
   // mc: extra <further sources under /verif/mc, compiled with the harness>
   // mc: nosan            (do not use AddressSanitizer)
   // mc: tsan <files>     (library sources, or ALL, compiled with access instrumentation for mc/sched.cpp; implies nosan)
   // mc: workers <n>      (default 8)
"""
import concurrent.futures, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++-18"
SKIP = {"URI.cpp"}          # not part of the library (Makefile)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        sys.stdout.write("BUILD-ERROR: %s\n" % " ".join(cmd)[-300:])
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        sys.exit(2)
    return r


def compile_to(out, cmd):
    if os.path.exists(out):
        return out
    tmp = "%s.%d.tmp" % (out, os.getpid())
    run(cmd + ["-o", tmp])
    os.rename(tmp, out)
    return out


def directives(text):
    d = {"flags": [], "libflags": [], "link": [], "extra": [], "tsan": [], "workers": 8, "nosan": False}
    for l in text.splitlines()[:40]:
        m = re.match(r"//\s*mc:\s*(\w+)\s*(.*)", l)
        if not m:
            continue
        k, v = m.group(1), m.group(2).split()
        if k == "nosan":
            d["nosan"] = True
        elif k == "workers":
            d["workers"] = int(v[0])
        else:
            d[k] += v
    if d["tsan"]:
        d["nosan"] = True
    return d


def zlib_include():
    d = os.path.join(BUILD, "inc", "zlib")
    os.makedirs(d, exist_ok=True)
    for n in ("zlib.h", "zconf.h"):
        p = os.path.join(d, n)
        if not os.path.exists(p):
            try:
                with open(p + ".%d" % os.getpid(), "w") as f:
                    f.write("#include </usr/include/%s>\n" % n)
                os.rename(p + ".%d" % os.getpid(), p)
            except OSError:
                pass
    return os.path.join(BUILD, "inc")


def build(cid):
    src = os.path.join(VERIF, "checks", cid + ".cpp")
    text = read(src).decode()
    d = directives(text)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = ["-I%s/include" % REPO, "-I%s/3rdparty" % REPO, "-I%s/prec" % REPO, "-I" + zlib_include()]
    base = ["-std=c++20", "-g1", "-O1", "-fno-omit-frame-pointer", "-Wno-everything", "-ftrivial-auto-var-init=pattern"]
    if not d["nosan"]:
        base += ["-fsanitize=address"]
    base += d["flags"]
    headers = []
    for root in ("include", "prec", "3rdparty"):
        for dp, _, fn in os.walk(os.path.join(REPO, root)):
            for f in sorted(fn):
                if f.endswith((".h", ".hpp")):
                    headers.append(os.path.join(dp, f))
    hh = sha(*[read(h) for h in sorted(headers)])
    mch = sha(*[read(os.path.join(VERIF, "mc", f)) for f in sorted(os.listdir(os.path.join(VERIF, "mc")))
                if f.endswith((".hpp", ".h"))] +
              [read(os.path.join(VERIF, "checks", f)) for f in sorted(os.listdir(os.path.join(VERIF, "checks")))
               if f.endswith(".hpp")])
    obj = lambda key: os.path.join(BUILD, "obj", key)

    lf = base + d["libflags"]
    # the precompiled header carries no instrumentation, but must match the other flags
    pch_src = os.path.join(REPO, "prec", "PrecompiledCore.hpp")

    def pch(flags):
        return compile_to(obj(sha("pch2", hh, *flags)) + ".pch",
                          [CXX] + flags + inc + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header", pch_src])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        p1 = ex.submit(pch, lf)
        p2 = ex.submit(pch, base) if base != lf else p1
        # the explorer does not include library headers
        mcsrc = os.path.join(VERIF, "mc", "mc.cpp")
        jobs = [ex.submit(compile_to, obj(sha("mc", read(mcsrc), mch)) + ".o",
                          [CXX, "-std=c++20", "-O2", "-g1", "-c", mcsrc, "-I" + os.path.join(VERIF, "mc")])]
        tf = lf + ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"]
        everything = "ALL" in d["tsan"]
        p3 = ex.submit(pch, tf) if everything else None
        lp, hp, tp = p1.result(), p2.result(), p3.result() if p3 else None
        hflags = base + inc + ["-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "checks")]
        jobs.append(ex.submit(compile_to, obj(sha("h", read(src), hh, mch, *hflags)) + ".o",
                              [CXX] + hflags + ["-include-pch", hp, "-c", src]))
        for e in d["extra"]:
            es = os.path.join(VERIF, "mc", e)
            # extras are never instrumented and do not see the precompiled header
            jobs.append(ex.submit(compile_to, obj(sha("x", read(es), hh, mch)) + ".o",
                                  [CXX, "-std=c++20", "-O1", "-g1", "-c", es, "-I" + os.path.join(VERIF, "mc")]))
        cdir = os.path.join(REPO, "src", "core")

        def lib(out, cmd):
            o = compile_to(out, cmd)
            if not d["tsan"]:
                return o
            # static variables of the library in sections of their own, for sched::run() to reset
            r = o[:-2] + ".s.o"
            if not os.path.exists(r):
                tmp = "%s.%d.tmp" % (r, os.getpid())
                secs = set(re.findall(r"\s\.(?:bss|data)(?!\.rel)(?:\.\S+)?(?=\s)", run(["readelf", "-SW", o]).stdout.decode(errors="replace")))
                ren = []
                for x in sorted(y.strip() for y in secs):
                    ren += ["--rename-section", "%s=lib%s" % (x, x[1:].split(".")[0])]
                run(["objcopy"] + ren + [o, tmp])
                os.rename(tmp, r)
            return r
        for f in sorted(os.listdir(cdir)):
            if not f.endswith(".cpp") or f in SKIP:
                continue
            s = os.path.join(cdir, f)
            if everything or f in d["tsan"]:
                jobs.append(ex.submit(lib, obj(sha("t", f, read(s), hh, *tf)) + ".o",
                                      [CXX] + tf + inc + (["-include-pch", tp] if tp else ["-include", pch_src]) + ["-c", s]))
                continue
            jobs.append(ex.submit(lib, obj(sha("l", f, read(s), hh, *lf)) + ".o",
                                  [CXX] + lf + inc + ["-include-pch", lp, "-c", s]))
        try:
            objs = [j.result() for j in jobs]
        except SystemExit:
            ex.shutdown(wait=True, cancel_futures=True)
            raise
    out = os.path.join(BUILD, "bin", cid + "-" + sha(*objs, *d["link"], *base))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    san = [] if d["nosan"] else ["-fsanitize=address"]
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        run([CXX] + san + [f for f in d["flags"] if f.startswith("-fsanitize")] + objs +
            d["link"] + ["-pthread", "-ldl", "-Wl,--no-as-needed", "-lz", "-o", tmp])
        os.rename(tmp, out)
    return out, d


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        for t in (CXX,):
            if not shutil.which(t):
                print("missing tool: " + t)
                return 2
        for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
            if f.endswith(".cpp"):
                build(f[:-4])
        return 0
    cid = a[0]
    thorough = "--thorough" in a
    binary, d = build(cid)
    if "--build-only" in a:
        print(binary)
        return 0
    env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "LANG": "C",
           "TZ": "UTC", "HOME": "/nonexistent", "USER": "mc",
           "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
           "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:hard_rss_limit_mb=3000:quarantine_size_mb=16:"
                           "allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=0:"
                           "handle_abort=1:symbolize=1:alloc_dealloc_mismatch=1",
           "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77:print_stacktrace=1",
           "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18"}
    cmd = [binary, "--known", os.path.join(VERIF, "known_findings.txt"),
           "--replays", os.path.join(VERIF, "replays"), "--workers", str(d["workers"])]
    if thorough:
        cmd += ["--thorough", "--budget", os.environ.get("MC_BUDGET", "780")]
    else:
        cmd += ["--budget", os.environ.get("MC_BUDGET", "600")]
    if "--only" in a:
        cmd += ["--only", a[a.index("--only") + 1]]
        cmd += ["--evidence", "/dev/null"]
    elif "--replay" in a:
        cmd += ["--replay", os.path.abspath(a[a.index("--replay") + 1])]
    else:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cmd += ["--evidence", os.path.join(VERIF, "evidence", cid + ".json")]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    sys.stdout.flush()
    rc = subprocess.run(cmd, env=env, cwd="/tmp").returncode
    if rc in (77, -4, -5, -6, -7, -8, -11):
        # The library broke down outside of the explored executions: while its constants were made,
        # when it was initialised or when the program ended.
        path = os.path.join(VERIF, "replays", cid + "-process.txt")
        with open(path, "w") as f:
            f.write("The process of the check itself ended with %d. Run: python3 check.py %s\n" % (rc, " ".join(a)))
        print("the library broke down while the process started or ended (%d)" % rc)
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
