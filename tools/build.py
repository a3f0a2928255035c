#!/usr/bin/env python3
"""Build the simulator binary from /repo's working tree and /verif's sources.

Objects are keyed by a hash of everything they depend on (source text, all
headers, flags), so an unchanged tree builds nothing and no timestamp is ever
trusted.  Output: /verif/build/simrun.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
OBJ = os.path.join(OUT, "obj")

INC = ["-include", "cassert", "-include", "cmath", "-include", "cstddef",
       "-include", "cstring", "-include", "limits"]
SAN = ["-fsanitize=address", "-DSIM_ASAN"]
COMMON = ["-O1", "-g1", "-DNDEBUG", "-w", "-fno-omit-frame-pointer"] + SAN
REPOFLAGS = ["-DEXSEISDAT_MPIIO_COLLECTIVES", "-DEXSEISDAT_SIMULATION",
             "-ftrivial-auto-var-init=pattern",
             "-I" + VERIF + "/sim", "-I" + REPO + "/include", "-I" + REPO + "/src"]
CXX, CC = "g++", "gcc"
WRAPS = ["exit", "_Exit", "glob", "globfree", "fopen", "fclose", "getopt", "atexit",
         "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit",
         "fftwf_plan_dft_r2c_1d", "fftwf_plan_dft_c2r_1d", "fftwf_plan_dft_1d"]

UTILS = {  # name -> sources
    "concatenate": ["concatenate.cc"],
    "segsort": ["sort.cc"],
    "fourdbin": ["fourdbin.cc", "4dio.cc", "4dcore.cc"],
    "filemake": ["filemake.cc"],
    "makerep": ["makerep.cc"],
    "minmax": ["minmax.cc"],
    "radon": ["radon.cc"],
    "assess": ["assess.cc"],
    "versort": ["verifysort.cc"],
    "segy2kml": ["segy2kml.cc"],
    "traceanalysis": ["traceanalysis.cc"],
}


def lib_sources():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"add_library\(\s*exseisdat(.*?)\)", txt, re.S)
    srcs = [s for s in m.group(1).split() if s.endswith((".cc", ".c", ".cpp"))]
    return [os.path.join(REPO, s) for s in srcs]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def headers(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".hh", ".h", ".hpp", ".inc")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def compile_one(job):
    src, flags, hdr = job["src"], job["flags"], job["hdr"]
    is_c = src.endswith(".c")
    cmd = [CC, "-std=gnu11"] if is_c else [CXX, "-std=" + job["std"]]
    key = digest(open(src, "rb").read(), src, " ".join(cmd + flags), hdr, str(job.get("post", "")))
    obj = os.path.join(OBJ, key + ".o")
    job["obj"] = obj
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp.o" % os.getpid()
    r = subprocess.run(cmd + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return "%s\n%s" % (" ".join(cmd + flags + ["-c", src]), r.stderr[-6000:])
    os.replace(tmp, obj)
    return None


def combine(name, objs, keep):
    """ld -r the objects of a utility and hide everything but its main."""
    key = digest(*objs, keep, name)
    out = os.path.join(OBJ, "u_" + key + ".o")
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp.o" % os.getpid()
    subprocess.run(["ld", "-r", "-o", tmp] + objs, check=True)
    syms = subprocess.run(["nm", "--defined-only", "-g", tmp], capture_output=True, text=True, check=True).stdout
    loc = []
    for line in syms.splitlines():
        p = line.split()
        if len(p) == 3 and p[1] in "TDBRSG" and p[2] != keep and not p[2].startswith("__asan"):
            loc += ["--localize-symbol=" + p[2]]
    with open(tmp + ".txt", "w") as f:
        f.write("\n".join(loc))
    subprocess.run(["objcopy", "@" + tmp + ".txt", tmp], check=True)
    os.unlink(tmp + ".txt")
    os.replace(tmp, out)
    return out


def build(verbose=False):
    os.makedirs(OBJ, exist_ok=True)
    hr = headers(REPO + "/include", REPO + "/src", REPO + "/util")
    hm = hashlib.sha256(open(VERIF + "/sim/mpi.h", "rb").read()).hexdigest()
    hs = headers(VERIF + "/sim", VERIF + "/drv")
    hf = hashlib.sha256(open(VERIF + "/sim/fstreams.hh", "rb").read()).hexdigest()
    jobs = []
    base = COMMON + INC + REPOFLAGS
    for s in lib_sources():
        jobs.append(dict(src=s, flags=base if s.endswith("cc") else COMMON + REPOFLAGS,
                         hdr=hr + hm, std="c++14", group="lib"))
    jobs.append(dict(src=REPO + "/util/sglobal.cc", flags=base, hdr=hr + hm, std="c++14", group="lib"))
    for u, srcs in UTILS.items():
        for s in srcs:
            jobs.append(dict(src=REPO + "/util/" + s,
                             flags=base + ["-Dmain=%s_main" % u, "-I" + REPO + "/util", "-fvisibility=default",
                                           "-include", VERIF + "/sim/fstreams.hh"],
                             hdr=hr + hm + hf, std="c++14", group="u:" + u))
    for s in sorted(os.listdir(VERIF + "/sim")):
        if s.endswith(".cc"):
            jobs.append(dict(src=VERIF + "/sim/" + s, flags=COMMON + ["-I" + VERIF + "/sim"],
                             hdr=headers(VERIF + "/sim"), std="c++17", group="drv"))
    for s in sorted(os.listdir(VERIF + "/drv")):
        if s.endswith((".cc", ".c")):
            fl = COMMON + (INC if s.endswith(".cc") else []) + REPOFLAGS + ["-I" + VERIF + "/drv"]
            jobs.append(dict(src=VERIF + "/drv/" + s, flags=fl, hdr=hr + hs, std="c++17", group="drv"))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j["src"]))
    errs = []
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for e in ex.map(compile_one, jobs):
            if e:
                errs.append(e)
    if errs:
        sys.stderr.write("\n".join(errs))
        raise SystemExit("build failed")
    objs = [j["obj"] for j in jobs if j["group"] in ("lib", "drv")]
    for u in UTILS:
        uo = [j["obj"] for j in jobs if j["group"] == "u:" + u]
        # C++ main keeps C++ linkage under its new name
        keep = subprocess.run(["nm", "--defined-only", "-g"] + uo, capture_output=True, text=True).stdout
        m = re.search(r"\bT\s+(\S*%s_main\S*)" % u, keep)
        objs.append(combine(u, uo, m.group(1)))
    key = digest(*sorted(objs), " ".join(WRAPS))
    exe = os.path.join(OUT, "simrun-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [CXX, "-o", tmp] + objs + SAN[:1] + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lfftw3f", "-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-8000:])
            raise SystemExit("link failed")
        os.replace(tmp, exe)
    # drop stale binaries
    for f in os.listdir(OUT):
        if f.startswith("simrun-") and f != os.path.basename(exe):
            try:
                os.unlink(os.path.join(OUT, f))
            except OSError:
                pass
    link = os.path.join(OUT, "simrun")
    tmp = link + ".%d.tmp" % os.getpid()
    os.symlink(os.path.basename(exe), tmp)
    os.replace(tmp, link)
    return exe


if __name__ == "__main__":
    print(build(True))
