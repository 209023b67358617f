#!/usr/bin/env python3
"""Builds simulator binaries from /repo's working tree (content-hashed cache)."""
import collections
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VSIM_REPO", "/repo")
CACHE = os.environ.get("VSIM_CACHE", os.path.join(VERIF, ".cache"))
CXX = os.environ.get("VSIM_CXX", "clang++")

CORE_DEFS = ["-DVECMEM_DEBUG_MSG_LVL=0", "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE",
             "-DVECMEM_SOURCE_DIR_LENGTH=6"]
# messages on: their arguments must not touch what the library may not touch
MSG = ["-UVECMEM_DEBUG_MSG_LVL", "-DVECMEM_DEBUG_MSG_LVL=5",
       "-DVECMEM_PRINTF=vsim_message"]
# build variants: swarm over the configurations the build system can select
VARIANTS = {
    # as shipped on this platform
    "ship": ["-std=gnu++17", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC",
             "-DVECMEM_HAVE_BUILTIN_CLZL", "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF"],
    # no std::aligned_alloc, no clz builtin
    "portable": ["-std=gnu++17", "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF"],
    # as shipped, with all debug messages
    "talkative": ["-std=gnu++17", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC",
                  "-DVECMEM_HAVE_BUILTIN_CLZL",
                  "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF"],
    # C++20 (std::atomic_ref)
    "cxx20": ["-std=gnu++20", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC",
              "-DVECMEM_HAVE_BUILTIN_CLZL",
              "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF"],
}
BASE = ["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-w",
        "-fno-pie", "-pthread"]
INSTR = ["-fsanitize=thread", "-include",
         os.path.join(HERE, "rt/weak.hpp")]
WRAPS = ["malloc", "free", "calloc", "realloc", "aligned_alloc",
         "posix_memalign"]


def inc(groups):
    r = ["-I", os.path.join(HERE, "gen"),
         "-I", os.path.join(REPO, "core/include")]
    for g in groups:
        r += ["-I", os.path.join(REPO, g, "include")]
    if groups:
        r += ["-I", os.path.join(HERE, "stub")]
    return r


def headers_hash(groups):
    h = hashlib.sha256()
    pats = [os.path.join(REPO, g, d) for g in ["core"] + list(groups)
            for d in ("include", "src")]
    pats += [os.path.join(HERE, d) for d in ("rt", "h", "stub", "gen")]
    for p in pats:
        for root, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".ipp", ".h", ".inc")):
                    q = os.path.join(root, f)
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


_LOCKS = collections.defaultdict(threading.Lock)


def compile_one(cmd, src, obj, key):
    # several binaries share objects; each of them is compiled once
    with _LOCKS[obj]:
        return _compile(cmd, src, obj)


def _compile(cmd, src, obj):
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("COMPILE FAILED %s\n%s\n" % (src, r.stdout[-6000:]))
        return None
    os.replace(tmp, obj)
    return obj


def build(name, sources, groups=(), variant="ship", extra=(), core=True,
          core_extra_src=()):
    """Returns path of the linked binary, or None on failure."""
    os.makedirs(CACHE, exist_ok=True)
    hh = headers_hash(groups)
    jobs = []  # (cmd, src)
    common = [CXX] + VARIANTS[variant] + BASE + CORE_DEFS + inc(groups) + \
        list(extra) + (MSG if variant in ("portable", "talkative") else [])
    # runtime is not instrumented
    jobs.append(([CXX, "-std=gnu++17", "-O2", "-g1", "-fno-pie", "-w",
                  "-pthread"], os.path.join(HERE, "rt/vsim.cpp")))
    if core:
        srcs = sorted(glob.glob(os.path.join(REPO, "core/src/**/*.cpp"),
                                recursive=True))
        srcs = [s for s in srcs if "polyfill" not in s]
        for s in list(srcs) + list(core_extra_src):
            jobs.append((common + INSTR, s))
    for g in groups:
        for s in sorted(glob.glob(os.path.join(REPO, g, "src/**/*.cpp"),
                                  recursive=True)):
            jobs.append((common + INSTR + ["-I", os.path.join(REPO, g, "src")],
                         s))
        for s in sorted(glob.glob(os.path.join(REPO, g, "src/**/*.sycl"),
                                  recursive=True)):
            if "polyfill" in s:
                continue
            jobs.append((common + INSTR + ["-x", "c++", "-I",
                                           os.path.join(REPO, g, "src")], s))
    for s in sources:
        jobs.append((common + INSTR, os.path.join(HERE, s)))
    # compile the big harness first
    order = sorted(range(len(jobs)),
                   key=lambda i: -os.path.getsize(jobs[i][1]))
    todo = []
    for i in range(len(jobs)):
        cmd, src = jobs[i]
        with open(src, "rb") as fh:
            body = fh.read()
        k = hashlib.sha256()
        k.update(" ".join(cmd).encode())
        k.update(src.encode())
        k.update(body)
        k.update(hh.encode())
        obj = os.path.join(CACHE, k.hexdigest()[:32] + ".o")
        todo.append((cmd, src, obj, k.hexdigest()))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {i: ex.submit(compile_one, *todo[i]) for i in order}
        objs = [futs[i].result() for i in range(len(todo))]
    if any(o is None for o in objs):
        return None
    lk = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, "%s-%s" % (name, lk))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [CXX, "-no-pie", "-rdynamic", "-pthread", "-o", tmp] + objs + \
            ["-Wl,--wrap=" + w for w in WRAPS] + ["-ldl"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write("LINK FAILED\n%s\n" % r.stdout[-6000:])
            return None
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build("t_" + os.path.basename(sys.argv[1]).split(".")[0],
                [sys.argv[1]], sys.argv[3].split(",") if len(sys.argv) > 3 else (),
                sys.argv[2] if len(sys.argv) > 2 else "ship"))
