"""Builds the extractor (if needed) and extracts the resolved program of /repo's current working tree.

The result is cached under /verif/build/cache, keyed by the content of every source, header and of the tool itself, so a
changed tree is always re-extracted.  Nothing is written inside /repo.
"""
import fcntl, glob, hashlib, json, os, re, pickle, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    pass


def _sha(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def tool_path():
    src = os.path.join(VERIF, "tool", "gcx.cpp")
    key = _sha([_read(src)])
    out = os.path.join(BUILD, "gcx-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise AnalysisBroken("extractor build failed:\n" + r.stdout.decode()[-3000:])
    os.rename(tmp, out)
    return out


def sources():
    # the library's own source list (dead files that the build never compiles do not parse)
    with open(os.path.join(REPO, "src", "CMakeLists.txt")) as f:
        names = re.findall(r"^\s*([\w/]+\.cpp)\s*$", f.read(), re.M)
    s = sorted({os.path.join(REPO, "src", n) for n in names})
    s = [p for p in s if os.path.exists(p)]
    h = sorted(glob.glob(os.path.join(REPO, "include", "**", "*.*"), recursive=True) +
               glob.glob(os.path.join(REPO, "src", "**", "*.h"), recursive=True) +
               glob.glob(os.path.join(REPO, "src", "**", "*.ipp"), recursive=True))
    return s, h


def flags():
    rd = subprocess.run(["clang++", "-print-resource-dir"], stdout=subprocess.PIPE).stdout.decode().strip()
    fl = ["-std=c++14", "-DNOMINMAX", "-D_USE_MATH_DEFINES", "-resource-dir", rd, "-w", "-ferror-limit=5",
          "-I" + REPO + "/include", "-I" + REPO + "/deps/nanort/include", "-I" + REPO + "/deps/nanoflann/include",
          "-I" + os.path.join(VERIF, "tool", "stub"), "-isystem", "/usr/include/eigen3"]
    if os.path.exists("/usr/include/suitesparse/cholmod.h"):
        fl += ["-DGC_HAVE_SUITESPARSE", "-isystem", "/usr/include/suitesparse"]
    return fl


def extract(extra_flags=(), tag="main"):
    """returns the list of raw JSON records (dicts) for the whole library"""
    srcs, hdrs = sources()
    if len(srcs) < 40:
        raise AnalysisBroken("only %d sources found under %s/src" % (len(srcs), REPO))
    drv = os.path.join(VERIF, "tool", "driver.cpp")
    tool = tool_path()
    fl = flags() + list(extra_flags)
    parts = [os.path.basename(tool), " ".join(fl), tag, _read(drv)]
    for p in glob.glob(os.path.join(VERIF, "tool", "stub", "*")):
        parts.append(_read(p))
    for p in srcs + hdrs:
        parts += [p, _read(p)]
    key = _sha(parts)
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    cfile = os.path.join(cdir, key + ".pkl")
    lock = open(os.path.join(cdir, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(cfile):
            with open(cfile, "rb") as f:
                return pickle.load(f)
        files = srcs + [drv]
        # balance: largest first, round robin over workers
        files.sort(key=lambda p: -os.path.getsize(p))
        n = min(8, os.cpu_count() or 4)
        groups = [[] for _ in range(n)]
        sizes = [0] * n
        for p in files:
            i = sizes.index(min(sizes))
            groups[i].append(p)
            sizes[i] += 60000 + os.path.getsize(p)
        tmpd = tempfile.mkdtemp(prefix="gcx", dir=BUILD)
        procs = []
        for i, g in enumerate(groups):
            out = os.path.join(tmpd, "%d.json" % i)
            cmd = [tool, out, ",".join([REPO + "/src", REPO + "/include", os.path.join(VERIF, "tool")])] + g + ["--"] + fl
            procs.append((out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        recs, seen, errs = [], set(), []
        for out, p in procs:
            msg = p.communicate()[0].decode(errors="replace")
            if p.returncode != 0:
                errs.append(msg[-2500:])
                continue
            with open(out) as f:
                for line in f:
                    r = json.loads(line)
                    k = r["_"]
                    if k == "fn":
                        kk = (k, r["m"])
                    elif k in ("rec", "enum"):
                        kk = (k, r["n"])
                    elif k == "var":
                        kk = (k, r["q"], r["f"], r["l"])
                    else:
                        kk = (k, r["f"])
                    if kk in seen:
                        continue
                    seen.add(kk)
                    recs.append(r)
        shutil.rmtree(tmpd, ignore_errors=True)
        if errs:
            raise AnalysisBroken("extraction failed (does the tree compile?):\n" + "\n".join(errs))
        old = sorted(glob.glob(os.path.join(cdir, "*.pkl")), key=os.path.getmtime)
        for o in old[:-6]:
            os.unlink(o)
        with open(cfile + ".tmp", "wb") as f:
            pickle.dump(recs, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.rename(cfile + ".tmp", cfile)
        return recs
    finally:
        lock.close()


if __name__ == "__main__":
    import time
    t = time.time()
    r = extract()
    print(len(r), "records", time.time() - t)
