#!/usr/bin/env python3
"""build-driver OUTDIR driver...   compiles the library of the current tree ($COBALT_REPO, default /repo)
and the given drivers of /verif/harness, in parallel.  Nothing is reused from an earlier run."""
import glob, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def build(out, drivers, extra=(), repo=None, san="address"):
    repo = repo or os.environ.get("COBALT_REPO", "/repo")
    os.makedirs(out, exist_ok=True)
    flags = ["-std=c++20", "-g1", "-O0", "-fno-omit-frame-pointer", "-DBOOST_ASIO_NO_DEPRECATED",
             "-DBOOST_COBALT_USE_STD_PMR=1", f"-I{repo}/include", "-pthread", "-w", *extra]
    if san:
        flags.append(f"-fsanitize={san}")
    cxx = os.environ.get("CXX", "g++")
    jobs, libs, objs, without, own = [], {}, {}, {}, {}
    for d in drivers:
        src = f"{here}/harness/{d}.cpp"
        text = open(src).read()
        m = re.search(r"^// PARTS: (\d+)", text, re.M)
        special = {int(k): v.split() for k, v in re.findall(r"^// FLAGS (\d+): (.*)$", text, re.M)}
        without[d] = re.findall(r"^// WITHOUT: (\S+)", text, re.M)
        objs[d] = []
        own[d] = [f for l in re.findall(r"^// SRC: (.*)$", text, re.M) for f in l.split()]
        for p in range(int(m.group(1)) if m else 1):
            o = f"{out}/{d}.{p}.o"
            objs[d].append(o)
            jobs.append((src, o, [f"-DPART={p}", f"-I{repo}", *special.get(p, [])]))
    for f in sorted({f for d in drivers for f in own[d]}):
        libs[f] = f"{out}/lib_{f.replace('/', '_')}.o"
        jobs.append((f"{repo}/src/{f}.cpp", libs[f], []))
    base = set()
    for f in sorted(glob.glob(f"{repo}/src/*.cpp") + glob.glob(f"{repo}/src/detail/*.cpp")):
        f = f[len(repo) + 5:-4]
        o = f"{out}/lib_{f.replace('/', '_')}.o"
        libs[f] = o
        base.add(f)
        jobs.append((f"{repo}/src/{f}.cpp", o, []))
    def cc(j):
        r = subprocess.run([cxx, *flags, *j[2], "-c", j[0], "-o", j[1]], capture_output=True, text=True)
        return r.returncode, r.stderr
    with ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", "8"))) as ex:
        res = list(ex.map(cc, jobs))
    bad = [e for rc, e in res if rc]
    if bad:
        raise RuntimeError("compilation failed:\n" + "\n".join(b[:4000] for b in bad))
    def link(d):
        return subprocess.run([cxx, *flags, *objs[d], *[o for f, o in libs.items() if f not in without[d] and (f in base or f in own[d])], "-ldl", "-rdynamic", "-o", f"{out}/{d}"], capture_output=True, text=True)
    with ThreadPoolExecutor(max_workers=8) as ex:
        for r in ex.map(link, drivers):
            if r.returncode:
                raise RuntimeError("link failed:\n" + r.stderr[:4000])

if __name__ == "__main__":
    try:
        build(sys.argv[1], sys.argv[2:], os.environ.get("EXTRA_FLAGS", "").split())
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(1)
