#!/usr/bin/env python3
"""Builds the verification binaries from /repo's current working tree.

Objects are cached under /verif/build by a hash of (command, source, every header the source pulls in), so a changed
repository file is always recompiled. Usage: vbuild.py TARGET...   where TARGET is mc:NAME or seq:NAME.
"""
import hashlib, os, re, subprocess, sys, concurrent.futures, glob, threading, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PFX = "/opt/vp/prefix"
OUT = os.path.join(ROOT, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
COMMON = ["-std=gnu++17", "-include", "/opt/vp/compat.h", "-w", "-Wno-register", "-pipe", "-D_GNU_SOURCE", "-D__STDC_LIMIT_MACROS",
          "-DHAVE_SNAPPY", "-DSOFA_PBRPC_ENABLE_DETAILED_LOGGING"]
MODES = {
    # instrumented only: the runtime in mc/rt provides every __tsan_* entry point
    "mc": ["-O1", "-g1", "-fno-inline-functions", "-fno-omit-frame-pointer", "-fno-pie", "-fsanitize=thread",
           "-mllvm", "-tsan-distinguish-volatile=1", "-fno-builtin", "-DVERIF_MC", "-DSOFA_PBRPC_VERIF_HOOKS"],
    "rt": ["-O2", "-g1", "-fno-pie", "-fno-builtin-malloc", "-fcf-protection=none"],
    "seq": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,null,object-size,return,unreachable,bool,enum,integer-divide-by-zero,vla-bound",
            "-fno-sanitize-recover=all", "-DVERIF_SEQ"],
    "fast": ["-O1", "-g1", "-DVERIF_SEQ"],
}
EXCLUDE = {"boost_system_error_code.cc"}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

class Builder:
    def __init__(self):
        os.makedirs(OUT, exist_ok=True)
        self.hcache = {}
        self.lock = threading.Lock()
        self.gen = None

    def fhash(self, p):
        with self.lock:
            if p in self.hcache: return self.hcache[p]
        try:
            with open(p, "rb") as f: h = hashlib.sha1(f.read()).hexdigest()
        except OSError: h = "missing"
        with self.lock: self.hcache[p] = h
        return h

    def protos(self):
        """generated code for the repository's and the harness' .proto files"""
        if self.gen: return self.gen
        srcs = sorted(glob.glob(REPO + "/src/sofa/pbrpc/*.proto"))
        mine = sorted(glob.glob(ROOT + "/proto/*.proto"))
        h = hashlib.sha1("".join(p + self.fhash(p) for p in srcs + mine).encode()).hexdigest()[:16]
        d = os.path.join(OUT, "gen-" + h)
        if not os.path.exists(d + "/.done"):
            os.makedirs(d, exist_ok=True)
            inc = ["-I" + REPO + "/src", "-I" + ROOT + "/proto", "-I" + PFX + "/include"]
            r = sh([PFX + "/bin/protoc", "--cpp_out=" + d] + inc + srcs + mine)
            if r.returncode: raise SystemExit("protoc failed:\n" + r.stdout.decode())
            open(d + "/.done", "w").close()
        self.gen = d
        return d

    def flags(self, mode):
        g = self.protos()
        # generated headers of this build come before any that a build of /repo left in its source tree
        return COMMON + MODES[mode] + ["-I" + g, "-I" + g + "/sofa/pbrpc", "-I" + REPO + "/src", "-I" + PFX + "/include", "-I" + ROOT + "/mc/rt", "-I" + ROOT + "/seq", "-I" + ROOT + "/mc/harness"]

    def compile(self, src, mode, extra=()):
        cmd = ["clang++"] + self.flags(mode) + list(extra) + ["-c", src]
        key = hashlib.sha1(("\0".join(cmd)).encode()).hexdigest()[:20]
        base = os.path.join(OUT, mode, os.path.basename(src) + "." + key)
        os.makedirs(os.path.dirname(base), exist_ok=True)
        obj, dep = base + ".o", base + ".json"
        if os.path.exists(obj) and os.path.exists(dep):
            with open(dep) as f: d = json.load(f)
            if all(self.fhash(p) == h for p, h in d.items()): return obj
        r = sh(cmd + ["-MD", "-MF", base + ".d", "-o", obj + ".tmp"])
        if r.returncode and not extra:          # a source may name flags to be compiled with instead
            with open(src) as f: m = re.search(r"^// vbuild fallback: (.*)", f.read(), re.M)
            if m: return self.compile(src, mode, m.group(1).split())
        if r.returncode: raise RuntimeError("compile failed: %s\n%s" % (src, r.stdout.decode()[-6000:]))
        with open(base + ".d") as f: t = f.read().replace("\\\n", " ")
        deps = [p for p in t.split(":", 1)[1].split() if not p.startswith("/usr/")]
        with open(dep, "w") as f: json.dump({p: self.fhash(p) for p in deps}, f)
        os.replace(obj + ".tmp", obj)
        return obj

    def lib_sources(self):
        g = self.protos()
        s = [p for p in sorted(glob.glob(REPO + "/src/sofa/pbrpc/*.cc")) if not p.endswith(".pb.cc") and os.path.basename(p) not in EXCLUDE]
        return s + sorted(glob.glob(g + "/sofa/pbrpc/*.pb.cc")) + sorted(glob.glob(g + "/*.pb.cc"))

    def compile_all(self, jobs):
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(self.compile, *j) for j in jobs]
            res, errs = [], []
            for f in fs:
                try: res.append(f.result())
                except RuntimeError as e: errs.append(str(e))
            if errs: raise SystemExit("\n".join(errs))
            return res

    def build(self, target):
        kind, name = target.split(":", 1)
        src = os.path.join(ROOT, "mc/harness" if kind == "mc" else "seq", name + ".cc")
        mode = "mc" if kind == "mc" else ("fast" if kind == "fast" else "seq")
        jobs = [(src, mode)] + [(s, mode) for s in self.lib_sources()]
        jobs += [(s, mode) for s in sorted(glob.glob(src[:-3] + ".part_*.cc"))]
        with open(src) as f: also = re.search(r"^// vbuild also: (.*)", f.read(), re.M)
        if also:                                # further sources of the repository, programs (main) excluded
            for q in sorted(glob.glob(os.path.join(REPO, also.group(1).strip()))):
                with open(q) as f:
                    if not re.search(r"^\s*int\s+main\s*\(", f.read(), re.M): jobs.append((q, mode))
        if kind == "mc": jobs += [(ROOT + "/mc/rt/mcrt.cc", "rt"), (ROOT + "/mc/rt/mckern.cc", "rt")]
        objs = self.compile_all(jobs)
        exe = os.path.join(OUT, "bin", kind + "_" + name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        libs = [PFX + "/lib/libprotobuf.a", PFX + "/lib/libsnappy.a", "-lz", "-lpthread", "-lrt"]
        if kind == "mc": link = ["clang++", "-no-pie", "-static-libstdc++", "-static-libgcc"]
        else: link = ["clang++"] + [f for f in MODES[mode] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        stamp = hashlib.sha1("".join(link + objs + [self.fhash(o) for o in objs]).encode()).hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + ".stamp") and open(exe + ".stamp").read() == stamp: return exe
        r = sh(link + ["-o", exe + ".tmp"] + objs + libs)
        if r.returncode: raise SystemExit("link failed:\n" + r.stdout.decode()[-6000:])
        os.replace(exe + ".tmp", exe)
        with open(exe + ".stamp", "w") as f: f.write(stamp)
        return exe

if __name__ == "__main__":
    b = Builder()
    for t in sys.argv[1:]: print(b.build(t))
