"""Builds, from /repo's current working tree, the library twice (against the symbolic NTL
overlay and against the real NTL) and the harnesses, with a content-keyed object cache."""
import hashlib, os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PML_REPO", "/repo")
R = os.path.join(REPO, "ntl-extras")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

FLINT_DIRS = ["nmod_extra", "nmod_mat_extra", "nmod_mat_poly_extra", "nmod_poly_extra", "nmod_poly_mat_extra"]
# word-level kernels and their users (vector instructions, delayed reductions, floating-point CRT), and printing
FLINT_SKIP = ["nmod_mat_mul_2dot.c", "nmod_multimod_CRT_CRT.c", "nmod_multimod_CRT_clear.c", "nmod_multimod_CRT_init.c", "nmod_multimod_CRT_reduce.c", "nmod_mat_poly_io.c", "nmod_poly_mat_io.c"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()

_fh = {}
def fhash(f):
    if f not in _fh:
        try:
            with open(f, "rb") as fd: _fh[f] = hashlib.sha256(fd.read()).hexdigest()
        except OSError:
            _fh[f] = "missing"
    return _fh[f]

def dirs():
    with open(os.path.join(R, "Makefile")) as f:
        for l in f:
            m = re.match(r"DIRS *= *(.*)", l)
            if m: return m.group(1).split()
    raise SystemExit("no DIRS in ntl-extras/Makefile")

class Obj:
    def __init__(self, src, flags, tag):
        self.src, self.flags, self.tag = src, flags, tag
        name = src.replace("/", "_").strip("_")
        self.out = os.path.join(B, tag, name + ".o")
        self.ok, self.log = None, ""
    def deps(self):
        try:
            with open(self.out + ".d") as f: t = f.read()
        except OSError: return None
        return t.replace("\\\n", " ").split(":", 1)[1].split()
    def key(self):
        d = self.deps()
        if d is None: return None
        return sha("v4", self.src, " ".join(self.flags), *[x + fhash(x) for x in sorted(set(d)) if not x.startswith("/usr/")])
    def build(self):
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        k = self.key()
        try:
            with open(self.out + ".key") as f: old = f.read()
        except OSError: old = None
        if k is not None and old == k and os.path.exists(self.out):
            self.ok = True; return self
        for s in (".key", ".d", ""):
            try: os.unlink(self.out + s)
            except OSError: pass
        r = subprocess.run(["g++", "-c", self.src, "-o", self.out, "-MD", "-MF", self.out + ".d"] + self.flags,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.ok = r.returncode == 0; self.log = "\n".join([l for l in r.stdout.split("\n") if "error" in l][:6]) or r.stdout[-600:]
        if self.ok:
            k = self.key()
            with open(self.out + ".key", "w") as f: f.write(k or "")
        return self

class Build:
    def __init__(self, need_sym=True):
        os.makedirs(B, exist_ok=True)
        self.gen = os.path.join(B, "include")
        os.makedirs(self.gen, exist_ok=True)
        ds = dirs(); want = set()
        for d in ds:
            for o in glob.glob(os.path.join(R, d, "*.orig")):
                if os.path.exists(o[:-5] + ".h"): continue
                t = os.path.join(self.gen, os.path.basename(o)[:-5] + ".h"); want.add(t)
                with open(o, "rb") as f: c = f.read()
                try:
                    with open(t, "rb") as f: cur = f.read()
                except OSError: cur = None
                if cur != c:
                    with open(t, "wb") as f: f.write(c)
        for t in glob.glob(os.path.join(self.gen, "*.h")):
            if t not in want: os.unlink(t)
        inc = ["-I" + os.path.join(R, d) for d in ds] + ["-I" + self.gen, "-I" + os.path.join(VERIF, "harness")]
        syminc = ["-DVH_SYM", "-I" + os.path.join(VERIF, "symntl", "include")] + inc
        self.symflags = ["-std=c++11", "-O1", "-w", "-DNTL_RANGE_CHECK"] + syminc
        self.realflags = ["-std=c++11", "-O1", "-w", "-DNTL_RANGE_CHECK"] + inc
        src = sorted(x for d in ds for x in glob.glob(os.path.join(R, d, "src", "*.cpp")))
        fi = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,symntl/"]
        self.sym = [Obj(s, self.symflags + fi, "sym") for s in src]
        self.real = [Obj(s, self.realflags, "real") for s in src]
        self.engine = Obj(os.path.join(VERIF, "symntl", "engine.cpp"), ["-std=c++17", "-O2", "-w"], "fw")
        self.model = Obj(os.path.join(VERIF, "symntl", "ntl_model.cpp"), self.symflags, "fw")
        self.vhs = Obj(os.path.join(VERIF, "harness", "vh.cpp"), self.symflags, "fwsym")
        self.vhr = Obj(os.path.join(VERIF, "harness", "vh.cpp"), self.realflags, "fwreal")
        self.harness = {}
        # flint-extras: its C sources, compiled as C++ against the stand-in of FLINT
        F = os.path.join(REPO, "flint-extras", "src"); SF = os.path.join(VERIF, "symflint")
        finc = ["-I" + os.path.join(SF, "include"), "-I" + F, "-I" + os.path.join(F, "nmod_poly_mat_extra")]
        fc = ["-std=c++17", "-O1", "-w", "-fpermissive"]; san = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=all"]
        fsrc = sorted(x for d in FLINT_DIRS for x in glob.glob(os.path.join(F, d, "*.c")) if os.path.basename(x) not in FLINT_SKIP)
        self.fsym = [Obj(s, ["-x", "c++"] + fc + ["-DVH_SYM"] + finc + fi[:1] + ["-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,symntl/,symflint/"], "fsym") for s in fsrc]
        self.freal = [Obj(s, ["-x", "c++"] + fc + finc + san, "freal") for s in fsrc]
        self.fms = Obj(os.path.join(SF, "flint_model.cpp"), fc + ["-DVH_SYM"] + finc, "fwfsym")
        self.fmr = Obj(os.path.join(SF, "flint_model.cpp"), fc + finc + san, "fwfreal")
        self.fvhr = Obj(os.path.join(VERIF, "harness", "vh.cpp"), self.realflags + san, "fwfreal")
        self.fhs = [f for f in self.symflags if f != "-std=c++11"] + ["-std=c++17", "-fpermissive"] + finc
        self.fhr = [f for f in self.realflags if f != "-std=c++11"] + ["-std=c++17", "-fpermissive"] + finc + san
    def add(self, h):
        s = os.path.join(VERIF, "harness", h + ".cpp")
        if h in self.harness: return
        if h.startswith("hf_"): self.harness[h] = (Obj(s, self.fhs, "hsym"), Obj(s, self.fhr, "hreal"))
        else: self.harness[h] = (Obj(s, self.symflags, "hsym"), Obj(s, self.realflags, "hreal"))
    def run(self):
        fl = any(h.startswith("hf_") for h in self.harness); nt = any(not h.startswith("hf_") for h in self.harness) or not self.harness
        fw = [self.engine, self.model, self.vhs, self.vhr] + ([self.fms, self.fmr, self.fvhr] if fl else [])
        if not fl: self.fsym = self.freal = []
        if not nt: self.sym = self.real = []
        objs = list(fw)
        for a, b in self.harness.values(): objs += [a, b]
        # big translation units first
        lib = sorted(self.sym + self.real + self.fsym + self.freal, key=lambda o: -os.path.getsize(o.src))
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda o: o.build(), objs + lib))
        self.problems = []
        for o in fw:
            if not o.ok: raise SystemExit("framework object failed: %s\n%s" % (o.src, o.log))
        for o in self.sym + self.fsym:
            if not o.ok: self.problems.append("symbolic build of %s failed: %s" % (os.path.relpath(o.src, REPO), o.log.strip()[:600]))
        for o in self.real + self.freal:
            if not o.ok: self.problems.append("real build of %s failed: %s" % (os.path.relpath(o.src, REPO), o.log.strip()[:600]))
        for tag, objs in (("sym", self.sym), ("real", self.real), ("fsym", self.fsym), ("freal", self.freal)):
            if not objs: continue
            a = os.path.join(B, "lib%s.a" % tag); good = [o.out for o in objs if o.ok]
            k = sha(*[fhash2(x) for x in good])
            try:
                with open(a + ".key") as f: old = f.read()
            except OSError: old = None
            if old != k or not os.path.exists(a):
                if os.path.exists(a): os.unlink(a)
                subprocess.run(["ar", "rcs", a] + good, check=True)
                with open(a + ".key", "w") as f: f.write(k)
    def link(self, h):
        """(symbolic exe or None, real exe or None, messages)"""
        hs, hr = self.harness[h]; msgs = []; out = []
        if h.startswith("hf_"): kinds = ((hs, "sym", [self.vhs.out], [os.path.join(B, "libfsym.a"), self.fms.out, self.engine.out, self.model.out, "-lntl", "-lz3", "-lgmp", "-lpthread"]),
                                         (hr, "real", [self.fvhr.out], [os.path.join(B, "libfreal.a"), self.fmr.out, "-Wl,--wrap=_ZN3NTL9RandomBndEl", "-fsanitize=address,undefined", "-lntl", "-lgmp", "-lpthread", "-lm"]))
        else: kinds = ((hs, "sym", [self.vhs.out], [os.path.join(B, "libsym.a"), self.engine.out, self.model.out, "-lntl", "-lz3", "-lgmp", "-lpthread"]),
                                    (hr, "real", [self.vhr.out], [os.path.join(B, "libreal.a"), "-Wl,--wrap=_ZN3NTL9RandomBndEl", "-lntl", "-lgmp", "-lpthread", "-lm"]))
        for o, tag, extra, libs in kinds:
            exe = os.path.join(B, "%s_%s" % (h, tag))
            if not o.ok:
                msgs.append("%s build of harness %s failed: %s" % (tag, h, o.log.strip()[:600])); out.append(None); continue
            ins = [o.out] + extra + [x for x in libs if x.endswith((".o", ".a"))]
            k = sha(*[fhash2(x) for x in ins])
            try:
                with open(exe + ".key") as f: old = f.read()
            except OSError: old = None
            if old != k or not os.path.exists(exe):
                # the symbolic model of NTL's compiled functions takes precedence over libntl
                r = subprocess.run(["g++", "-o", exe, o.out] + extra + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    msgs.append("link of %s failed: %s" % (exe, r.stdout[-600:])); out.append(None); continue
                with open(exe + ".key", "w") as f: f.write(k)
            out.append(exe)
        return out[0], out[1], msgs

def fhash2(f):
    with open(f, "rb") as fd: return hashlib.sha256(fd.read()).hexdigest()

if __name__ == "__main__":
    b = Build()
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "h*_*.cpp"))): b.add(os.path.basename(f)[:-4])
    b.run(); bad = list(b.problems)
    with ThreadPoolExecutor(JOBS) as ex:
        for s, r, m in ex.map(b.link, list(b.harness)): bad += m
    for x in bad: print(x)
    sys.exit(1 if bad else 0)
