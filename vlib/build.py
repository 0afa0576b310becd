"""Builds harness binaries from /repo's working tree into /verif/build (git-ignored)."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

CXX = ["g++", "-std=c++17", "-w", "-O1"]
CC = ["gcc", "-w", "-O2"]
INC = ["-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(VERIF, "harness"), "-I" + REPO + "/lib", "-I" + REPO + "/include"]
FSE = [REPO + "/lib/FSE/lib/" + f for f in ("fse_compress.c", "fse_decompress.c", "entropy_common.c", "hist.c")]
LIBC = FSE + [REPO + "/lib/chacha8.c", VERIF + "/stubs/blake3.c"]
SETTINGS = REPO + "/src/settings.cpp"
def H(*n): return [os.path.join(VERIF, "harness", x) for x in n]
K34 = ["-DCHIA_K34"]

class BuildError(Exception): pass

_tree = None
def tree_hash():
    """Hash of everything a build can depend on."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root in (REPO + "/include", REPO + "/src", REPO + "/lib", VERIF + "/engine", VERIF + "/ref", VERIF + "/harness", VERIF + "/stubs", VERIF + "/vlib"):
            for d, dn, fn in os.walk(root):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith((".c", ".cpp", ".h", ".hpp", ".py")):
                        p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
        _tree = h.hexdigest()
    return _tree

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-3000:])

def build(specs):
    """specs: {name: dict(src=[..], flags=[..], link=[..], optional=bool, cxx=[..])} -> {name: path or BuildError}"""
    os.makedirs(OUT, exist_ok=True)
    key = lambda *a: hashlib.sha256(repr((tree_hash(),) + a).encode()).hexdigest()[:20]
    objs, res, need = {}, {}, {}
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for name, s in specs.items():
            flags, cxx = s.get("flags", []), s.get("cxx", CXX)
            binp = os.path.join(OUT, name + "-" + key(name, s["src"], flags, cxx, s.get("link", [])))
            if os.path.exists(binp): res[name] = binp; continue
            lst = []
            # heavy translation units first
            for f in sorted(s["src"], key=lambda f: 0 if "phase_" in f else 1):
                isc = f.endswith(".c")
                cf_ = tuple(x for x in flags if x.startswith(("-fsanitize", "-g"))) if isc else tuple(cxx[1:]) + tuple(flags)
                o = os.path.join(OUT, os.path.basename(f) + "-" + key(f, cf_) + ".o")
                if o not in objs:
                    cmd = (CC if isc else cxx) + (list(cf_) if isc else flags) + INC + ["-c", f, "-o", o + ".tmp%d" % os.getpid()]
                    def job(cmd=cmd, o=o):
                        if not os.path.exists(o): _run(cmd); os.replace(cmd[-1], o)
                    objs[o] = ex.submit(job)
                lst.append(o)
            need[name] = (binp, lst, s)
        def link(name):
            binp, lst, s = need[name]
            for o in lst: objs[o].result()
            tmp = binp + ".tmp%d" % os.getpid()
            _run(["g++", "-rdynamic", "-Wl,-z,muldefs", "-o", tmp] + [x for x in s.get("flags", []) if x.startswith("-fsanitize")] + lst + s.get("link", []) + ["-lpthread", "-ldl"])
            os.replace(tmp, binp)
            return binp
        for name in need:
            try: res[name] = link(name)
            except BuildError as e: res[name] = e
    # drop stale outputs
    keep = set(p for p in res.values() if isinstance(p, str)) | set(objs)
    if not os.environ.get("VP_KEEP"):
        for p in glob.glob(OUT + "/*"):
            if p not in keep and os.path.isfile(p):
                try:
                    import time
                    if time.time() - os.path.getmtime(p) > 6 * 3600: os.remove(p)
                except OSError: pass
    return res
