"""Front end: parses every translation unit of /repo with the real build's flags (libTooling extractor)
and merges the dumps into one resolved program.  Nothing of /repo is executed."""
import os, sys, json, hashlib, subprocess, glob, time, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WICKED_REPO", "/repo")
TOOL = os.path.join(VERIF, "tool", "bin", "extract")

class AnalysisError(Exception):
    """the analysis itself is broken (vanished anchor, unparsable source): exit status 2"""

def flags():
    w = os.path.join(REPO, "wicked")
    return ["-DUSE_BOOST_1024_INT", "-D_wicked_EXPORTS", "-I" + w, "-I" + w + "/algebra", "-I" + w + "/diagrams",
            "-I" + w + "/fmt", "-isystem", "/usr/include/python3.12", "-std=gnu++20", "-fPIC",
            "-fvisibility=hidden", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]

def sources():
    out = []
    for d in ("", "algebra", "diagrams", "helpers", "api"):
        out += glob.glob(os.path.join(REPO, "wicked", d, "*.cc"))
    return sorted(out)

def build_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(TOOL):
        raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])

def extract_one(src, out):
    spec = src.startswith(os.path.join(VERIF, "spec")) or os.path.basename(src).startswith("pyutils-")
    cmd = [TOOL, "-out=" + out, "-root=" + os.path.join(REPO, "wicked"), "-root2=" + os.path.join(VERIF, "spec"), src, "--"] + flags() + (["-fno-access-control", "-ferror-limit=0"] if spec else [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if (r.returncode != 0 and not spec) or not os.path.exists(out):
        raise AnalysisError("cannot parse %s: %s" % (src, r.stderr[-1500:]))
    return out

class Program:
    def __init__(self):
        self.types = []; self._tkey = {}
        self.functions = {}; self.records = {}; self.enums = {}; self.globals = {}
        self.units = []; self.errors = []

    def tmerge(self, tu):
        m = [None] * len(tu)
        def conv(i):
            if i is None or i < 0: return -1
            if m[i] is not None: return m[i]
            t = dict(tu[i])
            key = t.get("s", "") + ("|%s" % t.get("k"))
            if t.get("lambda"): key += "|" + str(self._curunit) + str(i)
            if key in self._tkey:
                m[i] = self._tkey[key]; return m[i]
            n = len(self.types); self._tkey[key] = n; m[i] = n
            self.types.append(t)
            for f in ("to", "ret"):
                if f in t: t[f] = conv(t[f])
            if "args" in t: t["args"] = [conv(a) if isinstance(a, int) else a for a in t["args"]]
            return n
        for i in range(len(tu)): conv(i)
        return m

    def add(self, d, unit):
        self._curunit = unit
        self.units.append(unit)
        self.errors += d.get("errors", [])
        m = self.tmerge(d["types"])
        pre = "%d:" % len(self.units)
        TK = ("t", "tt", "rt", "from", "ct", "ret", "clst", "ft", "ts")
        def fix(o):
            if isinstance(o, dict):
                for k, v in o.items():
                    if k in TK and isinstance(v, int): o[k] = m[v] if v >= 0 else -1
                    elif k == "base" and isinstance(v, int): o[k] = m[v]
                    elif k in ("ptypes", "targs", "bases"): o[k] = [m[x] if x >= 0 else -1 for x in v]
                    elif k == "id" and isinstance(v, str) and v.startswith("v"): o[k] = pre + v
                    elif isinstance(v, (dict, list)): fix(v)
            elif isinstance(o, list):
                for x in o: fix(x)
        for k in ("functions", "records", "globals"): fix(d[k])
        for k, f in d["functions"].items():
            old = self.functions.get(k)
            if old is None or ("body" not in old and "body" in f):
                f["unit"] = unit; f["key"] = k
                self.functions[k] = f
        for k, r in d["records"].items():
            if k not in self.records: self.records[k] = r
        for k, e in d["enums"].items():
            if k not in self.enums or not self.enums[k]["vals"]: self.enums[k] = e
        for k, g in d["globals"].items():
            old = self.globals.get(k)
            if old is None or ("init" not in old and "init" in g) or (not old.get("isdef") and g.get("isdef")): self.globals[k] = g

def add_python(P, cdir, keys):
    """the Python helper module joins the program: its translation (pyfront) is parsed like a unit of its own"""
    import pyfront
    P.py = None; P.py_error = None
    banned = {}
    while True:
        try: mod, text = pyfront.translate(P, banned)
        except (SyntaxError, OSError) as x:
            P.py_error = "cannot parse wicked/utils.py: %s" % x; return
        except Exception as x:
            P.py_error = "wicked/utils.py: outside the translated part of Python: %r" % x; return
        P.py = mod
        h = hashlib.sha256((text + "".join(keys[k] for k in sorted(keys) if "/api/orbital_space_api" in k) + open(os.path.join(VERIF, "spec", "py.h")).read()).encode()).hexdigest()[:28]
        src = os.path.join(cdir, "pyutils-%s.cc" % h); out = os.path.join(cdir, h + ".json")
        if os.path.exists(out): break
        fd, tmp = tempfile.mkstemp(prefix="tmp-", suffix=".json", dir=cdir); os.close(fd); os.unlink(tmp)
        open(src, "w").write(text)
        try: extract_one(src, tmp)
        except AnalysisError as x:
            new = {k: v for k, v in pyfront.blame(mod, str(x)).items() if k not in banned}
            if not new: P.py_error = "translation of wicked/utils.py: %s" % x; return
            banned.update(new); continue
        os.rename(tmp, out); break
    d = json.load(open(out)); n = len(P.errors)
    P.add(d, src)
    P.py_messages = P.errors[n:]; P.errors = P.errors[:n]
_CACHE = None
def unit_keys(units):
    """a key per translation unit: all headers, the unit itself, the tool and the flags"""
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "wicked"))):
        dirs[:] = sorted(d for d in dirs if d not in ("fmt", "__pycache__", "_build"))
        for f in sorted(files):
            if f.endswith((".h", ".hpp")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for p in (os.path.join(VERIF, "tool", "extract.cpp"), *sorted(glob.glob(os.path.join(VERIF, "spec", "*.h")))):
        h.update(open(p, "rb").read())
    h.update(" ".join(flags()).encode())
    out = {}
    for u in units:
        g = h.copy(); g.update(u.encode()); g.update(open(u, "rb").read()); out[u] = g.hexdigest()[:28]
    return out
def load(spec=True):
    """whole program: every .cc of the build, plus the template probe and the specification units"""
    global _CACHE
    if _CACHE is not None: return _CACHE
    t0 = time.time()
    build_tool()
    cdir = os.environ.get("WICKED_CACHE") or os.path.join(VERIF, ".cache", "ast"); os.makedirs(cdir, exist_ok=True)
    srcs = sources()
    if len(srcs) < 25: raise AnalysisError("only %d translation units found under %s/wicked" % (len(srcs), REPO))
    extra = sorted(glob.glob(os.path.join(VERIF, "spec", "*.cc")))
    allsrc = srcs + extra
    keys = unit_keys(allsrc)
    def get(s):
        out = os.path.join(cdir, keys[s] + ".json")
        if os.path.exists(out):
            os.utime(out); return out
        fd, tmp = tempfile.mkstemp(prefix="tmp-", suffix=".json", dir=cdir); os.close(fd); os.unlink(tmp)
        extract_one(s, tmp)
        os.rename(tmp, out)
        return out
    files = {}
    with cf.ThreadPoolExecutor(8) as ex:
        # api units are the slowest: start them first
        futs = {s: ex.submit(get, s) for s in sorted(allsrc, key=lambda s: ("/api/" not in s, s))}
        for s, f in futs.items(): files[s] = f.result()
    old = sorted((os.path.join(cdir, f) for f in os.listdir(cdir)), key=os.path.getmtime)
    for f in old[:-400]:
        try: os.unlink(f)
        except OSError: pass
    P = Program()
    for s in allsrc:
        P.add(json.load(open(files[s])), s)
    add_python(P, cdir, keys)
    P.load_s = time.time() - t0
    P.srcs = srcs
    _CACHE = P
    return P

if __name__ == "__main__":
    P = load()
    nb = [f for f in P.functions.values() if "body" in f and f.get("repo")]
    print("units", len(P.units), "functions with bodies", len(nb), "records", len(P.records), "enums", len(P.enums), "globals", len(P.globals), "%.1fs" % P.load_s)
