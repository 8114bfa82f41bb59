"""Builds /repo's current tree (in several flavors) and the harnesses of /verif.

Everything is written below /verif/build. Objects are cached under a key made
of the contents of the source, of all headers, and of the flags, so that a
change of any file of /repo leads to a rebuild."""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from glob import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
CXX, CC = "g++", "gcc"
GUARD = "PRIMESUM_VP_HOOKS"

ENV = dict(os.environ)
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "LIBRARY_PATH", "OMP_NUM_THREADS"):
    ENV.pop(k, None)
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
# bounds of float casts etc. are not part of -fsanitize=undefined by default
FLAVORS = {
    # as released (no hooks), used for the command line programs
    "rel":   dict(common="-O2 -DNDEBUG", sum="-fopenmp -mpopcnt", link="-fopenmp"),
    # hooks on; used by most harnesses (linked with libgomp or with the scheduler shim)
    "hook":  dict(common="-O2 -DNDEBUG -D" + GUARD, sum="-fopenmp -mpopcnt", link="-fopenmp"),
    # the same without -mpopcnt, hooks on, asserts on, ASan + UBSan
    "san":   dict(common="-O1 -g1 -D" + GUARD + " " + SAN, sum="-fopenmp", link="-fopenmp " + SAN),
    # ASan + UBSan for the command line programs
    "sancli": dict(common="-O1 -g1 " + SAN, sum="-fopenmp", link="-fopenmp " + SAN),
    # ThreadSanitizer, linked with the scheduler shim instead of libgomp
    "tsan":  dict(common="-O1 -g1 -DNDEBUG -D" + GUARD + " -fsanitize=thread", sum="-fopenmp -mpopcnt", link="-fsanitize=thread"),
}

class BuildError(Exception):
    pass

def _read(p):
    with open(p, "rb") as f:
        return f.read()

_hdr = {}
def headers_hash():
    if "h" not in _hdr:
        h = hashlib.sha256()
        pats = ["include/*", "src/*.hpp", "src/*/*.hpp", "src/*.h", "lib/primesieve/include/*.h*",
                "lib/primesieve/include/primesieve/*", "lib/primesieve/src/*.hpp", "lib/primesieve/src/app/*.hpp"]
        files = sorted(set(f for p in pats for f in glob(os.path.join(REPO, p)) if os.path.isfile(f)))
        files += sorted(glob(os.path.join(VERIF, "harness", "*.h*")))
        for f in files:
            h.update(f.encode() + b"\0" + _read(f) + b"\0")
        _hdr["h"] = h.hexdigest()
    return _hdr["h"]

def run(cmd, what):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, cmd if isinstance(cmd, str) else " ".join(cmd),
                                                 p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")

INC = "-I%s/include -I%s/lib/primesieve/include" % (REPO, REPO)

class Unit:
    """one translation unit"""
    def __init__(self, src, flags, lang="c++"):
        self.src, self.flags, self.lang = src, flags, lang
    def obj(self):
        key = hashlib.sha256((self.src + "\0" + self.flags + "\0" + headers_hash() + "\0").encode() + _read(self.src)).hexdigest()[:24]
        return os.path.join(BUILD, "obj", os.path.basename(self.src) + "." + key + ".o")
    def compile(self):
        o = self.obj()
        if not os.path.exists(o):
            os.makedirs(os.path.dirname(o), exist_ok=True)
            tmp = "%s.%d.tmp" % (o, os.getpid())
            run("%s %s %s -c -o %s %s" % (CC if self.lang == "c" else CXX, self.flags, INC, tmp, self.src), "compiling " + self.src)
            os.replace(tmp, o)
        return o

def primesieve_units(flavor):
    f = FLAVORS[flavor]
    return [Unit(s, f["common"]) for s in sorted(glob(REPO + "/lib/primesieve/src/*.cpp"))]

def primesum_units(flavor, nolibdivide=False, variants=False):
    """The sources of src/ without the app. Exactly one of the two S2_easy
    implementations is part of the program; with variants=True the other one
    and a pi_deleglise_rivat which uses it are added under different names."""
    f = FLAVORS[flavor]
    flags = f["common"] + " " + f["sum"]
    res = []
    for s in sorted(glob(REPO + "/src/*.cpp") + glob(REPO + "/src/lmo/*.cpp") + glob(REPO + "/src/deleglise-rivat/*.cpp")):
        b = os.path.basename(s)
        other = "S2_easy_libdivide.cpp" if nolibdivide else "S2_easy.cpp"
        if b == other:
            if variants:
                res.append(Unit(s, flags + " -DS2_easy=S2_easy_variant"))
            continue
        res.append(Unit(s, flags))
        if variants and b == "pi_deleglise_rivat_parallel1.cpp":
            res.append(Unit(s, flags + " -DS2_easy=S2_easy_variant -Dpi_deleglise_rivat_parallel1=pi_deleglise_rivat_variant"))
    return res

def compile_all(units):
    seen, todo = set(), []
    for u in units:
        o = u.obj()
        if o not in seen:
            seen.add(o)
            todo.append(u)
    # big ones first
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(lambda u: u.compile(), todo))

def link(name, units, flags):
    objs = [u.obj() for u in units]
    key = hashlib.sha256((" ".join(objs) + flags).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "bin", name + "." + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        run("%s -o %s %s %s -Wl,-z,muldefs -pthread" % (CXX, tmp, " ".join(objs), flags), "linking " + name)
        os.replace(tmp, out)
    return out

def harness_units(flavor, srcs, extra=""):
    f = FLAVORS[flavor]
    r = []
    for s in srcs:
        p = os.path.join(VERIF, "harness", s)
        r.append(Unit(p, "%s %s -Wno-sign-compare %s -I%s/harness" % (f["common"], f["sum"], extra, VERIF)))
    return r

def harness(name, flavor, srcs, parts=("primesum", "primesieve"), variants=False, shim=False, ldflags="", extra=""):
    """Describes a harness binary; build with build_many"""
    units = harness_units(flavor, srcs + (["hooks.cpp"] if "primesum" in parts else []), extra)
    if shim or flavor == "tsan":
        f = FLAVORS[flavor]
        units.append(Unit(os.path.join(VERIF, "harness", "gomp_shim.cpp"), f["common"]))
    if "primesum" in parts:
        units += primesum_units(flavor, variants=variants)
    if "primesieve" in parts:
        units += primesieve_units(flavor)
    l = FLAVORS[flavor]["link"]
    if shim:
        l = l.replace("-fopenmp", "")
    return (name + "-" + flavor + ("-shim" if shim else ""), units, l + " " + ldflags)

def cli(name, flavor, nolibdivide=False):
    """primesum or primesieve command line program"""
    f = FLAVORS[flavor]
    if name == "primesum":
        units = [Unit(s, f["common"] + " " + f["sum"]) for s in sorted(glob(REPO + "/src/app/*.cpp"))]
        units += primesum_units(flavor, nolibdivide)
    else:
        units = [Unit(s, f["common"]) for s in sorted(glob(REPO + "/lib/primesieve/src/app/*.cpp"))]
    units += primesieve_units(flavor)
    return ("%s-%s%s" % (name, flavor, "-nolibdivide" if nolibdivide else ""), units, f["link"])

def build_many(specs):
    """returns the paths of the binaries"""
    compile_all([u for s in specs for u in s[1]])
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: link(*s), specs))
