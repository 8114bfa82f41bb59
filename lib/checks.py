"""What every check runs."""
import json, os, subprocess, sys
import vbuild, vcheck, clichecks
from vbuild import harness, cli, build_many

CHECKS = {}
def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco

# ------------------------------------------------------------------ harnesses
# run times and thread thresholds are generated, see gomp_shim.cpp
WRAP = "-Wl,--wrap=_ZN8primesum8get_timeEv -Wl,--wrap=_ZN8primesum17ideal_num_threadsEill"
H = {
    "arith": lambda: harness("arith", "hook", ["arith.cpp"]),
    "arith-san": lambda: harness("arith", "san", ["arith.cpp"]),
    "psum": lambda: harness("psum", "hook", ["psum.cpp"], variants=True),
    "parts": lambda: harness("parts", "hook", ["parts.cpp"], variants=True),
    "tables": lambda: harness("tables", "hook", ["tables.cpp"]),
    "sched": lambda: harness("sched", "hook", ["sched.cpp"], variants=True, shim=True, ldflags=WRAP),
    "sched-tsan": lambda: harness("sched", "tsan", ["sched.cpp"], variants=True, shim=True, ldflags=WRAP),
    "psieve": lambda: harness("psieve", "hook", ["psieve.cpp"], parts=("primesieve",), ldflags="-Wl,--wrap=malloc -Wl,--wrap=realloc"),
    "psieve-san": lambda: harness("psieve", "san", ["psieve.cpp"], parts=("primesieve",), extra="-DVP_NO_FAULTS"),
    "psieve-tsan": lambda: harness("psieve", "tsan", ["psieve.cpp"], parts=("primesieve",), extra="-DVP_NO_FAULTS"),
    "calc": lambda: harness("calc", "hook", ["calc.cpp"], parts=()),
    "calc-san": lambda: harness("calc", "san", ["calc.cpp"], parts=()),
    "psum-san": lambda: harness("psum", "san", ["psum.cpp"], variants=True),
    "parts-san": lambda: harness("parts", "san", ["parts.cpp"], variants=True),
    "tables-san": lambda: harness("tables", "san", ["tables.cpp"]),
    "arith_ps-san": lambda: harness("arith_ps", "san", ["arith_ps.cpp"], parts=()),
    "clioracle": lambda: harness("clioracle", "hook", ["clioracle.cpp"]),
    "arith_ps": lambda: harness("arith_ps", "hook", ["arith_ps.cpp"], parts=()),
}

@check("A01")
def A01(c):
    c.cpp(H["arith"](), ["a256.op", "a256.history", "a256.convert"])

@check("A02")
def A02(c):
    c.cpp(H["arith"](), ["print.256", "print.128", "print.api"])

@check("A03")
def A03(c):
    c.cpp(H["arith"](), ["math.root", "math.fast_div", "math.helpers"])
    c.cpp(H["arith_ps"]())

@check("S01")
def S01(c):
    c.cpp(H["psum"](), ["sum.small", "sum.lucy", "sum.big", "sum.history"])
    c.cpp(H["psum"](), ["sum.pow10", "sum.diff"])
    c.cpp(H["psum"](), ["sum.pow10.big", "sum.pow10.huge", "sum.pow10.max", "sum.diff.big"], shards=2, hang=600)

@check("S02")
def S02(c):
    c.cpp(H["psum"](), ["alg.small", "alg.mid", "alg.big"])
    c.cpp(H["psum"](), ["alg.pow10", "alg.variant"], shards=3, hang=400)

@check("S04")
def S04(c):
    c.cpp(H["psum"](), ["alpha.small", "alpha.mid"])
    c.cpp(H["psum"](), ["alpha.pow10", "alpha.big"], shards=4, hang=400)

@check("S05")
def S05(c):
    c.cpp(H["parts"](), ["part.small", "part.mid", "part.large"])
    c.cpp(H["parts"](), ["part.P2.edge"], shards=4, hang=200)
    c.cpp(H["parts"](), ["part.P2.mt", "part.trivial.mt", "part.S1.mt"])

@check("S06")
def S06(c):
    c.cpp(H["parts"](), ["wide.parts", "wide.parts.mid", "wide.S1"])
    c.cpp(H["parts"](), ["wide.trivial", "wide.easy"])
    c.cpp(H["parts"](), ["wide.sum", "wide.sum.big", "wide.P2"], shards=4, hang=400)
    if c.thorough:
        c.cpp(H["parts"](), ["wide.sum.1e19"], shards=1, hang=800, cap=1000)

@check("S09")
def S09(c):
    c.cpp(H["parts"](), ["phi.small", "phi.mid", "phi.big", "phi.edge", "phi_sum.128", "legendre.small", "legendre.pow10"])

@check("S10")
def S10(c):
    c.cpp(H["tables"](), ["table.pi", "table.pi.big", "table.primes", "table.mu", "table.factor", "table.factor.mt", "table.index", "table.limit", "table.phi_tiny"])
    if c.thorough:
        c.cpp(H["tables"](), ["table.factor.max"], shards=1, hang=400)

@check("S11")
def S11(c):
    c.cpp(H["tables"](), ["sieve.history", "sieve.wheel", "sieve.large"])

@check("S12")
def S12(c):
    c.cpp(H["tables"](), ["balance.history", "balance.threads"])

@check("S03")
def S03(c):
    c.cpp(H["sched"](), ["sched.small", "sched.mid", "sched.parts", "sched.phi"])
    c.cpp(H["sched"](), ["sched.pow10", "sched.P2"])
    c.cpp(H["sched-tsan"](), ["sched.small", "sched.mid", "sched.parts", "sched.phi", "sched.P2"], env={"VP_SHIM": "real"}, scale=0.1)

@check("S08")
def S08(c):
    c.cpp(H["sched"](), ["status.parts", "status.sum", "status.P2"])
    c.cpp(H["sched"](), ["status.history", "status.percent"])
    c.cpp(H["sched-tsan"](), ["status.parts", "status.sum"], env={"VP_SHIM": "real"}, scale=0.1)
    clichecks.S08(c, build_many([cli("primesum", "rel")])[0])

@check("Q01")
def Q01(c):
    c.cpp(H["psieve"](), ["count.window", "count.segment"])
    c.cpp(H["psieve"](), ["count.wide", "count.split"], shards=4)
    c.cpp(H["psieve"](), ["count.far", "count.huge"], shards=1, hang=240)

@check("Q02")
def Q02(c):
    c.cpp(H["psieve"](), ["gen.window", "gen.n"])
    c.cpp(H["psieve"](), ["gen.deep"], shards=2, hang=150)

@check("Q03")
def Q03(c):
    c.cpp(H["psieve"](), ["nth.near", "nth.end", "nth.far"])
    c.cpp(H["psieve"](), ["nth.huge"], shards=1, hang=120)

@check("Q04")
def Q04(c):
    c.cpp(H["psieve"](), ["iter.cpp", "iter.c", "iter.long", "iter.low"])
    c.cpp(H["psieve"](), ["iter.deep"], hang=150)

@check("Q05")
def Q05(c):
    c.cpp(H["psieve"](), ["c.arrays", "c.numbers", "c.huge", "c.faults"])

@check("Q07")
def Q07(c):
    c.cpp(H["psieve"](), ["settings.values"])
    c.cpp(H["psieve"](), ["settings.results"], shards=4)
    c.cpp(H["psieve"](), ["settings.high", "settings.segments"], hang=300)

@check("Q08")
def Q08(c):
    c.cpp(H["psieve"](), ["threads.calls"], shards=4)
    c.cpp(H["psieve-tsan"](), ["threads.calls"], env={"VP_SHIM": "real"}, shards=4, scale=0.2)

@check("E01")
def E01(c):
    c.cpp(H["calc"]())
    c.cpp(H["calc-san"](), scale=0.1)

@check("C01")
def C01(c):
    exe, nolib, o = build_many([cli("primesum", "rel"), cli("primesum", "rel", True), H["clioracle"]()])
    clichecks.C01(c, exe, o, nolib)

@check("S07")
def S07(c):
    clichecks.S07(c, build_many([cli("primesum", "rel")])[0])

@check("Q06")
def Q06(c):
    clichecks.Q06(c, build_many([cli("primesieve", "rel")])[0])
    c.cpp(H["psieve"](), ["print.window", "print.wide"])

@check("M01")
def M01(c):
    names = ["arith-san", "arith_ps-san", "calc-san", "tables-san", "psieve-san", "parts-san", "psum-san"]
    specs = [H[n]() for n in names] + [cli("primesum", "sancli"), cli("primesieve", "sancli"), H["clioracle"]()]
    exes = build_many(specs)
    # too slow with sanitizers
    skip = ("wide.sum.big", "wide.sum.1e19", "sum.pow10.huge", "sum.pow10.max", "alg.pow10", "alg.variant", "alpha.big", "count.far", "count.huge", "gen.deep", "nth.huge", "iter.deep",
            "settings.segments", "part.P2.edge")
    for n, s, exe in zip(names, specs, exes):
        kinds = [l.split("\t")[0] for l in subprocess.run([exe, "rules"], stdout=subprocess.PIPE, env=vbuild.ENV).stdout.decode().splitlines()]
        own = [k for k in kinds if k in SAN_KINDS]
        c.cpp(s, [k for k in kinds if k not in skip and k not in own], scale=SAN_SCALE.get(n, 0.02), hang=400, binary=exe, cap=c.q(60, 300))
        for k in own:
            c.cpp(s, [k], scale=SAN_KINDS[k], hang=400, binary=exe, cap=c.q(60, 300))
    clichecks.M01(c, exes[7], exes[8], exes[9])
    # uninitialized memory is not seen by ASan
    for n, scale, kinds in MEMCHECK:
        c.cpp(H[n](), kinds, scale=scale, memcheck=True, hang=300, cap=c.q(60, 200))
    clichecks.M01_memcheck(c, *build_many([cli("primesum", "rel"), cli("primesieve", "rel")]))
MEMCHECK = [
    ("psieve", 0.02, ["count.window", "gen.window", "gen.n", "nth.near", "iter.cpp", "iter.c", "iter.low", "c.arrays", "c.numbers", "c.faults", "print.window", "settings.values", "threads.calls"]),
    ("parts", 0.002, ["part.small", "wide.parts", "wide.S1", "phi.small", "phi_sum.128", "legendre.small"]),
    ("tables", 0.004, ["table.pi", "table.primes", "table.mu", "table.factor", "table.factor.mt", "table.index", "sieve.history", "sieve.wheel", "balance.history"]),
    ("psum", 0.002, ["sum.small", "sum.history", "alg.small", "alpha.small"]),
    ("arith", 0.01, ["a256.op", "a256.history", "a256.convert", "print.256", "math.root"]),
]
# cheap kinds with sizes at the limits of buffers
SAN_KINDS = {"count.segment": 0.2, "iter.low": 0.6}
SAN_SCALE = {"arith-san": 0.1, "arith_ps-san": 0.1, "tables-san": 0.04, "parts-san": 0.025}

# ------------------------------------------------------------------ setup, replay
def setup():
    for t in (["g++", "--version"], ["gcc", "--version"], ["python3-vt", "-c", "import hypothesis"]):
        if subprocess.run(t, stdout=subprocess.DEVNULL).returncode != 0:
            print("missing: " + " ".join(t))
            return 1
    try:
        build_many([H["arith_ps"]()])
    except vbuild.BuildError as e:
        print(e)
        return 1
    print("setup ok")
    return 0

def spec_by_name(name):
    for k in H:
        s = H[k]()
        if s[0] == name:
            return s
    raise KeyError(name)

def replay(prop, path):
    d = json.load(open(path))
    if d["mode"] == "case":
        exe = build_many([spec_by_name(d["harness"])])[0]
        tmp = path + ".case"
        open(tmp, "w").write(d["case"])
        e = dict(vbuild.ENV); e.update(d.get("env", {}))
        if "VP_MEMCHECK" in e:
            exe = vcheck.valgrind(exe, path + ".sh")
        return subprocess.run([exe, "replay", tmp], env=e).returncode
    if d["mode"] == "history":
        exe = build_many([spec_by_name(d["harness"])])[0]
        return subprocess.run([exe] + ["/tmp/" + os.path.basename(a) if a.startswith("/") else a for a in ["run"] + d["args"]]).returncode
    if d["mode"] == "py":
        fn = py_case(prop, d["kind"])
        if fn is not None:
            m = fn(d["case"])
            print(m or "the case passes")
            return 1 if m else 0
    print(json.dumps(d, indent=1))
    print("re-run with: python3 check.py %s --seed N" % prop)
    return 0

def py_case(prop, kind):
    """the function which decides one case of a command line kind"""
    san = "sancli" if kind.startswith("san.") else "rel"
    def b(*specs):
        return build_many(list(specs))
    if kind in ("cli.valid", "cli.valid.nolibdivide", "san.primesum"):
        exe, o = b(cli("primesum", san, kind.endswith("nolibdivide")), H["clioracle"]())
        return clichecks.run_c01(exe, clichecks.Oracle(o))
    f = {"cli.invalid": ("primesum", clichecks.run_c01_bad), "san.primesum.invalid": ("primesum", clichecks.run_c01_bad),
         "limit.x": ("primesum", clichecks.run_s07), "limit.edge": ("primesum", clichecks.run_s07_edge), "status.cli": ("primesum", clichecks.run_s08),
         "sieve.valid": ("primesieve", clichecks.run_q06), "sieve.wide": ("primesieve", clichecks.run_q06_wide), "sieve.huge": ("primesieve", clichecks.run_q06_huge), "san.primesieve": ("primesieve", clichecks.run_q06),
         "sieve.invalid": ("primesieve", clichecks.run_q06_bad), "san.primesieve.invalid": ("primesieve", clichecks.run_q06_bad)}.get(kind)
    return f and f[1](b(cli(f[0], san))[0])
