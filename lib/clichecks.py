"""Checks of the two command line programs, driven from Python (C01, S07, S08, Q06)."""
import bisect, itertools, math, os, random, re, resource, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
import vbuild, vcheck
from vbuild import ENV

# ------------------------------------------------------------------ primes
LIM = 3000000
_s = bytearray([1]) * (LIM + 1)
_s[0] = _s[1] = 0
for _i in range(2, int(LIM ** 0.5) + 1):
    if _s[_i]:
        _s[_i * _i::_i] = bytes(len(range(_i * _i, LIM + 1, _i)))
PR = [i for i in range(LIM + 1) if _s[i]]
PS = list(itertools.accumulate(PR, initial=0))
BASES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)

def is_prime(n):
    if n <= LIM:
        return n >= 0 and _s[n] == 1
    for p in PR[:150]:
        if n % p == 0:
            return False
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in BASES:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True

def primes(a, b):
    """primes in [a, b]"""
    if a > b:
        return []
    if b <= LIM:
        return PR[bisect.bisect_left(PR, a):bisect.bisect_right(PR, b)]
    a = max(a, 2)
    n = b - a + 1
    c = bytearray([1]) * n
    top = min(int(b ** 0.5) + 2, 60000 if b > LIM * LIM else LIM)
    for p in PR:
        if p > top:
            break
        s = max(p * p, (a + p - 1) // p * p) - a
        if s < n:
            c[s::p] = bytes(len(range(s, n, p)))
    r = [a + i for i in range(n) if c[i]]
    if top * top <= b:
        r = [x for x in r if is_prime(x)]
    return r

def prime_sum(x):
    return PS[bisect.bisect_right(PR, x)] if x >= 2 else 0

PATTERNS = {1: [(0,)], 2: [(0, 2)], 3: [(0, 2, 6), (0, 4, 6)], 4: [(0, 2, 6, 8)], 5: [(0, 2, 6, 8, 12), (0, 4, 6, 10, 12)], 6: [(0, 4, 6, 10, 12, 16)]}
TEXT = {1: "Primes", 2: "Twin primes", 3: "Prime triplets", 4: "Prime quadruplets", 5: "Prime quintuplets", 6: "Prime sextuplets"}

def tuplets(ps, k):
    r = []
    for i in range(len(ps) - k + 1):
        for pat in PATTERNS[k]:
            if all(ps[i + j] - ps[i] == pat[j] for j in range(k)):
                r.append(tuple(ps[i:i + k]))
                break
    return r

# ------------------------------------------------------------------ numbers as expressions
def spell(r, n, t_max):
    """an expression whose value is n, all intermediate values fit [0, t_max]"""
    k = r.randrange(12)
    if k < 4 or n < 0:
        return str(n)
    if k == 4:
        return hex(n) if r.random() < 0.5 else "0X%X" % n
    if k == 5:
        d = r.randrange(n + 1)
        return "%d+%d" % (d, n - d)
    if k == 6 and n < t_max // 2:
        d = r.randrange(1 + min(n, 10 ** r.randrange(10)))
        return "%d-%d" % (n + d, d)
    if k == 7:
        e = r.randrange(1, 20)
        if n >= 10 ** e:
            return "%de%d+%d" % (n // 10 ** e, e, n % 10 ** e) if n % 10 ** e else "%dE%d" % (n // 10 ** e, e)
    if k == 8:
        b = r.randrange(2, 50)
        e = 1
        while b ** (e + 1) <= n:
            e += 1
        if b ** e <= n:
            return "%d%s%d+%d" % (b, r.choice(["^", "**"]), e, n - b ** e)
    if k == 9:
        q = r.randrange(1, 1000)
        return "%d*%d+%d" % (n // q, q, n % q)
    if k == 10 and n < 1 << 60:
        return "%d+(%d)*1" % (n % 7, n - n % 7) if r.random() < 0.5 else "%d %% %d" % (n, n + 1 + r.randrange(50))
    if k == 11:
        s = r.randrange(1, 8)
        return "((%d << %d) | %d)" [1 if True else 0:-1] % (n >> s, s, n & ((1 << s) - 1))
    return "%s%d" % ("0" * r.randrange(1, 4), n)

BAD_NUMBERS = ["", "abc", "1x", "5+", "*3", "1e", "3/0", "7%0", "(5", "5)", "1 2", "0x", "12.5", "1,000", "2^", "--", "1<2", "5!", "1e5e", "10 mod 3", "0xg", "1..2", "+", "²"]

# ------------------------------------------------------------------ running
def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def run(cmd, timeout=100, mem=12 << 30):
    e = dict(ENV)
    if "-sancli" in os.path.basename(cmd[0]):
        # the address space of ASan programs cannot be limited
        mem = None
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=97"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, preexec_fn=limits(mem) if mem else None)
    try:
        o, er = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", "no result after %d seconds" % timeout
    rc, o, er = p.returncode, o.decode(errors="replace"), er.decode(errors="replace")
    if mem is None and ("runtime error:" in er or "Sanitizer" in er):
        return -97, o, er[:2500]
    return rc, o, er

class Oracle:
    """clioracle.cpp, one process per thread"""
    def __init__(self, exe):
        self.exe, self.local = exe, threading.local()
    def ask(self, line):
        if not hasattr(self.local, "p"):
            self.local.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=ENV)
        p = self.local.p
        p.stdin.write((line + "\n").encode())
        p.stdin.flush()
        return int(p.stdout.readline())

def many(fn, cases, workers=8, cap=None):
    """fn(case) -> message or None; the first failing case in order, else None"""
    t0 = time.time()
    bad = []
    done = [0]
    def f(c):
        if bad or (cap and time.time() - t0 > cap):
            return None
        m = fn(c)
        done[0] += 1
        if m:
            bad.append((c, m))
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(f, cases))
    return (bad[0] if bad else None), done[0]

def shrink_list(fn, case, get, put):
    """removes elements of the list get(case) as long as fn(case) still fails"""
    cur = case
    i = 0
    while i < len(get(cur)):
        l = get(cur)
        t = put(cur, l[:i] + l[i + 1:])
        try:
            bad = t is not None and fn(t)
        except Exception:
            bad = None
        if bad:
            cur = t
        else:
            i += 1
    return cur

def decide(c, kind, fn, cases, rule, nontrivial=lambda x: True, labels=lambda x: (), workers=8, cap=None):
    cap = cap or c.q(150, 600)
    bad, n = many(fn, cases, workers, cap)
    for x in cases[:n]:
        c.count(kind, x, nontrivial(x), rule, labels(x))
    if n < len(cases) and not bad:
        c.truncated.append(kind)
    if bad:
        c.fail(kind, bad[0], bad[1], rerun=lambda: fn(bad[0]))

# ================================================================== primesum
FULL = [[], ["-d"], ["--deleglise_rivat"], ["--deleglise_rivat_parallel1"], ["-l"], ["--lmo"], ["--lmo1"], ["--lmo2"],
        ["--lmo3"], ["--lmo4"], ["--lmo5"], ["--lmo_parallel1"], ["--pi"]]
PARTS = ["P2", "S1", "S2_trivial", "S2_easy", "S2_hard"]

def gen_c01(r):
    """(argv, x, algorithm, alpha): a valid command line"""
    part = r.choice(PARTS) if r.random() < 0.45 else None
    alg = ["--" + part] if part else list(r.choice(FULL))
    small = part or (alg and alg[0] in ("--lmo1", "--lmo2", "--lmo3", "--lmo4", "--lmo5"))
    k = r.randrange(6)
    if k == 0:
        x = r.randrange(-3, 60)
    elif k == 1:
        x = r.randrange(20000)
    elif k == 2:
        x = int(10 ** r.uniform(0, 6)) + r.randrange(-2, 3)
    elif k == 3:
        b = r.randrange(2, 100)
        x = b ** r.randrange(1, 4) + r.randrange(-1, 2)
    elif small or r.random() < 0.5:
        x = int(10 ** r.uniform(3, 6.4))
    else:
        x = int(10 ** r.uniform(6, 10.5))
    alpha = None
    args = []
    num = spell(r, x, 2 ** 120)
    if num.startswith("-") or num.startswith("("):
        num = "--number=" + num
    elif r.random() < 0.25 and num[0].isdigit():
        num = "--number" + r.choice(["=", ""]) + num
    args.append(num)
    args += alg
    if r.random() < 0.5:
        alpha = r.choice([r.randrange(1, 20), r.uniform(1, 8), r.uniform(1, 300), r.randrange(1, 10 ** 9), 0, 0.5])
        a = "%d" % alpha if isinstance(alpha, int) else "%.*f" % (r.randrange(1, 7), alpha)
        alpha = float(a)
        args.append(r.choice(["-a", "-a=", "--alpha=", "--alpha"]) + a)
    if r.random() < 0.6:
        t = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 0, 100])
        args.append(r.choice(["-t", "-t=", "--threads=", "--threads"]) + spell_opt(r, t))
    st = tm = False
    if r.random() < 0.25:
        st = True
        args.append(r.choice(["-s", "--status", "-s%d" % r.randrange(8), "--status=%d" % r.randrange(8), "-s=%d" % r.randrange(6)]))
    if r.random() < 0.25:
        tm = True
        args.append("--time")
    r.shuffle(args)
    return dict(args=args, x=x, part=part, alpha=alpha, status=st, time=tm)

def gen_wide(r, k, big):
    """the parts of the formula for x > 2^63, with tuning factors for which they are cheap"""
    part = ("S2_trivial", "S1", "S2_easy", "S2_trivial", "S2_trivial", "S2_easy", "S1", "S2_trivial", "P2")[k % 9]
    lo = 2 ** 63
    hi = {"S1": 2 ** 67, "S2_easy": 2 ** 67, "P2": 3 * lo}.get(part, 10 ** 21)
    if part == "S2_trivial" and r.random() < 0.3:
        hi *= 100
    x = int(lo * math.exp(r.uniform(0, math.log(hi / lo))))
    if r.random() < 0.15:
        x = max(lo, r.choice([2 ** 63, 2 ** 64, 2 ** 65, 10 ** 19, 2097152 ** 3]) + r.randrange(-3, 4))
    huge_y = k == 0 or (big and part == "S2_trivial" and k % 20 == 0)
    if huge_y:
        x = r.randrange(2 ** 65, 2 ** 70)
    root = x ** (1 / 3)
    if huge_y:
        alpha = r.choice([2 ** 32 + r.randrange(1000), r.randrange(2 ** 32 - 1000, 2 ** 32 + 1000), r.randrange(2 ** 32, 45 * 10 ** 8)]) / root
        alpha = min(alpha, 0.999 * x ** (1 / 6))
    elif part == "S1":
        alpha = r.uniform(1, 1.3)
    elif part == "S2_easy":
        alpha = r.uniform(1.001, 1.03)
    elif part == "P2":
        alpha = math.sqrt(x) / root * r.uniform(0.6 if big else 0.9, 1.0)
    else:
        alpha = math.exp(r.uniform(0, math.log(3e8 / root)))
    a = "%.*f" % (r.randrange(3, 7) if alpha * root < 1e9 else 6, alpha)
    num = spell(r, x, 2 ** 120)
    args = [num if num[0].isdigit() else "--number=" + num, "--" + part, "-a" + a]
    if r.random() < 0.7:
        args.append("-t%d" % r.choice([1, 2, 3, 4, 5, 8, 16]))
    st = r.random() < 0.3
    if st:
        args.append("-s")
    r.shuffle(args)
    return dict(args=args, x=x, part=part, alpha=float(a), status=st, time=False, wide=True)

def spell_opt(r, n):
    return r.choice([str(n), str(n), "0%d" % n, "0x%x" % n, "%d*1" % n, "%d+%d" % (n - n // 2, n // 2)])

UNKNOWN = ["-x", "--foo", "--Pi", "-A3", "-td", "--threads=", "-t", "--alpha=x", "-a", "-a=", "--alpha", "--number=", "--number", "--S2", "--thread=4", "-q", "--P3",
           "--S2_Easy", "-D", "---", "-", "--", "--status=abc", "-s=", "-t4x", "-a-", "- 5", "=5", "--time=abc=", "-5", "--deleglise", "abc", "x=5"]
def gen_c01_bad(r):
    """a command line which must be refused"""
    good = ["-d", "-l", "--time", "-t2", "--threads=3", "-a4", "--P2", "--S1", "--lmo4", "-s"]
    args = [r.choice(good) for _ in range(r.randrange(3))]
    num = lambda: spell(r, r.randrange(1, 3000), 2 ** 120)
    k = r.randrange(4)
    if k == 0:
        pass                                    # no number
    elif k == 1:
        args += [n if n[0].isdigit() else "--number=" + n for n in (num() for _ in range(r.randrange(2, 5)))]
    elif k == 2:
        args += [str(r.randrange(2, 1000))]
        args.append(r.choice(["", "--number="]) + r.choice(BAD_NUMBERS))
        if r.random() < 0.5:
            args.remove(args[-2])
    else:
        # "-s=" and "--time=..." are harmless spellings
        args += [str(r.randrange(2, 1000)), r.choice([u for u in UNKNOWN if u not in ("-s=", "--time=abc=")])]
    r.shuffle(args)
    return dict(args=args)

NUM = re.compile(r"-?\d+$")
SECS = re.compile(r"Seconds: \d+\.\d{3}$")

def check_percent(out, decimals):
    """the percentages of every phase"""
    last = -1.0
    # a phase starts with its header
    for line in re.split(r"[\r\n]", out):
        if line.startswith("==="):
            last = -1.0
        m = re.match(r"\s*Status: (.*)%\s*$", line)
        if not m:
            if line.startswith("Status"):
                return "malformed status line %r" % line
            continue
        t = m.group(1)
        if t == "100":
            v = 100.0
        else:
            if decimals is not None and not re.fullmatch(r"\d+" + (r"\.\d{%d}" % decimals if decimals else ""), t):
                return "status %r does not have %d decimals" % (t, decimals)
            try:
                v = float(t)
            except ValueError:
                return "malformed status %r" % t
        if not 0 <= v <= 100:
            return "status %r is not between 0 and 100" % t
        if v < last:
            return "the status falls from %s to %s" % (last, v)
        last = v
    return None

def decimals_of(args):
    d = 0
    for a in args:
        m = re.fullmatch(r"(-s|--status)=?(\d*)", a)
        if m:
            if m.group(2):
                d = min(int(m.group(2)), 5)
    return d

def check_recombine(out, x):
    """the values printed on the way: pi(x) = S1 + S2 + pi(y) - 1 - P2, z = x / y"""
    t = out.replace("\r", "\n")
    if "pi(x) = S1 + S2 + pi(y) - 1 - P2" not in t:
        return None
    d = {k: int(v) for k, v in re.findall(r"^(P2|S1_sum|S1|S2_trivial|S2_easy|S2_hard|S2|y|z|x) = (-?\d+)$", t, re.M)}
    if "x" in d and d["x"] != x:
        return "x = %d is printed" % d["x"]
    if "y" not in d:
        return None
    if "z" in d and (d["y"] < 1 or d["z"] != x // d["y"]):
        return "y = %d, z = %d is printed" % (d["y"], d["z"])
    s1 = d.get("S1_sum", d.get("S1"))
    if "S2" in d:
        s2 = d["S2"]
    elif {"S2_trivial", "S2_easy", "S2_hard"} <= set(d):
        s2 = d["S2_trivial"] + d["S2_easy"] + d["S2_hard"]
    else:
        s2 = None
    res = [l for l in t.split("\n") if NUM.fullmatch(l)]
    if s1 is not None and s2 is not None and "P2" in d and len(res) == 1 and d["y"] <= LIM:
        v = s1 + s2 + prime_sum(d["y"]) - 1 - d["P2"]
        if v != int(res[0]):
            return "the printed y = %d, S1 = %d, S2 = %d, P2 = %d make %d, not the printed %s" % (d["y"], s1, s2, d["P2"], v, res[0])
    return None

def run_c01(exe, oracle):
    def fn(case):
        x = case["x"]
        if case["part"]:
            want = oracle.ask("%s %s %d %r" % ("wide" if case.get("wide") else "part", case["part"], x, case["alpha"] if case["alpha"] is not None else -1.0))
        elif x <= LIM:
            want = prime_sum(x)
        else:
            want = oracle.ask("sum %d" % x)
        rc, out, err = run([exe] + case["args"])
        cmd = "primesum " + " ".join("'%s'" % a if re.search(r"[^\w=.+-]", a) or not a else a for a in case["args"])
        if rc != 0:
            return "%s: exit status %s %s%s" % (cmd, rc, err[:300], out[:200])
        if err:
            return "%s: prints %r on standard error" % (cmd, err[:200])
        if not case["status"]:
            lines = out.split("\n")
            if lines[0] != str(want):
                return "%s: prints %r instead of %d" % (cmd, lines[0], want)
            rest = lines[1:]
            if case["time"]:
                if len(rest) != 2 or not SECS.match(rest[0]) or rest[1]:
                    return "%s: prints %r after the result" % (cmd, rest)
            elif rest != [""]:
                return "%s: prints %r after the result" % (cmd, rest)
            return None
        # progress output: the result is printed as before (complete sums), or as "NAME = result"
        m = check_percent(out, decimals_of(case["args"]))
        if m:
            return cmd + ": " + m
        lines = [l for l in re.split(r"[\r\n]", out) if l.strip()]
        if case["part"] and x >= 1:
            got = [l for l in lines if re.match(r"(P2|S1|S1_sum|S2_\w+) = ", l)]
            if len(got) != 1 or got[0].split(" = ")[1] != str(want):
                return "%s: prints %r instead of %d" % (cmd, got, want)
        else:
            got = [l for l in lines if NUM.fullmatch(l)]
            if got != [str(want)]:
                return "%s: prints %r instead of %d" % (cmd, got, want)
            if not SECS.match(lines[-1]):
                return "%s: no elapsed time at the end: %r" % (cmd, lines[-1])
            m = check_recombine(out, x)
            if m:
                return cmd + ": " + m
        return None
    return fn

def run_c01_bad(exe):
    def fn(case):
        rc, out, err = run([exe] + case["args"], timeout=60)
        cmd = "primesum " + " ".join("'%s'" % a if re.search(r"[^\w=.+-]", a) or not a else a for a in case["args"])
        if rc is None or rc <= 0:
            return "%s: must be refused but the exit status is %s, output %r %s" % (cmd, rc, out[:200], err if rc == -97 else "")
        for l in re.split(r"[\r\n]", out):
            if NUM.fullmatch(l):
                return "%s: must be refused but prints %s" % (cmd, l)
        if "Usage: primesum" not in out + err:
            return "%s: no help text: %r %r" % (cmd, out[:200], err[:200])
        return None
    return fn

def C01(c, exe, oracle_exe, nolib):
    o = Oracle(oracle_exe)
    r = random.Random("C01-%d" % c.seed)
    cases = [gen_c01(r) for _ in range(c.q(4000, 40000))]
    decide(c, "cli.valid", run_c01(exe, o), cases, "x >= 2", lambda x: x["x"] >= 2,
           lambda x: ([x["part"]] if x["part"] else ["complete sum"]) + (["status"] if x["status"] else []) + (["alpha"] if x["alpha"] is not None else []))
    cases = [gen_c01(r) for _ in range(c.q(800, 6000))]
    decide(c, "cli.valid.nolibdivide", run_c01(nolib, o), cases, "x >= 2", lambda x: x["x"] >= 2)
    cases = [gen_wide(r, k, c.tier != "quick") for k in range(c.q(45, 600))]
    decide(c, "cli.wide", run_c01(exe, o), cases, "every case", labels=lambda x: [x["part"]] + (["x >= 2^64"] if x["x"] >> 64 else []) +
           (["y > 4.2*10^9"] if x["x"] ** (1 / 3) * x["alpha"] > 4.2e9 else []))
    cases = [gen_c01_bad(r) for _ in range(c.q(2500, 20000))]
    decide(c, "cli.invalid", run_c01_bad(exe), cases, "every case")

# ------------------------------------------------------------------ S07
def alpha_of(x, alpha):
    """the clamped tuning factor for an alpha >= 1 from the command line"""
    r = round(x ** (1.0 / 6))
    while r ** 6 > x:
        r -= 1
    while (r + 1) ** 6 <= x:
        r += 1
    return max(1.0, min(alpha, float(r)))

def accepted(exe, args, secs=20):
    """("yes", output up to the first header), ("no", message)"""
    e = dict(ENV)
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, preexec_fn=limits(24 << 30))
    out = b""
    t = threading.Timer(secs, p.kill)
    t.start()
    hdr = False
    try:
        # wait for the header of the computation and the variables
        while True:
            l = p.stdout.readline()
            if not l:
                break
            out += l
            if l.startswith(b"threads = ") or (hdr and l.startswith(b"===")):
                break
            if l.startswith(b"==="):
                hdr = True
                if b"lmo1" in l:
                    break
        else:
            pass
        if hdr:
            p.kill()
    finally:
        t.cancel()
    err = p.stderr.read().decode(errors="replace") if not hdr else ""
    p.kill()
    p.stdout.close(); p.stderr.close()
    rc = p.wait()
    out = out.decode(errors="replace")
    if hdr:
        return "yes", out, rc
    return "no", err + out, rc

ALG63 = ["-l", "--lmo", "--lmo2", "--lmo3", "--lmo4", "--lmo5", "--lmo_parallel1"]
ALGBIG = [[], ["-d"], ["--pi"], ["--deleglise_rivat_parallel1"], ["--P2"], ["--S1"], ["--S2_trivial"], ["--S2_easy"], ["--S2_hard"]]

def gen_s07(r):
    k = r.randrange(10)
    if k < 3:
        alg = [r.choice(ALG63 + ["--lmo1"])]
        x = r.choice([2 ** 63 + r.randrange(-5, 6), 2 ** 63 - 1, 2 ** 63, int(2 ** r.uniform(64, 126)), int(2 ** r.uniform(55, 64)), 2 ** 64 + r.randrange(10 ** 6), 2 ** 126 + 1])
        if alg == ["--lmo1"] and x < 2 ** 63:
            x += 2 ** 63
        return dict(alg=alg, x=x, alpha=None)
    alg = r.choice(ALGBIG)
    if k < 8:
        alpha = r.choice([1, 1, 2, 10, r.randrange(1, 3000), round(r.uniform(1, 20), 3), 10 ** r.randrange(1, 8), 3.5])
        lim = (2.0 ** 61 * alpha) ** 1.5
        x = r.choice([int(lim * r.uniform(0.5, 1.5)), int(lim * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-8, -1))), int(10 ** r.uniform(25, 37.5)), int(lim * 10 ** r.uniform(0, 4)), 2 ** 126 + r.randrange(2 ** 125)])
    else:
        alpha = None
        x = r.choice([int(10 ** r.uniform(20, 30.7)), 10 ** r.randrange(20, 31), int(10 ** r.uniform(32, 37.5)), 2 ** 127 - 1 - r.randrange(1000), 2 ** r.randrange(108, 127)])
    return dict(alg=alg, x=min(max(x, 10 ** 19), 2 ** 127 - 1), alpha=alpha)

def run_s07(exe):
    def fn(case):
        x = case["x"]
        a = [] if case["alpha"] is None else ["-a%s" % case["alpha"]]
        cmd = " ".join(["primesum", str(x)] + case["alg"] + a)
        got, text, rc = accepted(exe, [str(x), "-s"] + case["alg"] + a)
        m = re.search(r"x must be <= (\d+)", text)
        if case["alg"] and case["alg"][0] in ALG63 + ["--lmo1"]:
            if x >= 2 ** 63:
                if got != "no" or rc <= 0 or "x must be < 2^63" not in text:
                    return "%s: accepted or refused without naming the limit: %s %r" % (cmd, rc, text[:300])
            elif got != "yes":
                return "%s: refused: %s %r" % (cmd, rc, text[:300])
            return None
        if got == "no" and (rc <= 0 or not m):
            return "%s: no message about the limit: exit status %s %r" % (cmd, rc, text[:300])
        if got == "no" and x <= int(m.group(1)):
            return "%s: refused although x <= the limit in its message: %r" % (cmd, text[:300])
        if case["alpha"] is not None:
            lim = (2.0 ** 61 * alpha_of(x, float(case["alpha"]))) ** 1.5
            if got == "yes" and x > lim * (1 + 1e-9):
                return "%s: accepted although the limit is %d" % (cmd, lim)
            if got == "no" and x < lim * (1 - 1e-9):
                return "%s: refused although the limit is %d: %r" % (cmd, lim, text[:300])
            if got == "no" and abs(int(m.group(1)) - lim) > lim * 1e-9:
                return "%s: the message names the limit %s instead of %d" % (cmd, m.group(1), lim)
        if got == "yes":
            d = dict(re.findall(r"^(x|y|z) = (-?\d+)", text, re.M))
            if d:
                if int(d["x"]) != x:
                    return "%s: computes x = %s" % (cmd, d["x"])
                if "z" in d and "y" in d and not 0 <= x // int(d["y"]) < 2 ** 62:
                    return "%s: accepted but z = x / y = %d is not < 2^62" % (cmd, x // int(d["y"]))
                if "z" in d and "y" in d and int(d["z"]) != x // int(d["y"]):
                    return "%s: z = %s is not x / y" % (cmd, d["z"])
        return None
    return fn

def gen_s07_edge(r):
    return dict(alg=r.choice(ALGBIG), alpha=r.choice([1, 2, 3, 7, 10, 100, 200, 1000, 1.5, 2.25, round(r.uniform(1, 2000), r.randrange(4))]))
def run_s07_edge(exe):
    """x = the reported limit is accepted, one more is refused, a larger alpha allows more"""
    def fn(case):
        al = lambda a: ["-a%s" % a]
        def limit(a):
            got, text, rc = accepted(exe, [str(2 ** 126), "-s"] + case["alg"] + al(a))
            m = re.search(r"x must be <= (\d+)", text)
            return int(m.group(1)) if got == "no" and m else None
        a = case["alpha"]
        L = limit(a)
        if L is None:
            return "primesum 2^126 %s: not refused" % " ".join(case["alg"] + al(a))
        got, text, rc = accepted(exe, [str(L), "-s"] + case["alg"] + al(a))
        if got != "yes":
            return "primesum %d %s: refused: %r" % (L, " ".join(case["alg"] + al(a)), text[:300])
        got, text, rc = accepted(exe, [str(L + 1), "-s"] + case["alg"] + al(a))
        if got != "no":
            return "primesum %d %s: accepted although the limit is %d" % (L + 1, " ".join(case["alg"] + al(a)), L)
        M = limit(a * 1.01)
        if M is None or M <= L:
            return "the limit for alpha %s is %s, for alpha %s it is %s (%s)" % (a, L, a * 1.01, M, case["alg"])
        return None
    return fn

# the number does not fit the 128-bit type
def gen_s07_over(r):
    k = r.randrange(4)
    if k == 0:
        return dict(expr="1e%d" % r.randrange(39, 80))
    if k == 1:
        return dict(expr="%d^%d" % (r.choice([2, 4, 8, 16]), r.randrange(127, 400)))
    if k == 2:
        return dict(expr=str(r.randrange(2 ** 127, 2 ** 140)))
    return dict(expr="%d*%d" % (r.randrange(2 ** 64, 2 ** 126), r.randrange(2 ** 64, 2 ** 100)))
def value(expr):
    return int(eval(re.sub(r"(\d+)e(\d+)", r"(\1*10**\2)", expr).replace("^", "**")))
def wrap128(n):
    n %= 2 ** 128
    return n - 2 ** 128 if n >= 2 ** 127 else n

def S07(c, exe):
    r = random.Random("S07-%d" % c.seed)
    decide(c, "limit.x", run_s07(exe), [gen_s07(r) for _ in range(c.q(700, 8000))], "every case", labels=lambda x: [" ".join(x["alg"]) or "default"])
    decide(c, "limit.edge", run_s07_edge(exe), [gen_s07_edge(r) for _ in range(c.q(60, 800))], "every case")
    # documented: x <= 10^31
    got, text, rc = accepted(exe, ["10^31", "-s"])
    c.count("limit.documented", "10^31", True, "every case")
    if got == "no":
        if not (re.search(r"x must be <= (\d+)", text) and rc > 0 and c.known("documented-limit")):
            c.fail("limit.documented", dict(x=10 ** 31), "primesum 1e31 is refused although 10^31 is documented: " + text[:300])
    # numbers which do not fit 128 bits
    n = 0
    for _ in range(c.q(100, 1000)):
        case = gen_s07_over(r)
        v = wrap128(value(case["expr"]))
        got, text, rc = accepted(exe, [case["expr"], "-s"])
        if got == "no" and rc > 0:
            c.count("limit.overflow", case, True, "every case")
            continue
        # the listed finding: the program computes with the number modulo 2^128
        d = dict(re.findall(r"^(x) = (-?\d+)", text, re.M))
        listed = (got == "yes" and "x" in d and int(d["x"]) == v) or (v < 2 and rc == 0)
        if listed and c.known("overflow"):
            n += 1
            c.count("limit.overflow", case, False, "every case")
            continue
        c.fail("limit.overflow", case, "primesum %s: accepted although x > 2^127: %r" % (case["expr"], text[:200]))
    if n:
        c.excluded["overflow"] = n

# ------------------------------------------------------------------ S08 (command line part)
def gen_s08(r):
    alg = r.choice([[], ["-d"], ["-l"], ["--lmo_parallel1"], ["--P2"], ["--S2_easy"], ["--S2_hard"], ["--S1"], ["--S2_trivial"], ["--lmo5"]])
    x = int(10 ** r.uniform(6, 11.5 if alg[:1] in (["-l"], ["--lmo_parallel1"], ["--lmo5"]) else 14.3))
    if alg == ["--lmo5"]:
        x = int(10 ** r.uniform(5, 10))
    n = r.choice(["", "0", "1", "2", "3", "5", "9"])
    s = r.choice(["-s" + n, "--status" + ("=" + n if n else "")])
    a = ["-a%d" % r.randrange(1, 60)] if r.random() < 0.3 else []
    return dict(args=[str(x), "-t%d" % r.choice([1, 2, 4, 8])] + alg + a, status=s, x=x)
def run_s08(exe):
    def fn(case):
        rc, plain, err = run([exe] + case["args"])
        rc2, out, err2 = run([exe] + case["args"] + [case["status"]])
        rc3, tim, err3 = run([exe] + case["args"] + ["--time"])
        cmd = " ".join(["primesum"] + case["args"] + [case["status"]])
        if rc != 0 or rc2 != 0 or rc3 != 0:
            return "%s: exit status %s without, %s with status output, %s with --time" % (cmd, rc, rc2, rc3)
        want = plain.strip()
        m = check_percent(out, decimals_of([case["status"]]))
        if m:
            return cmd + ": " + m
        got = [l.split(" = ")[-1] for l in re.split(r"[\r\n]", out) if NUM.fullmatch(l) or re.match(r"(P2|S1|S1_sum|S2_\w+) = ", l)]
        if not got or got[-1] != want:
            return "%s: prints %s instead of %s" % (cmd, got[-1:], want)
        m = check_recombine(out, case["x"])
        if m:
            return cmd + ": " + m
        if tim.split("\n")[0] != want or not SECS.match(tim.split("\n")[1]):
            return "%s: prints %r with --time instead of %s" % (cmd, tim, want)
        return None
    return fn
def S08(c, exe):
    r = random.Random("S08-%d" % c.seed)
    decide(c, "status.cli", run_s08(exe), [gen_s08(r) for _ in range(c.q(150, 2000))], "x >= 10^9", lambda x: x["x"] >= 10 ** 9, workers=4)

# ================================================================== primesieve
def gen_interval(r):
    k = r.randrange(8)
    if k < 3:
        a = r.randrange(0, 300)
    elif k == 3:
        a = r.randrange(LIM)
    elif k == 4:
        a = int(10 ** r.uniform(6, 13))
    elif k == 5:
        a = 2 ** r.randrange(10, 44) + r.randrange(-200, 200)
    elif k == 6:
        a = int(10 ** r.uniform(12, 15))
    else:
        a = 30 * r.randrange(10 ** 9) + r.randrange(-3, 4)
    a = max(a, 0)
    w = r.choice([0, 1, 2, r.randrange(10), r.randrange(100), r.randrange(2000), r.randrange(20000)])
    if r.random() < 0.02:
        b = 2 ** 64 - 1 - r.choice([0, 0, r.randrange(100)])
        a = b - r.randrange(2000)
        w = b - a
    return a, a + w

def gen_q06(r):
    mode = r.choice(["count", "count", "print", "print", "nth", "default", "printcount"])
    a, b = gen_interval(r)
    args = []
    opts = []
    case = dict(mode=mode)
    num = lambda n: ((lambda s: s if s[0] != "-" else str(n))(spell(r, n, 2 ** 64 - 1)))
    def number(n):
        s = num(n)
        q = r.random()
        return ["--number=" + s] if q < 0.1 else ["--number", s] if q < 0.15 else [s]
    if mode == "nth":
        n = r.choice([1, 2, 3, r.randrange(1, 100), r.randrange(1, 4000)])
        a = a if a < 2 ** 60 else a % 10 ** 12
        case.update(n=n, start=a if r.random() < 0.7 else None)
        if case["start"] is not None and case["start"] == 0:
            case["start"] = None
        nums = number(n) + (number(a) if case["start"] is not None else [])
        opts.append([r.choice(["-n", "--nth-prime", "--nthprime"])])
    else:
        k = r.randrange(5)
        if k == 0 and b <= LIM:
            a = 0
            nums = number(b)
        elif k == 1:
            nums = number(a) + r.choice([["-d", num(b - a)], ["-d%s" % (b - a)], ["-d=" + num(b - a)], ["--dist=" + num(b - a)], ["--dist", num(b - a)]])
        elif k == 2 and b - a < 30000 and b < 30000:
            a = 0
            nums = ["--dist=%d" % b]
        else:
            nums = number(a) + number(b)
        if r.random() < 0.03 and k > 2 and b > a:
            a, b = b, a
            nums = number(a) + number(b)
        case.update(start=a, stop=b)
        cnt = set()
        if mode in ("count", "printcount"):
            ds = [r.randrange(1, 7) for _ in range(r.choice([1, 1, 1, 2, 3, 6]))]
            cnt |= set(ds)
            d = "".join(map(str, ds))
            opts.append(r.choice([["-c" + d], ["--count=" + d], ["-c=" + d], ["-c", d], ["--count", d]]))
            if ds == [1] and r.random() < 0.5:
                opts[-1] = [r.choice(["-c", "--count"])]
            if r.random() < 0.1:
                k = r.randrange(1, 7)
                cnt.add(k)
                opts.append(["--count=%d" % k])
        case["count"] = sorted(cnt)
        if mode in ("print", "printcount"):
            k = r.randrange(1, 7)
            case["print"] = k
            o = r.choice([["-p%d" % k], ["--print=%d" % k], ["-p=%d" % k], ["-p", str(k)], ["--print", str(k)]])
            if k == 1 and r.random() < 0.4:
                o = [r.choice(["-p", "--print"])]
            opts.append(o)
        if mode == "default":
            case["count"] = [1]
    quiet = r.random() < 0.5
    if quiet:
        opts.append([r.choice(["-q", "--quiet"])])
    case["quiet"] = quiet or mode in ("print", "printcount")
    case["time"] = False
    if r.random() < 0.2:
        opts.append(["--time"])
        case["time"] = True
    case["status"] = True
    if r.random() < 0.3:
        opts.append(["--no-status"])
        case["status"] = False
    if r.random() < 0.4:
        t = r.choice([1, 2, 3, 8, 64])
        opts.append(r.choice([["-t%d" % t], ["-t", str(t)], ["--threads=%d" % t], ["--threads", spell_opt(r, t)]]))
    case["size"] = None
    if r.random() < 0.4:
        s = r.choice([8, 16, 32, 100, 512, 4096, 1, 9000])
        case["size"] = s
        opts.append(r.choice([["-s%d" % s], ["-s", str(s)], ["--size=%d" % s], ["--size", spell_opt(r, s)]]))
    # options may stand anywhere, an option without its optional value must not stand before a number
    r.shuffle(opts)
    flat = [nums] if "-d" in nums[0:0] else [nums]
    head = []
    tail = []
    for o in opts:
        optional = o[-1] in ("-c", "--count", "-p", "--print")
        (tail if optional or r.random() < 0.5 else head).append(o)
    args = [x for o in head for x in o] + nums + [x for o in tail for x in o]
    case["args"] = args
    return case

def strip_sieve(case, lines, cmd):
    """checks and removes settings, progress and elapsed time: (lines left, None) or (None, message)"""
    if not case["quiet"]:
        if len(lines) < 2 or not re.fullmatch(r"Sieve size = \d+ KiB", lines[0]) or not re.fullmatch(r"Threads = \d+", lines[1]):
            return None, "%s: starts with %r" % (cmd, lines[:2])
        if case["size"]:
            e = 8
            while e * 2 <= case["size"] and e < 4096:
                e *= 2
            if lines[0] != "Sieve size = %d KiB" % e:
                return None, "%s: %s" % (cmd, lines[0])
        lines = lines[2:]
        if case["mode"] != "nth" and case["status"]:
            # progress: 0% ... 100%, never falling
            if not lines:
                return None, "%s: no output" % cmd
            if lines[0] and "%" in lines[0]:
                last = -1
                for t in lines[0].split("\r"):
                    if not t.strip():
                        continue
                    m = re.fullmatch(r"(\d+)%\s*", t)
                    if not m or int(m.group(1)) > 100 or int(m.group(1)) < last:
                        return None, "%s: status %r" % (cmd, lines[0])
                    last = int(m.group(1))
                lines = lines[1:]
    secs = [l for l in lines if l.startswith("Seconds: ")]
    if (case["time"] or not case["quiet"]) and (len(secs) != 1 or not SECS.match(secs[0])):
        return None, "%s: elapsed time %r" % (cmd, secs)
    if not case["time"] and case["quiet"] and secs:
        return None, "%s: prints the elapsed time %r" % (cmd, secs)
    lines = [l for l in lines if not l.startswith("Seconds: ")]
    return lines, None

def run_q06(exe):
    def fn(case):
        rc, out, err = run([exe] + case["args"], timeout=100)
        cmd = "primesieve " + " ".join("'%s'" % a if re.search(r"[^\w=.+-]", a) or not a else a for a in case["args"])
        if rc != 0:
            return "%s: exit status %s %s" % (cmd, rc, err[:300])
        want = []
        if case["mode"] == "nth":
            s = case["start"] or 0
            n, hi = case["n"], s + 1
            ps = []
            w = max(1000, int(n * 40))
            while len(ps) < n:
                q = primes(hi, hi + w)
                ps += q
                hi += w + 1
            want = ["Nth prime: %d" % ps[n - 1]]
        else:
            ps = primes(case["start"], case["stop"])
            if case.get("print"):
                k = case["print"]
                want += [str(p[0]) if k == 1 else "(" + ", ".join(map(str, p)) + ")" for p in tuplets(ps, k)]
            for k in case["count"]:
                want.append("%s: %d" % (TEXT[k], len(tuplets(ps, k))))
        body = out
        head = []
        lines = body.split("\n")
        if lines[-1] != "":
            return "%s: the last line is not ended: %r" % (cmd, lines[-1][-80:])
        lines.pop()
        lines, m = strip_sieve(case, lines, cmd)
        if m:
            return m
        if lines != want:
            i = 0
            while i < min(len(lines), len(want)) and lines[i] == want[i]:
                i += 1
            return "%s: line %d is %r instead of %r (%d lines instead of %d)" % (cmd, i + 1, lines[i:i + 1], want[i:i + 1], len(lines), len(want))
        return None
    return fn

def odd_sieve(a, b):
    """the odd primes of [a, b], a odd, as bytes (one per odd number)"""
    n = (b - a) // 2 + 1
    s = bytearray([1]) * n
    for q in PR[1:]:
        if q * q > b:
            break
        m = max(q * q, -(-a // q) * q)
        if m % 2 == 0:
            m += q
        i = (m - a) // 2
        if i < n:
            s[i::q] = bytes(len(range(i, n, q)))
    if a == 1:
        s[0] = 0
    return bytes(s)

def gen_q06_wide(r):
    """intervals for several threads and many segments"""
    a = r.choice([0, 0, r.randrange(10 ** 6), r.randrange(10 ** 9), r.randrange(8 * 10 ** 12)])
    b = a + r.randrange(10 ** 7, 6 * 10 ** 7)
    case = dict(mode="wide", start=a, stop=b, print=None, count=[])
    opts = []
    if r.random() < 0.65:
        case["print"] = r.randrange(3, 7)
        opts.append("-p%d" % case["print"])
    if not case["print"] or r.random() < 0.3:
        case["count"] = sorted(set(r.randrange(1, 7) for _ in range(r.randrange(1, 5))))
        opts.append("-c" + "".join(map(str, case["count"])))
    if r.random() < 0.8:
        opts.append("-t%d" % r.choice([2, 2, 3, 4, 5, 8]))
    if r.random() < 0.4:
        opts.append("-s%d" % r.choice([8, 16, 64, 128, 1024, 4096]))
    nums = [str(a), str(b)] if a or r.random() < 0.5 else [str(b)]
    r.shuffle(opts)
    k = r.randrange(len(opts) + 1)
    case.update(quiet=bool(case["print"]) or r.random() < 0.3, time=r.random() < 0.2, status=r.random() < 0.9, size=None)
    extra = (["-q"] if case["quiet"] and not case["print"] else []) + (["--time"] if case["time"] else []) + ([] if case["status"] else ["--no-status"])
    case["args"] = opts[:k] + nums + opts[k:] + extra
    return case

def run_q06_wide(exe):
    def fn(case):
        a, b = case["start"], case["stop"]
        cmd = "primesieve " + " ".join(case["args"])
        rc, out, err = run([exe] + case["args"], timeout=100)
        if rc != 0:
            return "%s: exit status %s %s" % (cmd, rc, err[:300])
        lo = a | 1
        s = odd_sieve(lo, b)
        def found(k):
            """the tuplets, in order of their first prime"""
            r = []
            for pat in PATTERNS[k]:
                e = [b"."] * (pat[-1] // 2 + 1)
                for d in pat:
                    e[d // 2] = b"\x01"
                r += [(lo + 2 * m.start(), pat) for m in re.finditer(b"(?=" + b"".join(e) + b")", s, re.S)]
            # below 100: the definition
            t = [p for p in tuplets([q for q in PR[:60] if a <= q <= b], k) if p[0] < 100]
            return t + [tuple(p + d for d in pat) for p, pat in sorted(r) if p >= 100]
        want = []
        if case["print"]:
            want = ["(" + ", ".join(map(str, p)) + ")" for p in found(case["print"])]
        for k in case["count"]:
            n = s.count(1) + (1 if a <= 2 <= b else 0) if k == 1 else len(found(k))
            want.append("%s: %d" % (TEXT[k], n))
        lines = out.split("\n")
        if lines.pop() != "":
            return "%s: the last line is not ended" % cmd
        lines, m = strip_sieve(case, lines, cmd)
        if m:
            return m
        if lines != want:
            i = 0
            while i < min(len(lines), len(want)) and lines[i] == want[i]:
                i += 1
            return "%s: line %d is %r instead of %r (%d lines instead of %d)" % (cmd, i + 1, lines[i:i + 1], want[i:i + 1], len(lines), len(want))
        return None
    return fn

SBAD = ["--foo", "--foo=5", "-x=1", "-x", "-c7", "-c18", "--count=9", "-p7", "-p0", "--print=0", "--print=x", "-t", "--threads", "--threads=", "-s", "--size=", "-d", "--dist=", "--dist=x", "-t=a", "--Count", "-C", "--number=", "--", "---", "-1", "-5",
        "--threads=1x", "-k3", "--number=x", "--dist=5/0", "-c=1a", "--no-statu", "-d=1..5", "-p12"]
def gen_q06_bad(r):
    args = [str(r.randrange(1, 5000)) for _ in range(r.randrange(1, 3))]
    k = r.randrange(5)
    if k == 0:
        args = [r.choice(["-c", "-p", "-n", "-q", "-t2", "--time", "-s64", "--no-status"]) for _ in range(r.randrange(1, 3))]     # no number
    elif k == 1:
        a = r.randrange(1, 2 ** 64)
        d = 2 ** 64 - a + r.choice([0, 1, r.randrange(2 ** 40)])
        if d >= 2 ** 64:
            d = 2 ** 64 - 1
        if a + d < 2 ** 64:
            a = 2 ** 64 - d
        args = [str(a)] + r.choice([["-d", str(d)], ["--dist=%d" % d]])                                                     # start + dist >= 2^64
    elif k == 2:
        bad = r.choice([b for b in BAD_NUMBERS if b not in ("+",)])
        args.insert(r.randrange(len(args) + 1), bad)
    elif k == 3 and r.random() < 0.2:
        args = [str(r.choice([2 ** 63, 2 ** 64 - 1, 2 ** 64 - r.randrange(1, 100), r.randrange(2 ** 63, 2 ** 64)])), str(r.randrange(10 ** 6)), "-n"]
    elif k == 3 and r.random() < 0.06:
        n = r.choice([2 ** 64 - 1, 2 ** 64 - 59, 2 ** 64 - 58, 2 ** 64 - 57])
        args = [str(r.randrange(2 if n <= 2 ** 64 - 60 else 1, 30)), str(n), "-n"]                                          # no such prime
    else:
        args.append(r.choice(SBAD))
    return dict(args=args)
def run_q06_bad(exe):
    def fn(case):
        rc, out, err = run([exe] + case["args"], timeout=100)
        cmd = "primesieve " + " ".join("'%s'" % a if re.search(r"[^\w=.+-]", a) or not a else a for a in case["args"])
        if rc is None or rc <= 0:
            return "%s: must be refused but the exit status is %s: %r %s" % (cmd, rc, out[:200], err if rc == -97 else "")
        if not err.strip() and "Usage" not in out:
            return "%s: no error message" % cmd
        for l in out.split("\n"):
            if re.match(r"(Primes|Twin primes|Prime \w+|Nth prime): \d+$", l) or NUM.fullmatch(l) or l.startswith("("):
                return "%s: must be refused but prints %r" % (cmd, l)
        return None
    return fn

def gen_q06_huge(r, k):
    """counts above 2^32 and n above 2^31, from the known numbers of primes below 2^37 and 10^11"""
    opts = r.choice([[], [], ["-t8"], ["-s%d" % r.choice([16, 64, 512])]])
    if k % 2:
        return dict(mode="nth", off=r.randrange(-40, 40), opts=opts)
    return dict(mode="count", start=r.randrange(3), off=r.randrange(0, 300), opts=opts)

def run_q06_huge(exe):
    def fn(case):
        if case["mode"] == "count":
            y = 2 ** 37 + case["off"]
            want = "Primes: %d" % (5586502348 + sum(is_prime(q) for q in range(2 ** 37 + 1, y + 1)))
            args = [str(case["start"]), str(y)]
        else:
            n, q = 4118054813, 10 ** 11
            while n < 4118054813 + case["off"]:
                q += 1
                n += is_prime(q)
            if case["off"] <= 0:
                n, q = 4118054814, 10 ** 11 + 3
                while n > 4118054813 + case["off"]:
                    q -= 1
                    n -= is_prime(q)
            want = "Nth prime: %d" % q
            args = [str(n), "-n"]
        args += case["opts"]
        rc, out, err = run([exe] + args + ["--no-status"], timeout=250)
        if rc != 0 or want not in out.split("\n"):
            return "primesieve %s: exit status %s, prints %r instead of %r" % (" ".join(args), rc, out[:200], want)
        return None
    return fn

def Q06(c, exe):
    r = random.Random("Q06-%d" % c.seed)
    decide(c, "sieve.valid", run_q06(exe), [gen_q06(r) for _ in range(c.q(2500, 40000))], "at least one prime or a wide interval",
           lambda x: x["mode"] == "nth" or x["stop"] - x["start"] > 5, lambda x: [x["mode"]])
    decide(c, "sieve.wide", run_q06_wide(exe), [gen_q06_wide(r) for _ in range(c.q(24, 300))], "more than one thread or segment", lambda x: True,
           lambda x: (["print"] if x["print"] else []) + (["count"] if x["count"] else []))
    decide(c, "sieve.huge", run_q06_huge(exe), [gen_q06_huge(r, k) for k in range(c.q(2, 10))], "every case", lambda x: True, lambda x: [x["mode"]], workers=1)
    decide(c, "sieve.invalid", run_q06_bad(exe), [gen_q06_bad(r) for _ in range(c.q(2000, 15000))], "every case")
    # the options which only inform
    def info(case):
        rc, out, err = run([exe] + case["args"])
        if rc != 0 or not re.search(case["want"], out):
            return "primesieve %s: exit status %s, prints %r instead of the requested information" % (" ".join(case["args"]), rc, out[:200])
        return None
    cases = []
    for o, w in (("-h", "Usage: primesieve"), ("--help", "Usage: primesieve"), ("-v", r"primesieve \d+\.\d+"), ("--version", r"primesieve \d+\.\d+"), ("--cpu-info", "(?i)cache|threads|cores")):
        cases += [dict(args=[o], want=w), dict(args=["-c", "-t2", o], want=w)]
    decide(c, "sieve.info", info, cases, "every case")
    # numbers >= 2^64
    n = 0
    for _ in range(c.q(60, 600)):
        k = r.randrange(3)
        e = "1e%d" % r.randrange(20, 40) if k == 0 else "2^%d" % r.randrange(64, 200) if k == 1 else str(r.randrange(2 ** 64, 2 ** 70))
        args = r.choice([[e], ["--number=" + e], ["5", e]]) if value(e) % 2 ** 64 < 10 ** 9 else ["0", "100", "--dist=" + e] if False else [e, "5"]
        rc, out, err = run([exe] + args + ["-q"])
        if rc is not None and rc > 0:
            c.count("sieve.overflow", (e, args), True, "every case")
            continue
        v = value(e) % 2 ** 64
        m = re.match(r"Primes: (\d+)$", out)
        nums = [v if a == e or a.endswith("=" + e) else int(a) for a in args]
        a, b = (0, nums[0]) if len(nums) == 1 else nums
        want = len(primes(a, b)) if b < 10 ** 7 else None
        if rc == 0 and m and (want is None or int(m.group(1)) == want) and c.known("overflow"):
            n += 1
            c.count("sieve.overflow", (e, args), False, "every case")
            continue
        c.fail("sieve.overflow", dict(args=args), "primesieve %s: accepted although the number is >= 2^64: %r" % (" ".join(args), out[:100]))
    if n:
        c.excluded["overflow"] = n

# ------------------------------------------------------------------ both programs, compiled with ASan and UBSan
def M01(c, sum_exe, sieve_exe, oracle_exe):
    o = Oracle(oracle_exe)
    r = random.Random("M01-%d" % c.seed)
    decide(c, "san.primesum", run_c01(sum_exe, o), [x for x in (gen_c01(r) for _ in range(c.q(800, 12000))) if x["x"] < 10 ** 9], "x >= 2", lambda x: x["x"] >= 2)
    decide(c, "san.primesum.invalid", run_c01_bad(sum_exe), [gen_c01_bad(r) for _ in range(c.q(400, 6000))], "every case")
    decide(c, "san.primesieve", run_q06(sieve_exe), [gen_q06(r) for _ in range(c.q(400, 6000))], "at least one prime or a wide interval",
           lambda x: x["mode"] == "nth" or x["stop"] - x["start"] > 5)
    cases = [gen_q06_bad(r) for _ in range(c.q(400, 6000))]
    # sieving near 2^64 is slow
    far = lambda x: x["args"][-1] == "-n" and any(a.isdigit() and int(a) > 2 ** 63 for a in x["args"])
    cases = [x for x in cases if not far(x)] + [x for x in cases if far(x)][:c.q(4, 60)]
    decide(c, "san.primesieve.invalid", run_q06_bad(sieve_exe), cases, "every case")

def run_memcheck(exe):
    def fn(args):
        rc, out, err = run(vcheck.VALGRIND + [exe] + args, timeout=300)[:3]
        if rc == 99:
            return "valgrind %s: %s" % (" ".join(args), err[-2000:])
    return fn
def M01_memcheck(c, sum_exe, sieve_exe):
    r = random.Random("M01-mem-%d" % c.seed)
    a = [x["args"] for x in (gen_c01(r) for _ in range(c.q(150, 1500))) if x["x"] < 10 ** 8]
    decide(c, "memcheck.primesum", run_memcheck(sum_exe), a, "every case", cap=c.q(60, 200))
    b = [x["args"] for x in (gen_q06(r) for _ in range(c.q(150, 1500))) if x["mode"] != "nth" and x["stop"] - x["start"] < 10 ** 6 and x["stop"] < 10 ** 15]
    decide(c, "memcheck.primesieve", run_memcheck(sieve_exe), b, "every case", cap=c.q(60, 200))
