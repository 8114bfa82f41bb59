"""Runs the generated cases of a check, confirms and shrinks failures, keeps
the statistics and writes the evidence file."""
import hashlib, json, os, random, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import VERIF, BUILD, REPO

SHARDS = 8
HANG = 100.0

def known_findings():
    """{key: text} of the findings listed in known_findings.txt"""
    res = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                w = line[len("finding:"):].split(None, 2)
                d = dict(x.split("=", 1) for x in w[:2])
                res[(d["property"], d["key"])] = w[2] if len(w) > 2 else ""
    except OSError:
        pass
    return res

def valgrind(exe, path):
    """a script which runs exe below valgrind, exit status 99 on its first error"""
    with open(path, "w") as f:
        f.write('#!/bin/sh\nexec %s "$@"\n' % " ".join(VALGRIND + [exe]))
    os.chmod(path, 0o755)
    return path
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--show-mismatched-frees=no", "--max-stackframe=8000000"]

class Violation(Exception):
    def __init__(self, replay, message):
        Exception.__init__(self, message)
        self.replay, self.message = replay, message

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.kinds = {}          # name -> dict(evaluations, nontrivial, rule, samples)
        self.labels = {}
        self.notes = []
        self.assumptions = []
        self.truncated = []
        self.hashes = set()
        self.known_printed = []
        self.excluded = {}
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=self._mk(os.path.join(BUILD, "tmp")))
        self.replays = self._mk(os.path.join(VERIF, "replays"))

    @staticmethod
    def _mk(d):
        os.makedirs(d, exist_ok=True)
        return d

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------ statistics
    def count(self, kind, case, nontrivial, rule="", labels=()):
        """one evaluated case of a Python-driven kind"""
        k = self.kinds.setdefault(kind, dict(evaluations=0, nontrivial=0, rule=rule, samples=[]))
        k["evaluations"] += 1
        if rule:
            k["rule"] = rule
        for l in labels:
            l = kind + "/" + l
            self.labels[l] = self.labels.get(l, 0) + 1
        if nontrivial:
            h = hashlib.blake2b((kind + "\0" + repr(case)).encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                k["nontrivial"] += 1
                if len(k["samples"]) < 2:
                    k["samples"].append("%s %s" % (kind, case if isinstance(case, str) else repr(case))[:400])

    def known(self, key, default=""):
        """True (and prints the line) if the finding is listed"""
        kf = known_findings()
        if (self.prop, key) in kf:
            if key not in self.known_printed:
                self.known_printed.append(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, kf[(self.prop, key)] or default))
            return True
        return False

    # ------------------------------------------------------------ C++ harness
    def cpp(self, spec, kinds=None, cap=None, shards=SHARDS, env=None, scale=1.0, hang=HANG, history=True, binary=None, memcheck=False):
        """runs a harness (or some of its kinds) over generated cases"""
        cap = cap or self.q(150, 700)
        name = spec[0]
        exe = binary or vbuild.build_many([spec])[0]
        e = dict(vbuild.ENV)
        e.update({"ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8",
                  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
                  "TSAN_OPTIONS": "halt_on_error=1:exitcode=96:report_signal_unsafe=0:history_size=4:suppressions=%s/harness/tsan.supp" % VERIF,
                  "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive", "OMP_NUM_THREADS": "8"})
        e.update(env or {})
        if memcheck:
            e["VP_MEMCHECK"] = "1"
            exe = valgrind(exe, os.path.join(self.tmp, os.path.basename(exe) + ".memcheck"))
        for line in subprocess.run([exe, "rules"], stdout=subprocess.PIPE, env=e).stdout.decode().splitlines():
            k, _, r = line.partition("\t")
            if kinds is None or k in kinds:
                self.kinds.setdefault(k, dict(evaluations=0, nontrivial=0, rule=r, samples=[]))
        base = [exe, "run", "--seed", str(self.seed), "--tier", self.tier, "--shards", str(shards),
                "--cap", str(cap), "--scale", str(scale)]
        if kinds is not None:
            base += ["--kinds", ",".join(kinds)]
        procs = []
        for i in range(shards):
            out = os.path.join(self.tmp, "%s.%d" % (os.path.basename(exe), i))
            log = open(out + ".log", "wb")
            cmd = base + ["--shard", str(i), "--out", out, "--state", out + ".state"]
            procs.append(dict(cmd=cmd, out=out, log=log, p=subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=e),
                              last=None, since=time.time(), hung=False, shard=i))
        alive = list(procs)
        bad = []
        while alive:
            time.sleep(0.05)
            for d in list(alive):
                rc = d["p"].poll()
                if rc is not None:
                    alive.remove(d)
                    d["rc"] = rc
                    d["log"].close()
                    if rc != 0:
                        bad.append(d)
                    continue
                try:
                    with open(d["out"] + ".state", "rb") as f:
                        cur = f.read(16)
                except OSError:
                    cur = None
                if cur != d["last"]:
                    d["last"], d["since"] = cur, time.time()
                elif time.time() - d["since"] > hang:
                    d["hung"] = True
                    d["p"].kill()
            if bad:
                # a failure was found: no need to wait for the others
                for d in alive:
                    d["p"].kill()
                for d in alive:
                    d["p"].wait()
                    d["log"].close()
                break
        # statistics
        for d in procs:
            try:
                r = json.load(open(d["out"]))
            except (OSError, ValueError):
                continue
            if r["truncated"]:
                self.truncated.append(name)
            for k, s in r["kinds"].items():
                t = self.kinds.setdefault(k, dict(evaluations=0, nontrivial=0, rule="", samples=[]))
                t["evaluations"] += s["evaluations"]
                for smp in s["samples"]:
                    if len(t["samples"]) < 3:
                        t["samples"].append(smp)
            for l, n in r["labels"].items():
                self.labels[l] = self.labels.get(l, 0) + n
            new = 0
            raw = open(d["out"] + ".hashes", "rb").read()
            tot = sum(s["nontrivial"] for s in r["kinds"].values())
            for i in range(0, len(raw), 8):
                h = raw[i:i + 8]
                if h not in self.hashes:
                    self.hashes.add(h)
                    new += 1
            for k, s in r["kinds"].items():
                # duplicates between shards are not attributed to a kind exactly
                self.kinds[k]["nontrivial"] += int(s["nontrivial"] * new / tot) if tot else 0
        for d in bad:
            self._confirm(name, exe, e, base, d, hang, history)

    def _tail(self, path, n=3000):
        try:
            return open(path, "rb").read()[-n:].decode(errors="replace")
        except OSError:
            return ""

    def _replay_case(self, exe, e, case, hang):
        try:
            p = subprocess.run([exe, "replay", case], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                               timeout=hang, stdin=subprocess.DEVNULL)
            return p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return -999, "no result after %d seconds" % hang

    def _confirm(self, name, exe, e, base, d, hang, history):
        log = self._tail(d["out"] + ".log")
        case = d["out"] + ".case"
        index = None
        if os.path.exists(case):
            try:
                f = json.load(open(d["out"]))["failure"]
                index, kind, msg = f["index"], f["kind"], f["message"]
            except (OSError, ValueError, KeyError):
                kind, msg = "?", "?"
        else:
            p = subprocess.run([exe, "state", d["out"] + ".state", case], stdout=subprocess.PIPE, env=e)
            w = p.stdout.decode().split()
            if p.returncode == 0 and len(w) == 2:
                kind, index = w[0], int(w[1])
            else:
                kind, case = "?", None
            msg = "no result after %d seconds" % hang if d["hung"] else "exit status %s\n%s" % (d["rc"], log)
        rep = os.path.join(self.replays, "%s-%s-%s" % (self.prop, name, kind))
        # 1. the case alone, three times (two when it hangs)
        if case:
            outs = []
            for i in range(2 if d["hung"] else 3):
                rc, out = self._replay_case(exe, e, case, hang)
                outs.append((rc, out))
                if rc in (0, 3):
                    break
            if all(rc not in (0, 3) for rc, _ in outs):
                if not d["hung"]:
                    shr = case + ".shrunk"
                    try:
                        p = subprocess.run([exe, "shrink", case, shr, "60"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, timeout=200)
                        if p.returncode == 0 and self._replay_case(exe, e, shr, hang)[0] not in (0, 3):
                            case = shr
                            outs.append(self._replay_case(exe, e, shr, hang))
                    except subprocess.TimeoutExpired:
                        pass
                spec = dict(property=self.prop, mode="case", harness=name, case=open(case).read(), message=outs[-1][1][-3000:],
                            env={k: v for k, v in e.items() if k.startswith("OMP_") or k.startswith("VP_")})
                self._violate(rep + ".json", spec, outs[-1][1])
            # real threads: a race needs luck. A wrong value or a data race is
            # a violation even if it shows up only now and then.
            race = "ThreadSanitizer: data race" in log
            if race or (d["rc"] == 1 and msg != "?"):
                for i in range(40):
                    rc, out = self._replay_case(exe, e, case, hang)
                    if rc not in (0, 3, -999) and rc > 0:
                        break
                else:
                    out = log if race else None
                if out is not None:
                    spec = dict(property=self.prop, mode="case", harness=name, case=open(case).read(), message=out[-3000:] + "\n(not on every run)",
                                env={k: v for k, v in e.items() if k.startswith("OMP_") or k.startswith("VP_")})
                    self._violate(rep + ".json", spec, out)
            self.notes.append("%s: a failure of one case did not reproduce alone: %s" % (name, (msg or "")[:500]))
        # 2. the whole history of the process (state leaking between cases, leaks)
        if history and not d["hung"]:
            cmd = base + ["--shard", str(d["shard"]), "--out", d["out"] + ".h", "--state", d["out"] + ".hstate"]
            if index is not None:
                cmd += ["--stop-kind", kind, "--stop-index", str(index)]
            ok = False
            for i in range(2):
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, stdin=subprocess.DEVNULL)
                if p.returncode == 0:
                    ok = True
                    break
            if not ok:
                spec = dict(property=self.prop, mode="history", harness=name, args=cmd[2:], message=(msg + "\n" + p.stdout.decode(errors="replace"))[-3000:])
                self._violate(rep + "-history.json", spec, msg)
        self.notes.append("%s: a failure did not reproduce and is not reported: %s" % (name, (msg or "")[:1500]))
        print("note: unreproducible failure in %s: %s" % (name, (msg or "")[:1500]))

    def _violate(self, path, spec, message):
        json.dump(spec, open(path, "w"), indent=1)
        raise Violation(path, message)

    # ------------------------------------------------------------ Python-driven cases
    def fail(self, kind, case, message, rerun=None):
        """A Python-driven case failed. rerun() must return a message or None."""
        if rerun is not None:
            # a wrong output is one, even if it depends on the schedule; a
            # time limit or a killed process may be due to the load
            soft = re.search(r"exit status (None|-9)\b", message)
            m = rerun()
            for i in range(2 if soft else 20):
                if m:
                    break
                m = rerun()
            if m:
                message = m
            elif soft or " instead of " not in message:
                self.notes.append("%s: a failure did not reproduce and is not reported: %r %s" % (kind, case, message[:500]))
                print("note: unreproducible failure in %s: %r %s" % (kind, case, message[:500]))
                return
        h = hashlib.blake2b(repr(case).encode(), digest_size=4).hexdigest()
        path = os.path.join(self.replays, "%s-%s-%s.json" % (self.prop, kind, h))
        self._violate(path, dict(property=self.prop, mode="py", kind=kind, case=case, message=message), message)

    # ------------------------------------------------------------ evidence
    def write_evidence(self, violations):
        ev = sum(k["evaluations"] for k in self.kinds.values())
        nt = len(self.hashes)
        rules = ["%s: %s" % (n, k["rule"]) for n, k in sorted(self.kinds.items()) if k["rule"]]
        samples = [s for k in sorted(self.kinds) for s in self.kinds[k]["samples"][:2]]
        cov = dict(evaluations=ev, distinct_nontrivial=nt,
                   rule="Cases are generated from the seed, kind and index of the case. Non-trivial by kind -- " + "; ".join(rules),
                   samples=samples[:40],
                   by_kind={n: dict(evaluations=k["evaluations"], distinct_nontrivial=k["nontrivial"]) for n, k in sorted(self.kinds.items())},
                   classes=dict(sorted(self.labels.items())))
        if self.truncated:
            cov["stopped_by_time_cap"] = sorted(set(self.truncated))
        if self.excluded:
            cov["excluded_known_findings"] = self.excluded
        if self.notes:
            cov["notes"] = self.notes
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        json.dump(e, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
        return ev, nt

def main(prop, fn, tier, seed):
    ctx = Ctx(prop, tier, seed)
    try:
        try:
            fn(ctx)
        except Violation as v:
            ctx.write_evidence(1)
            print(v.message[-3000:])
            print("VIOLATION property=%s replay=%s" % (prop, v.replay))
            sys.stdout.flush()
            return 1
        ev, nt = ctx.write_evidence(0)
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d seconds=%.1f%s" %
              (prop, tier, seed, ev, nt, time.time() - ctx.t0, " (time cap reached)" if ctx.truncated else ""))
        return 0
    except vbuild.BuildError as e:
        print("cannot decide property=%s: %s" % (prop, e))
        return 2
    finally:
        ctx.cleanup()
