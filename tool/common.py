"""Shared parts of the checks: building, running, verdicts, evidence."""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
START = time.time()
LIMIT = 840 if TIER == "quick" else 6 * 3600
MODULE = "github.com/theMPatel/streamvbyte-simdgo"


class Inconclusive(Exception):
    """The check could not give an answer: exit 2."""


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tmp = tempfile.mkdtemp(prefix="svbverif-")
        self.violations = []  # dicts: phase, index, function, kind, detail, and what a replay needs
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.must_missing = []
        self.runs = 0
        self.level = "exploration"
        self.repo = REPO  # the tree the monitors are linked with

    # ---- building

    def modfile(self):
        mod = os.path.join(self.tmp, "go.mod")
        if not os.path.exists(mod):
            src = open(os.path.join(VERIF, "harness", "go.mod")).read()
            src = src.replace("=> /repo", "=> " + self.repo)
            open(mod, "w").write(src)
            shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(self.tmp, "go.sum"))
        return mod

    def build(self, pkg, name, flags=(), env=None, overlay=None, cwd=None, ok_to_fail=False, tool="go"):
        out = os.path.join(self.tmp, name)
        cmd = [tool, "build", "-modfile", self.modfile(), "-o", out]
        if overlay:
            f = os.path.join(self.tmp, name + ".overlay.json")
            json.dump({"Replace": overlay}, open(f, "w"))
            cmd += ["-overlay", f]
        cmd += list(flags) + [pkg]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=cwd or os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if ok_to_fail:
                return None, p.stdout
            raise Inconclusive("build of %s failed:\n%s" % (pkg, p.stdout[-4000:]))
        return (out, "") if ok_to_fail else out

    # ---- running

    def run(self, cmd, env=None, cwd=None, stdin=None, timeout=None):
        """Runs to the end, or kills the process group when time is up."""
        e = dict(os.environ)
        e.update(env or {})
        left = max(5, LIMIT - (time.time() - START))
        if timeout:
            left = min(left, timeout)
        p = subprocess.Popen(cmd, cwd=cwd or self.tmp, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(stdin, timeout=left)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Inconclusive("time ran out in %s" % " ".join(cmd[:6]))
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")

    def monitors(self, binary, extra=(), env=None, prop=None, label="", replay=None, wrap=(), tier=None, timeout=None):
        """Runs svbmon (or a program with the same interface) and takes over its result."""
        self.runs += 1
        res = os.path.join(self.tmp, "result-%d.json" % self.runs)
        cmd = list(wrap) + [binary, "-prop", prop or self.prop, "-tier", tier or TIER, "-seed", str(SEED), "-result", res] + list(extra)
        if replay:
            cmd += ["-seed", str(replay["seed"]), "-tier", replay.get("tier", TIER)]
            if replay.get("index", -1) >= 0:
                cmd += ["-phase", replay["phase"], "-index", str(replay["index"])]
        code, out, err = self.run(cmd, env=env, timeout=timeout)
        r = None
        if os.path.exists(res):
            r = json.load(open(res))
        if r is None or not r.get("done"):
            self.crash(code, out, err, label)
            return None
        self.merge(r, label)
        if code != 0:
            self.crash(code, out, err, label)
        return r

    def sharded(self, binary, n, label, env=None, wrap=()):
        """The cases of one run of svbmon, divided among n processes."""
        import concurrent.futures

        def one(k):
            res = os.path.join(self.tmp, "result-%s-%d.json" % (label, k))
            code, out, err = self.run(list(wrap) + [binary, "-prop", self.prop, "-tier", TIER, "-seed", str(SEED), "-result", res, "-shard", str(k), "-shards", str(n)], env=env)
            return code, out, err, json.load(open(res)) if os.path.exists(res) else None

        with concurrent.futures.ThreadPoolExecutor(max_workers=n) as ex:
            results = list(ex.map(one, range(n)))
        parts = [r for code, out, err, r in results if code == 0 and r and r.get("done")]
        if parts:
            total = dict(parts[0], samples=[], violations=[], calls={}, counters={}, phases={}, evaluations=0, distinct_nontrivial=0)
            for r in parts:
                for key in ("evaluations", "distinct_nontrivial"):
                    total[key] += r[key]
                for key in ("samples", "violations"):
                    total[key] += r.get(key) or []
                for key in ("calls", "counters", "phases"):
                    for name, v in (r.get(key) or {}).items():
                        total[key][name] = total[key].get(name, 0) + v
            self.merge(total, label)
        for code, out, err, r in results:
            if code != 0 or not r or not r.get("done"):
                self.crash(code, out, err, label)

    def crash(self, code, out, err, label=""):
        """A process running the library died: a violation if the Go runtime says so."""
        text = err + out
        if code in (-9, 137) or "out of memory" in text or "cannot allocate memory" in text:
            raise Inconclusive("%s was killed or ran out of memory (exit %d): %s" % (label, code, text[-1500:]))
        if "HARNESS PANIC" in text and code == 3:
            raise Inconclusive("%s: harness failure: %s" % (label, text[-3000:]))
        m = re.search(r"^(WARNING: DATA RACE|==\d+==ERROR: AddressSanitizer|.*WARNING: MemorySanitizer)[^\n]*", text, re.M)
        if m:
            self.violations.append({"phase": "", "index": -1, "function": label or "process", "kind": "sanitizer",
                                    "detail": "exit %d: %s" % (code, text[m.start():m.start() + 6000])})
            return
        if re.search(r"^(fatal error:|panic:|unexpected fault|SIGSEGV|SIGILL|SIGBUS|SIGFPE|runtime:)", text, re.M) or code in (-11, -4, -7, -8, -6):
            self.violations.append({"phase": "", "index": -1, "function": label or "process", "kind": "crash",
                                    "detail": "exit %d: %s" % (code, text[:6000])})
            return
        raise Inconclusive("%s ended with exit %d and no result: %s" % (label, code, text[-3000:]))

    def merge(self, r, label=""):
        c = self.cov
        c["evaluations"] += r["evaluations"]
        c["distinct_nontrivial"] += r["distinct_nontrivial"]
        if r.get("rule") and not c["rule"]:
            c["rule"] = r["rule"]
        c["samples"] = (c["samples"] + [(label + " " if label else "") + s for s in (r.get("samples") or [])])[:14]
        for k in ("calls", "counters", "phases"):
            d = c.setdefault(k, {})
            for n, v in (r.get(k) or {}).items():
                n = label + ":" + n if label else n
                d[n] = d.get(n, 0) + v
        for v in r.get("violations") or []:
            v["label"] = label
            self.violations.append(v)
        for m in r.get("must") or []:
            if not r["calls"].get(m) and not r["counters"].get(m):
                self.must_missing.append((label + ":" if label else "") + m)

    def violate(self, function, kind, detail, phase="", index=-1):
        self.violations.append({"phase": phase, "index": index, "function": function, "kind": kind, "detail": detail})

    # ---- verdict

    def known(self):
        out = []
        f = os.path.join(VERIF, "known-findings.txt")
        for line in open(f) if os.path.exists(f) else []:
            m = re.match(r"finding: property=(\S+) function=(\S+) kind=(\S+) input=(.*)", line.strip())
            if m and m.group(1) == self.prop:
                out.append(m.groups()[1:])
        return out

    def finish(self, replaying=False):
        new, seen = [], set()
        known = self.known()
        for v in self.violations:
            k = next((k for k in known if k[0] == v["function"] and k[1] == v["kind"] and k[2] in v["detail"]), None)
            if k:
                if k not in seen:
                    print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, v["function"], v["detail"][:300]))
                seen.add(k)
            else:
                new.append(v)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - START, 2), "violations": len(new)}
        if not replaying:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", self.prop + ".json")
            json.dump(ev, open(path + ".tmp", "w"), indent=1)
            os.replace(path + ".tmp", path)
        if new:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            for v in new[:6]:
                v = dict(v, property=self.prop, seed=SEED, tier=TIER)
                h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(VERIF, "replay", "%s-%s.json" % (self.prop, h))
                v["replay"] = "VERIF_SEED=%d VERIF_TIER=%s %s/run.sh %s --replay %s" % (SEED, TIER, VERIF, self.prop, path)
                json.dump(v, open(path, "w"), indent=1)
                print("  %s %s: %s" % (v["function"], v["kind"], v["detail"][:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        if not replaying:
            if self.must_missing:
                raise Inconclusive("never observed: " + ", ".join(self.must_missing))
            if self.cov["evaluations"] == 0 or self.cov["distinct_nontrivial"] == 0:
                raise Inconclusive("nothing was observed")
        print("%s held: %d evaluations, %d distinct non-trivial, %.1f s" % (self.prop, self.cov["evaluations"], self.cov["distinct_nontrivial"], time.time() - START))
        return 0


def cpu_flags():
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            return set(line.split(":", 1)[1].split())
    return set()
