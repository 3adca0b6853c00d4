"""Checks that need more than one run of the monitors."""
import os
import re
import subprocess

import common
from common import Inconclusive, VERIF


def goroot():
    return subprocess.run(["go", "env", "GOROOT"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def alloc_overlay(c):
    """A runtime whose mallocgc asks verifAlloc first."""
    src = os.path.join(goroot(), "src", "runtime", "malloc.go")
    text = open(src).read()
    head = "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n"
    if text.count(head) != 1:
        raise Inconclusive("mallocgc not found in " + src)
    text = text.replace(head, head + "\tif verifTab != nil && size != 0 {\n\t\tif p := verifAlloc(size, typ, needzero); p != nil {\n\t\t\treturn p\n\t\t}\n\t}\n")
    text += open(os.path.join(VERIF, "harness", "alloc", "runtime.go.txt")).read()
    dst = os.path.join(c.tmp, "malloc.go")
    open(dst, "w").write(text)
    return {src: dst}


def C08(c, replay):
    b = c.build("./cmd/svbmon", "svbmon", flags=["-tags", "verifalloc"], overlay=alloc_overlay(c))
    c.monitors(b, replay=replay)
    if replay or not c.violations:
        return
    # A slot is used again by later calls. A fault counts if it also occurs in
    # a fresh process, where no earlier call can have kept memory of a slot.
    real, todo = [], c.violations
    for v in todo:
        if v["index"] < 0 or len(real) >= 6:
            real.append(v)
            continue
        d = common.Check(c.prop)
        try:
            d.monitors(b, replay={"seed": common.SEED, "tier": common.TIER, "phase": v["phase"], "index": v["index"]})
            if d.violations:
                real.append(v)
        finally:
            import shutil
            shutil.rmtree(d.tmp, ignore_errors=True)
    c.violations = real
    if not real:
        raise Inconclusive("faults that do not occur in a fresh process: %r" % todo[:2])


def C13(c, replay):
    import glob
    plain = c.build("./cmd/svbmon", "svbmon")
    race = c.build("./cmd/svbmon", "svbmon-race", flags=["-race"], env={"CGO_ENABLED": "1"})
    if not replay or replay.get("label") != "race":
        # the collector overwrites what it frees
        c.monitors(plain, replay=replay, env={"GODEBUG": "clobberfree=1"})
    if not replay and not c.violations:
        # each function (39) is the first that a process calls, alone or on several goroutines
        must = list(c.must_missing)
        for k in range(156 if common.TIER == "quick" else 1560):
            log = os.path.join(c.tmp, "race-first-%d" % k)
            c.monitors(plain, extra=["-phase", "first", "-index", str(k), "-workers", "1"])
            if k // 39 % 4 == 1:
                c.monitors(race, label="race", extra=["-phase", "first", "-index", str(k), "-workers", "1"], env={"GORACE": "halt_on_error=0 exitcode=0 log_path=" + log})
            if c.violations:
                return
            for f in glob.glob(log + "*"):
                text = open(f, errors="replace").read()
                if "WARNING: DATA RACE" in text:
                    c.violate("first calls", "data-race", text[:5000])
                    return
        c.must_missing = must
    for k in range(1 if common.TIER == "quick" or replay else 3):
        log = os.path.join(c.tmp, "race-%d" % k)
        gave_up = None
        try:
            c.monitors(race, label="race", replay=replay if replay and replay.get("label") == "race" else None,
                       env={"GORACE": "halt_on_error=0 exitcode=0 log_path=" + log}, timeout=500 if common.TIER == "quick" else None)
        except Inconclusive as e:
            gave_up = e  # the reports so far still count
        blocks = []
        for f in glob.glob(log + "*"):
            blocks += re.split(r"^={10,}\n", open(f, errors="replace").read(), flags=re.M)
        seen = set()
        for b in blocks:
            if "WARNING: DATA RACE" not in b:
                continue
            # one report per pair of outermost library functions
            key = tuple(re.findall(r"streamvbyte-simdgo/(pkg/\S+?)\(", b))
            # The harness shares nothing but inputs, which it never writes after
            # the start: without library frames the report is about memory
            # that a library call returned.
            if key not in seen:
                seen.add(key)
                c.violate(", ".join(dict.fromkeys(key)) or "memory of a result", "data-race", b[:5000])
                c.violations[-1]["label"] = "race"
        c.cov.setdefault("counters", {})["race reports"] = len(seen)
        if gave_up and not seen:
            raise gave_up


CONFIGS = {
    "native": "",
    "no-avx2": "avx2 fma avx512",
    "no-avx": "avx avx2 fma avx512",
    "avx-off-only": "avx",
    "only-avx-avx2": "bmi1 bmi2 fma avx512 popcnt adx aes pclmulqdq erms rdrand rdseed",
    "nothing": "avx avx2 bmi1 bmi2 fma avx512 popcnt adx aes pclmulqdq erms rdrand rdseed sse3 sse41 sse42 ssse3 osxsave",
}
VECTOR = ("AVX", "AVX2", "AVX512", "SSE", "FMA")


def C14(c, replay):
    probe = c.build("./cmd/svbprobe", "svbprobe", env={"GOAMD64": "v1"})
    tracer = c.build("./cmd/svbtrace", "svbtrace")
    if not replay or not replay.get("label"):
        trace(c, probe, tracer)
    if not replay or replay.get("label"):
        # a larger workload on the portable paths
        c.monitors(c.build("./cmd/svbmon", "svbmon"), prop="C15", label="fallback", replay=replay if replay and replay.get("label") else None,
                   env={"GODEBUG": "cpu.avx=off,cpu.avx2=off,cpu.avx512=off,cpu.fma=off", "SVB_NOFAST": "1"})


def trace(c, probe, tracer, label="", configs=tuple(CONFIGS)):
    """Single-steps the automatic entry points in every feature configuration."""
    import concurrent.futures
    import json
    native_avx2 = {"avx", "avx2"} <= common.cpu_flags()
    quick = common.TIER == "quick"
    seeds = [common.SEED] if quick else [common.SEED + k for k in range(6)]
    jobs = [(n, s) for s in seeds for n in configs]

    def one(job):
        name, seed = job
        base = os.path.join(c.tmp, "trace-%s-%d" % (name, seed))
        feats = []
        for f in CONFIGS[name].split():
            feats += ["avx512", "avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512cd"] if f == "avx512" else [f]
        env = {"GODEBUG": ",".join(["cpu.%s=off" % f for f in feats] + ["asyncpreemptoff=1"]), "GOGC": "off"}
        code, out, err = c.run([tracer, "-o", base + ".trace", probe, "-o", base + ".probe", "-seed", str(seed), "-rounds", "1" if quick else "4"], env=env)
        tr = json.load(open(base + ".trace")) if os.path.exists(base + ".trace") else None
        pr = json.load(open(base + ".probe")) if os.path.exists(base + ".probe") else None
        return name, seed, code, out, err, tr, pr

    with concurrent.futures.ThreadPoolExecutor(max_workers=7) as ex:
        results = list(ex.map(one, jobs))
    cov = c.cov
    cov["rule"] = cov["rule"] or "evaluations: calls traced; distinct_nontrivial: distinct library instruction addresses executed, summed over configurations and entry points"
    calls, counters = cov.setdefault("calls", {}), cov.setdefault("counters", {})
    for name, seed, code, out, err, tr, pr in results:
        where = "%sconfiguration %s (GODEBUG cpu features off: %s), seed %d" % (label and label + " ", name, CONFIGS[name] or "none", seed)
        if tr is None:
            raise Inconclusive("tracing failed in %s: %s" % (where, err[-2000:]))
        if tr["Signal"]:
            c.violate("process", "crash", "%s: %s\n%s" % (where, tr["Signal"], err[-3000:]))
            continue
        if tr["Exit"] != 0 or pr is None:
            if re.search(r"^(panic:|fatal error:|SIG|unexpected fault)", err, re.M):
                c.violate("process", "crash", "%s: exit %d\n%s" % (where, tr["Exit"], err[-3000:]))
                continue
            raise Inconclusive("probe failed in %s: exit %d %s" % (where, tr["Exit"], err[-2000:]))
        for w in pr["Wrong"] or []:
            c.violate(w.split(":")[0], "result", "%s: %s" % (where, w))
        have = {k for k, v in pr["Cpu"].items() if v}
        if "AVX" in have:
            have |= {"SSE", "POPCNT"}
        cov["evaluations"] += sum(tr["Calls"].values())
        cov["distinct_nontrivial"] += sum(tr["Paths"].values())
        counters[label + name + " instructions stepped"] = counters.get(label + name + " instructions stepped", 0) + tr["Steps"]
        vec = {"encode": False, "decode": False}
        for fn, n in tr["Calls"].items():
            calls[label + name + ":" + fn] = calls.get(label + name + ":" + fn, 0) + n
            if not tr["Library"].get(fn):
                raise Inconclusive("no library instruction seen in %s, %s" % (fn, where))
            used = tr["Uses"].get(fn) or {}
            for ext, u in used.items():
                k = "%s%s:%s %s instructions" % (label, name, fn, ext)
                counters[k] = counters.get(k, 0) + u["Count"]
                if ext not in have:
                    c.violate(fn, "illegal-instruction", "%s: executed %d %s instructions although %s is not reported available; first: %s in %s" % (where, u["Count"], ext, ext, u["First"], u["Symbol"]))
            side = "encode" if fn.startswith(("writer.", "encode.")) else "decode"
            fast = bool(set(used) & set(VECTOR))
            vec[side] |= fast
            mode = pr["Encode" if side == "encode" else "Decode"]
            if fast != mode:
                c.violate(fn, "mode", "%s: %s.GetMode() is %s but %s %s vector instructions" % (where, side, "Fast" if mode else "Normal", fn, "executes" if fast else "never executes"))
            if name in ("native", "only-avx-avx2") and native_avx2 and not fast:
                c.violate(fn, "not-accelerated", "%s: AVX and AVX2 are available but %s executes no vector instruction in %d calls" % (where, fn, n))
        if len(tr["Calls"]) != 8:
            raise Inconclusive("not all entry points were called in " + where)
        if len(cov["samples"]) < 12:
            cov["samples"].append("%s: Cpu %s, modes encode %s decode %s, %d instructions, %d in the library, extensions %s" % (
                where, " ".join(sorted(have)), pr["Encode"], pr["Decode"], tr["Steps"], sum(tr["Library"].values()),
                {fn: {e: u["Count"] for e, u in (x or {}).items()} for fn, x in tr["Uses"].items()}))
    if label == "":
        c.assumptions += ["The features a processor lacks are simulated through GODEBUG, which golang.org/x/sys/cpu and the Go runtime honour.",
                          "Go code is built for GOAMD64=v1."]


def C27(c, replay):
    """Counts the instructions of accelerated and scalar functions on the same arguments."""
    import concurrent.futures
    import json
    cov = c.cov
    cov["rule"] = "evaluations: calls traced; distinct_nontrivial: pairs of an accelerated or automatic function with its scalar counterpart compared on the same values, and bursts of instructions within long calls"
    if not {"avx", "avx2"} <= common.cpu_flags():
        raise Inconclusive("this processor has no accelerated implementation")
    probe = c.build("./cmd/svbcost", "svbcost")
    tracer = c.build("./cmd/svbtrace", "svbtrace")
    quick = common.TIER == "quick"
    seeds = [common.SEED + 1000 * k for k in range(1 if quick else 8)]
    parts, long = 19, 6000000 if quick else 40000000
    env = {"GODEBUG": "asyncpreemptoff=1", "GOGC": "off"}

    def one(job):
        kind, seed, n = job
        base = os.path.join(c.tmp, "cost-%s-%d-%d" % job)
        for f in (base + ".trace", base + ".probe"):
            if os.path.exists(f):
                os.unlink(f)
        how = ["-part", str(n), "-parts", str(parts)] + ["-held"] * (kind == "held") if kind != "long" else ["-long", str(long), "-delta", str(n), "-repeat", "1.5s" if quick else "20s"]
        code, out, err = c.run([tracer, "-o", base + ".trace"] + (["-sample", "900"] if kind == "long" else []) + [probe, "-o", base + ".probe", "-seed", str(seed)] + how,
                               env=env if kind != "long" else dict(env, GOGC="100"))
        if not os.path.exists(base + ".trace") or not os.path.exists(base + ".probe"):
            if re.search(r"^(panic:|fatal error:|SIG|unexpected fault)", err, re.M):
                return job, "crash", err[-3000:], None
            raise Inconclusive("tracing %s failed: exit %d %s" % (job, code, err[-2000:]))
        tr = json.load(open(base + ".trace"))
        if tr["Exit"] != 0:
            return job, "crash", "exit %d %s\n%s" % (tr["Exit"], tr["Signal"], err[-3000:]), None
        return job, "", tr, json.load(open(base + ".probe"))

    jobs = [("long", s, d) for s in seeds[:3] for d in (0, 1)] + [(k, s, p) for s in seeds for k in ("short", "held") for p in range(parts)]
    counters = cov.setdefault("counters", {})

    def costs(results):
        """(seed, kind, pattern, n rank) -> variant -> (function, instructions, n)"""
        t = {}
        for job, bad, tr, pr in results:
            if job[0] == "long":
                continue
            for i, k in enumerate(pr["Calls"]):
                key = (job, k["Kind"], k["Pattern"], "long" if k["N"] > 400 else "short" if k["N"] > 8 else "8")
                t.setdefault(key, {})[k["Variant"]] = (k["Fn"], tr["Least"][str(i + 8)], k["N"])
        return t

    worst = {}

    def excess(t, strict=1):
        """Too many instructions: (job, function) -> description"""
        bad, pairs = {}, 0
        worst.clear()
        for (job, kind, pattern, size), v in sorted(t.items()):
            mode = modes[job]["Encode" if kind.startswith(("writing", "encoding")) else "Decode"]
            for variant in (0, 2):
                if variant not in v or variant == 0 and not mode:
                    continue
                fn, a, n = v[variant]
                _, s, _ = v[1]
                pairs += 1
                if size == "long":
                    fewer = t[(job, kind, pattern, "short")]
                    a, s, n = a - fewer[variant][1], s - fewer[1][1], n - fewer[1][2]
                what = {"8": "8 values", "short": "%d values" % n, "long": "%d more values" % n}[size]
                name = "%s: instructions (%s)" % (fn, {"8": "8 values", "short": "short sequences", "long": "further values"}[size])
                if strict == 1:
                    counters[name] = counters.get(name, 0) + a
                worst[size] = max(worst.get(size, 0), a / max(s, 1))
                if a > strict * (0.7 if size == "long" else 0.85) * s:
                    bad[(job, fn)] = "%s values%s: %d instructions for %s, %s needs %d" % (pattern, ", while other calls are in progress" if job[0] == "held" else "", a, what, v[1][0], s)
                if len(cov["samples"]) < 12 and strict == 1 and size == "long" and variant == 0:
                    cov["samples"].append("%s, %s values: %d instructions for %s, scalar %d" % (fn, pattern, a, what, s))
        return bad, pairs

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(one, jobs))
        modes = {}
        for job, bad, tr, pr in results:
            if bad:
                c.violate("process", bad, "%s: %s" % (job, tr))
                continue
            modes[job] = pr
            if job[0] == "held":
                counters["calls in progress while others were traced"] = counters.get("calls in progress while others were traced", 0) + pr["Held"]
            for k in pr["Calls"]:
                if k["Wrong"]:
                    c.violate(k["Fn"], "result", "%s values, %d: %s" % (k["Pattern"], k["N"], k["Wrong"]))
                cov["evaluations"] += 1
        if c.violations:
            return
        t = costs(results)
        bad, pairs = excess(t, 0.85)
        cov["distinct_nontrivial"] += pairs
        # the Go runtime may have run for other reasons: only what is there every time counts
        for again in range(3):
            if not bad:
                break
            for key, v in costs(list(ex.map(one, sorted({j for j, _ in bad})))).items():
                for variant, (fn, a, n) in v.items():
                    if a < t[key][variant][1]:
                        t[key][variant] = (fn, a, n)
            bad = excess(t, 0.85)[0]
        bad, pairs = excess(t)
    for (job, fn), text in bad.items():
        c.violate(fn, "not-faster", text)
    for job, _, tr, pr in results:
        if job[0] != "long":
            continue
        for i, k in enumerate(pr["Calls"]):
            mode = pr["Encode" if k["Kind"].startswith("writing") else "Decode"]
            if k["Variant"] == 0 and not mode:
                continue
            n, vec = tr["Bursts"].get(str(i + 8)) or (0, 0)
            name = k["Fn"] + ": bursts within long calls"
            counters[name] = counters.get(name, 0) + n
            cov["distinct_nontrivial"] += n
            if n >= 8 and vec < 0.7 * n:
                c.violate(k["Fn"], "not-accelerated", "%d values (%s): of %d sampled bursts of 900 instructions in library code only %d have vector instructions" % (k["N"], k["Pattern"], n, vec))
    if not any(n >= 8 for k, n in counters.items() if k.endswith(": bursts within long calls")):
        raise Inconclusive("hardly any burst seen in long calls")
    for size, ratio in worst.items():
        counters["largest share of the scalar instructions, in percent: " + ("8 values" if size == "8" else "sequences of 160 values" if size == "short" else "each further value")] = round(100 * ratio)
    c.assumptions += ["Work is measured in instructions executed, not in time."]


CODEC = ["encode", "decode", "shared", "stream/reader", "stream/writer", "util"]


def other_selections(have):
    """Targets for which the go command selects files of the library that it selects for none of those given."""
    import concurrent.futures
    every = subprocess.run(["go", "tool", "dist", "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    every = have + [t for t in every if t not in have and not t.startswith(("android", "ios"))]

    def files(t):
        goos, goarch = t.split("/")
        p = subprocess.run(["go", "list", "-e", "-f", "{{.ImportPath}} {{.GoFiles}} {{.SFiles}} {{.CgoFiles}} {{.IgnoredGoFiles}}"] + ["./pkg/" + p for p in CODEC], cwd=common.REPO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           env=dict(os.environ, GOOS=goos, GOARCH=goarch, CGO_ENABLED="0", GOFLAGS="-mod=readonly"))
        return p.stdout

    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        seen, more = set(), []
        for t, f in zip(every, ex.map(files, every)):
            if f not in seen and t not in have:
                more.append(t)
            seen.add(f)
    return more[:12]


def C15(c, replay):
    import concurrent.futures
    wasm = os.path.join(goroot(), "lib", "wasm", "wasm_exec_node.js")
    counters = c.cov.setdefault("counters", {})

    def build(target, pkgs):
        goos, goarch = target.split("/")
        p = subprocess.run(["go", "build"] + pkgs, cwd=common.REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, GOOS=goos, GOARCH=goarch, CGO_ENABLED="0", GOFLAGS="-mod=readonly"))
        return target, p.returncode, p.stdout

    def builds():
        codec = ["./pkg/" + p for p in CODEC]
        jobs = [("linux/arm64", ["./..."]), ("linux/amd64", ["./..."])]
        targets = ["linux/386", "linux/arm", "linux/s390x", "linux/riscv64", "linux/ppc64le", "js/wasm", "darwin/arm64", "windows/amd64"]
        if common.TIER != "quick":
            jobs += [(t, ["./..."]) for t in ("linux/386", "linux/s390x", "js/wasm", "darwin/arm64", "windows/amd64")]
            targets = subprocess.run(["go", "tool", "dist", "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
            targets = [t for t in targets if not t.startswith(("android", "ios"))]
        else:
            targets += other_selections(targets)
        jobs += [(t, codec) for t in targets]
        with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
            for (target, pkgs), (_, code, out) in zip(jobs, ex.map(lambda j: build(*j), jobs)):
                counters["builds of all packages" if pkgs == ["./..."] else "builds of the codec packages"] = counters.get("builds of all packages" if pkgs == ["./..."] else "builds of the codec packages", 0) + 1
                c.cov["samples"].append("built %s for %s: %s" % (" ".join(pkgs), target, "ok" if code == 0 else "failed"))
                if code != 0:
                    if re.search(r"no space left|cannot allocate memory|signal: killed|permission denied", out):
                        raise Inconclusive("build for %s: %s" % (target, out[-2000:]))
                    c.violate("build", "build-failure", "GOOS/GOARCH %s, go build %s: %s" % (target, " ".join(pkgs), out[-3000:]))

    if not replay or replay["kind"] == "build-failure":
        builds()
        if c.violations:
            # The monitors are built with the packages that failed.
            c.cov["evaluations"] += len(c.cov["samples"])
            return
    c.cov["samples"] = c.cov["samples"][:4]
    runs = [("386", {"GOARCH": "386", "CGO_ENABLED": "0"}, (), 1)]
    runs.append(("wasm", {"GOOS": "js", "GOARCH": "wasm", "CGO_ENABLED": "0"}, ("node", "--stack-size=8192", wasm), 1))
    for label, env, wrap, n in runs:
        if replay and replay.get("label") != label:
            continue
        b, out = c.build("./cmd/svbmon", "svbmon-" + label, env=env, ok_to_fail=True)
        if b is None:
            raise Inconclusive("monitors do not build for %s: %s" % (label, out[-3000:]))
        c.monitors(b, label=label, wrap=wrap, replay=replay)
    for label, defs in (("mips", []), ("mips64", ["-DM64"])):  # big-endian
        if replay and replay.get("label") != label:
            continue
        emulator = os.path.join(c.tmp, "emulated-" + label)
        p = subprocess.run(["gcc", "-O2", "-fno-strict-aliasing"] + defs + ["-o", emulator, os.path.join(common.VERIF, "emul", "mips.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Inconclusive("the emulator does not build: " + p.stdout[-3000:])
        b, out = c.build("./cmd/svbmon", "svbmon-" + label, env={"GOOS": "linux", "GOARCH": label, "GOMIPS": "softfloat", "GOMIPS64": "softfloat", "CGO_ENABLED": "0"}, ok_to_fail=True)
        if b is None:
            raise Inconclusive("monitors do not build for %s: %s" % (label, out[-3000:]))
        if replay:
            c.monitors(b, label=label, wrap=(emulator,), replay=replay)
        else:
            c.sharded(b, os.cpu_count() or 4, label, wrap=(emulator,))


def tree(root):
    """Content of every file below root, by relative path."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != ".git"]
        for f in files:
            p = os.path.join(d, f)
            if os.path.isfile(p):
                out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def rss_of_session(sid):
    """The largest resident set, in bytes, of the processes of a session."""
    most = 0
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                f = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
            except (OSError, IndexError):
                continue
            if int(f[3]) == sid:
                most = max(most, int(f[21]) * os.sysconf("SC_PAGE_SIZE"))
    return most


def generate(c, dst, env=None):
    """go generate in dst: (exit code, output); one that does not end, or takes all memory, is a violation and gives None."""
    import signal
    import time
    out = open(os.path.join(c.tmp, "generate.out"), "w+")
    p = subprocess.Popen(["go", "generate", "./pkg/..."], cwd=dst, stdout=out, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    start, why = time.time(), None
    while p.poll() is None:
        if time.time() - start > 300:
            why = "go generate ./pkg/... had not ended after 300 s"
        elif rss_of_session(p.pid) > 6 << 30:
            why = "a process of go generate ./pkg/... had 6 GB of memory"
        if why:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            break
        time.sleep(0.05)
    out.seek(0)
    text = out.read(1 << 20)
    out.close()
    if why:
        c.cov["evaluations"] += 1
        c.violate("go generate", "generation-failure", why)
        return None, text
    return p.returncode, text


def C17(c, replay):
    import shutil
    c.cov["rule"] = "The monitors of C16, C10, C11, C15 (without the mode), C07, C09 and the tracer of C14, run against a build with generated files; cases and non-trivial ones as defined there."
    before = tree(common.REPO)
    results = []
    for k, procs in enumerate(("8", "1")):
        dst = os.path.join(c.tmp, "generated" * (k + 1))
        shutil.copytree(common.REPO, dst, ignore=shutil.ignore_patterns(".git"), symlinks=True)
        rc, out = generate(c, dst, dict(os.environ, GOMAXPROCS=procs))
        if rc is None:
            return
        if rc != 0:
            if re.search(r"no space left|cannot allocate memory|signal: killed", out):
                raise Inconclusive("go generate: " + out[-2000:])
            c.cov["evaluations"] += 1
            c.violate("go generate", "generation-failure", "go generate ./pkg/... failed: " + out[-3000:])
            return
        results.append((dst, tree(dst)))
    (first, a), (second, b) = results
    changed = sorted(f for f in set(a) | set(before) if a.get(f) != before.get(f))
    for f in sorted(set(a) | set(b)):
        if a.get(f) != b.get(f) and not f.endswith("go.sum"):
            c.violate("go generate", "nondeterminism", "%s differs between two runs" % f)
    counters = c.cov.setdefault("counters", {})
    counters["generator runs"] = 2
    counters["files changed by the generators"] = len(changed)
    c.cov["samples"].append("go generate ./pkg/... in two scratch copies; files that differ from the committed ones: %s" % (", ".join(changed) or "none"))
    c.repo = first
    # generation again, on its own output
    rc, out = generate(c, second)
    if rc is None:
        return
    again = tree(second) if rc == 0 else {}
    if again != b:
        c.violate("go generate", "nondeterminism", "a second generation changes %s: %s" % (sorted(f for f in set(again) | set(b) if again.get(f) != b.get(f))[:5], out[-1000:]))
    b, out = c.build("./cmd/svbmon", "svbmon", ok_to_fail=True)
    if b is None:
        p = subprocess.run(["go", "build", "./..."], cwd=first, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            raise Inconclusive("monitors do not build: " + out[-3000:])
        c.cov["evaluations"] += 1
        c.violate("go build", "build-failure", "the library does not build with the generated files: " + p.stdout[-3000:])
        return
    for prop in ("C16", "C10", "C11", "C17", "C07", "C09"):
        label = "regenerated/" + prop
        if replay and replay.get("label") and replay["label"] != label:
            continue
        c.monitors(b, prop=prop, label=label, replay=replay if replay and replay.get("label") else None)
    if not replay or not replay.get("label"):
        trace(c, c.build("./cmd/svbprobe", "svbprobe", env={"GOAMD64": "v1"}), c.build("./cmd/svbtrace", "svbtrace"), "regenerated/", ("native", "no-avx2", "only-avx-avx2"))


def C20(c, replay):
    import readme
    import scripts
    if not replay or replay["function"] != "update_bench.sh":
        readme.run(c, replay)
    if not replay or replay["function"] == "update_bench.sh":
        scripts.update_bench(c, replay)


def C25(c, replay):
    b = c.build("./cmd/svbmon", "svbmon")
    c.monitors(b, replay=replay)
    if replay:
        return
    # the first library call of a process fails
    must = list(c.must_missing)
    for k in range(44 if common.TIER == "quick" else 1100):
        c.monitors(b, extra=["-phase", "first", "-index", str(k), "-workers", "1"])
        if c.violations:
            return
    c.must_missing = must


TOOLCHAINS = ("1.23", "1.24", "1.25", "1.26")


def C26(c, replay):
    """The portable monitors in builds with other toolchains, options and sanitizers."""
    counters = c.cov.setdefault("counters", {})
    host = os.path.join(VERIF, "harness", "cmd", "svbhost")
    cgo = {"CGO_ENABLED": "1"}
    # label, go command, flags, environment of the build, environment of the run
    builds = [("go" + v, "go" + v, [], {}, {}) for v in TOOLCHAINS]
    builds += [
        ("unoptimised", "go", ["-gcflags=all=-N -l"], {}, {}),
        ("not inlined", "go", ["-gcflags=all=-l"], {}, {}),
        ("more inlined", "go", ["-gcflags=all=-l=4"], {}, {}),
        ("pointer checks", "go", ["-gcflags=all=-d=checkptr=2"], {}, {}),
        ("race detector", "go", ["-race"], cgo, {"GORACE": "halt_on_error=1 exitcode=66"}),
        ("address sanitizer", "go", ["-asan"], dict(cgo, CC="gcc"), {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:exitcode=67:handle_segv=0"}),
        ("address sanitizer, portable code", "go", ["-asan"], dict(cgo, CC="gcc"), {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:exitcode=67:handle_segv=0", "GODEBUG": "cpu.avx=off,cpu.avx2=off,cpu.avx512=off,cpu.fma=off", "SVB_NOFAST": "1"}),
        ("memory sanitizer", "go", ["-msan"], dict(cgo, CC="clang"), {"MSAN_OPTIONS": "exitcode=68"}),
        ("coverage", "go", ["-cover", "-coverpkg=./...,%s/..." % common.MODULE], {}, {"GOCOVERDIR": c.tmp}),
        ("coverage, atomic", "go", ["-cover", "-covermode=atomic", "-coverpkg=./...,%s/..." % common.MODULE], {}, {"GOCOVERDIR": c.tmp}),
        ("position independent", "go", ["-buildmode=pie"], {}, {}),
        ("position independent, external linker", "go", ["-buildmode=pie", "-ldflags=-linkmode=external"], cgo, {}),
        ("stripped", "go", ["-trimpath", "-ldflags=-s -w"], {"CGO_ENABLED": "0"}, {}),
        ("plugin", "go", ["-buildmode=plugin"], cgo, {}),
        ("shared library", "go", ["-buildmode=c-shared", "-tags", "verifshared"], cgo, {}),
        ("spectre mitigations", "go", ["-gcflags=all=-spectre=all", "-asmflags=all=-spectre=all"], {}, {}),
        ("tags", "go", ["-tags", "purego,noasm,appengine,safe,nounsafe,generic,debug,netgo,osusergo"], {}, {"SVB_NOFAST": ""}),
        ("GOAMD64=v2", "go", [], {"GOAMD64": "v2"}, {}),
        ("386 without SSE", "go", [], {"GOARCH": "386", "GO386": "softfloat", "CGO_ENABLED": "0"}, {}),
    ]
    for t in custom_tags(common.REPO)[:6]:
        builds.append(("tag " + t, "go", ["-tags", t], {}, {}))
    flags = common.cpu_flags()
    if {"avx2", "bmi1", "bmi2", "fma", "movbe", "f16c", "abm"} <= flags:
        builds.append(("GOAMD64=v3", "go", [], {"GOAMD64": "v3"}, {}))
        if {"avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"} <= flags:
            builds.append(("GOAMD64=v4", "go", [], {"GOAMD64": "v4"}, {}))
    if replay:
        builds = [b for b in builds if b[0] == replay.get("label") or replay["kind"] == "build-failure" and replay["function"] == b[0]]
    import concurrent.futures

    def build(k):
        label, tool, flags, env, _ = builds[k]
        out = c.build("./cmd/svbmon", "svbmon-%d" % k, flags=flags, env=env, ok_to_fail=True, tool=tool)
        return out

    c.modfile()
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        jobs = [ex.submit(build, k) for k in range(len(builds))]
        if any(b[0] == "plugin" for b in builds):
            plug = c.build("./cmd/svbhost", "svbhost", env=cgo)
        for k, (label, tool, flags, env, renv) in enumerate(builds):
            binary, out = jobs[k].result()
            if binary is None:
                if library_builds(c, tool, flags, env):
                    raise Inconclusive("monitors do not build for %r: %s" % (label, out[-3000:]))
                c.violate(label, "build-failure", "%s build %s %s: %s" % (tool, " ".join(flags), env, out[-3000:]))
                continue
            counters["builds"] = counters.get("builds", 0) + 1
            wrap = ()
            if label == "plugin":
                wrap = (plug,)
            if label == "shared library":
                wrap = (os.path.join(c.tmp, "shared"),)
                subprocess.run(["gcc", "-o", wrap[0], os.path.join(host, "shared.c"), "-ldl"], check=True)
            before = len(c.violations)
            c.monitors(binary, label=label, wrap=wrap, env=renv, replay=replay)
            if len(c.violations) > before:
                counters["builds with violations"] = counters.get("builds with violations", 0) + 1
            os.remove(binary)


def custom_tags(root):
    """Tags in build constraints that neither a platform nor the toolchain sets."""
    known = set("cgo gc gccgo race msan asan unix ignore purego noasm appengine safe nounsafe generic debug netgo osusergo boringcrypto tools".split())
    for t in subprocess.run(["go", "tool", "dist", "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.split():
        known |= set(t.split("/"))
    known |= set("nacl zos hurd amd64p32 armbe arm64be mips64p32 mips64p32le ppc riscv s390 sparc sparc64".split())
    tags = set()
    for f, text in tree(root).items():
        if f.startswith("pkg/") and f.endswith((".go", ".s")) and not f.endswith("_test.go"):
            for line in re.findall(rb"^//(?:go:build| ?\+build) (.*)$", text, re.M):
                tags |= set(re.findall(r"[A-Za-z_][\w.]*", line.decode()))
    return sorted(t for t in tags - known if not re.match(r"go1(\.\d+)?$|goexperiment\.", t))


def library_builds(c, tool, flags, env):
    """Whether the codec packages alone build this way."""
    flags = [f for f in flags if not f.startswith(("-buildmode=c-shared", "-buildmode=plugin", "-coverpkg"))]
    p = subprocess.run([tool, "build"] + flags + ["./pkg/" + p for p in CODEC], cwd=common.REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, GOFLAGS="-mod=readonly", **env))
    return p.returncode == 0


def C24(c, replay):
    import scripts
    scripts.generate_and_check(c, replay)


def C22(c, replay):
    import json
    import signal
    import tempfile
    c.cov["rule"] = "evaluations: library calls made between snapshots, and values of process-wide state compared; distinct_nontrivial: kinds of state compared, by configuration and point in time"
    base = c.build("./cmd/svbstate", "svbstate-base")
    lib = c.build("./cmd/svbstate", "svbstate-lib", flags=["-tags", "verifstate"])
    counters, calls = c.cov.setdefault("counters", {}), c.cov.setdefault("calls", {})

    def once(binary, env, kill="", args=()):
        d = tempfile.mkdtemp(dir=c.tmp)
        for x in ("cwd", "home", "tmp"):
            os.mkdir(os.path.join(d, x))
        open(os.path.join(d, "stdin"), "w").write("some input\n" * 100)
        e = {"PATH": "/usr/bin:/bin", "HOME": d + "/home", "TMPDIR": d + "/tmp", "SVBSTATE_OUT": d + "/out.json", "SVBSTATE_KILL": kill}
        e.update(env)
        with open(os.path.join(d, "stdin")) as inp:
            p = subprocess.run([binary] + list(args), cwd=d + "/cwd", env=e, stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        try:
            rep = json.loads(open(d + "/out.json").read().replace(d, "DIR"))
        except (OSError, ValueError):
            rep = None
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), rep

    configs = [("plain", {}, ()), ("arguments", {}, ("-out", "x", "-w", "--", "rest")), ("GOMAXPROCS=3", {"GOMAXPROCS": "3"}, ()), ("GOGC and GOMEMLIMIT", {"GOGC": "37", "GOMEMLIMIT": "3GiB"}, ()),
               ("portable code", {"GODEBUG": "cpu.avx=off,cpu.avx2=off", "SVB_NOFAST": "1"}, ())]
    runs = 1 if common.TIER == "quick" else 20
    for name, env, args in configs * runs:
        code, out, err, b = once(base, env, args=args)
        if code != 0 or b is None or out or err:
            raise Inconclusive("the program without the library failed in configuration %s: %d %s" % (name, code, err[-2000:]))
        code, out, err, l = once(lib, env, args=args)
        where = "configuration " + name
        if out or err:
            c.violate("process", "output", "%s: exit %d, standard output %r, standard error %r" % (where, code, out[:2000], err[:3000]))
        if l is None or code != 0:
            if not (out or err):
                c.violate("process", "exit", "%s: the program that imports the library ended with exit %d and no report" % (where, code))
            continue
        if not l["Linked"] or not l["Polls"]:
            raise Inconclusive("the probe did not run as intended")
        for k, v in b["Start"].items():
            c.cov["evaluations"] += 2
            for when, s in (("after import", l["Start"]), ("after calls", l["After"])):
                if s.get(k) != v:
                    c.violate("import" if when == "after import" else "calls", "state", "%s: %s differs %s: %r, without the library %r" % (where, k, when, (s.get(k) or "")[:1500], v[:500]))
                    break
        for k, v in l["During"].items():
            c.violate("calls", "state", "%s: %s changed during calls: %s" % (where, k, v[:1500]))
        if l["Random"] != l["Fresh"]:
            c.violate("calls", "random-source", "%s: after Seed(42) and calls of the codec the default source gives %s, want %s" % (where, l["Random"], l["Fresh"]))
        c.cov["distinct_nontrivial"] += 2 * len(b["Start"])
        c.cov["evaluations"] += sum(l["Calls"].values())
        for k, v in l["Calls"].items():
            calls[k] = calls.get(k, 0) + v
        counters["comparisons during calls"] = counters.get("comparisons during calls", 0) + l["Polls"]
        counters["kinds of state compared"] = len(b["Start"])
        if len(c.cov["samples"]) < 5:
            c.cov["samples"].append("%s: %s" % (where, {k: v[:80] for k, v in list(b["Start"].items())}))
    import concurrent.futures
    sigs = ("HUP", "INT", "QUIT", "TERM", "USR1", "USR2", "ALRM", "PIPE", "WINCH", "CHLD", "URG")
    jobs = [(b, s) for s in sigs for b in (base, lib)]
    with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
        codes = dict(zip(jobs, ex.map(lambda j: once(j[0], {}, str(int(getattr(signal, "SIG" + j[1]))))[0], jobs)))
    for s in sigs:
        a, b = codes[base, s], codes[lib, s]
        counters["signals sent"] = counters.get("signals sent", 0) + 1
        c.cov["evaluations"] += 1
        if a != b:
            c.violate("signals", "state", "SIG%s ends the program without the library with %d, the one with it with %d" % (s, a, b))
    c.cov["distinct_nontrivial"] += counters["signals sent"]
    c.assumptions.append("State that neither the Go standard library nor /proc shows is not compared.")
