"""C20: the README benchmark updater, run on generated READMEs."""
import concurrent.futures
import os
import random
import shutil
import subprocess

import common
from common import Inconclusive

START = "## Benchmarks\n\n```text\n"
END = "```\n"
RULE = ("A case is a README and benchmark output, both generated: other code blocks (of any language, unterminated, indented) and sections "
        "before and after, the benchmarks block at any place and of any content, files up to some MB, arbitrary bytes, benchmark output of one or many packages "
        "with noise between the lines. Each case runs the tool without -w, with -w, and with -w again. Non-trivial: every case; distinct by content.")


def formatted(lines):
    """What the present README shows for the lines of a benchmark run."""
    out, bench = [], False
    for l in lines:
        if l.startswith("Benchmark"):
            bench = True
            out.append(l[len("Benchmark"):])
        elif l.startswith("goos:"):
            if bench:
                out.append("")
            out.append(l)
        elif l.startswith(("goarch:", "pkg:")):
            out.append(l)
        elif l.startswith("cpu:"):
            out += [l, "--"]
    return out


WORDS = "stream vbyte simd encode decode integer control byte shuffle table Benchmarks benchmark goos cpu text pkg ok PASS ## ### ``` `` ` -- --- * > 0x3f".split()
NAMES = ["WriteAllFast", "ReadAllDeltaFast", "Get8uint32", "MemCopy8Uint32", "PutScalar", "Benchmark", "XBenchmark", "goos", "Varint"]


def bench_output(r):
    lines = []
    for _ in range(r.choice([1, 1, 2, 3, 5, 12])):
        noise(r, lines)
        if r.random() < 0.9:
            lines.append("goos: " + r.choice(["linux", "darwin", "plan9"]))
        noise(r, lines)
        if r.random() < 0.9:
            lines.append("goarch: " + r.choice(["amd64", "arm64"]))
        if r.random() < 0.9:
            lines.append("pkg: github.com/x/y/" + r.choice(["encode", "decode", "cpu", "Benchmark"]))
        if r.random() < 0.8:
            lines.append("cpu: Intel(R) Core(TM) i%d CPU @ %.2fGHz" % (r.randrange(3, 10), r.random() * 5))
        for _ in range(r.choice([0, 1, 3, 10, 40] if r.random() < 0.98 else [3000])):
            noise(r, lines)
            lines.append("Benchmark%s/Count_1e%d-12 \t%8d\t%10.1f ns/op\t%.2f MB/s" % (r.choice(NAMES), r.randrange(8), r.randrange(1, 10**8), r.random() * 10**6, r.random() * 10**4))
        noise(r, lines)
    if not formatted(lines):
        lines.append("BenchmarkX-8\t1\t1 ns/op")
    return lines


def noise(r, lines):
    while r.random() < 0.25:
        lines.append(r.choice(["", "PASS", "ok  \tgithub.com/x/y\t12.3s", "?   \tx\t[no test files]", "=== RUN   TestX", "--- PASS: TestX (0.00s)", "    x_test.go:17: Benchmark of goos",
                               " BenchmarkIndented-8 \t1\t1 ns/op", "exit status 2", "\tcpu: indented", "benchmark lower", "\u00e9\u4e16 text", "FAIL", "--", "a " * 2000]))


def prose(r, big=False):
    out = []
    for _ in range(r.randrange(0, 400000 if big else 12)):
        k = r.random()
        if k < 0.12:
            out.append("")
        elif k < 0.2:
            out.append(r.choice(["# Title", "## Usage", "### Benchmarks of others", "## Benchmarks of others", "## benchmarks", "## Benchmarks", "##Benchmarks"]))
        else:
            out.append(" ".join(r.choice(WORDS[:14]) for _ in range(r.randrange(1, 9))))
    return "".join(l + "\n" for l in out)


def code(r):
    lang = r.choice(["", "text", "go", "sh", "text"])
    body = "".join(r.choice(["x := 1\n", "111 in binary:\n", "\n", "goos: linux\n", "--\n", "\tindented\n", "Benchmarks\n", "## Benchmarks\n"]) for _ in range(r.randrange(0, 6)))
    return "```" + lang + "\n" + body + END


def other(r, big=False):
    """Text around the section: never completes the start of a section itself."""
    while True:
        s = ""
        for _ in range(r.randrange(0, 7)):
            k = r.random()
            if k < 0.45:
                s += code(r)
            elif k < 0.9:
                s += prose(r)
            elif k < 0.95:
                s += "".join(chr(r.choice([0, 9, 13, 0x7f, 0xe9, 0x4e16, 65])) for _ in range(r.randrange(40))) + "\n"
            else:
                s += "inline ```code``` and ``` more\n"
        if big:
            s += prose(r, True)
        if START not in s and not s.endswith(("#", "## Benchmarks\n\n", "## Benchmarks\n")):
            return s


def case(seed, i):
    r = random.Random("%d/%d" % (seed, i))
    lines = bench_output(r)
    big = i % 149 == 7
    pre, post = other(r, big and i % 2 == 0), other(r, big and i % 2 == 1)
    if r.random() < 0.15:
        pre = ""
    if r.random() < 0.15:
        post = ""
    old = r.choice(["", "\n", "".join(x + "\n" for x in formatted(bench_output(r))), "something else entirely\n", "WriteAll-8 1 ns/op\n" * r.randrange(2000)])
    kind = r.choice(["ok"] * 8 + ["missing", "unterminated"])
    bpre, bpost = pre.encode(), post.encode()
    if r.random() < 0.2:  # not UTF-8
        bpost += b"\xff\xfe\x80\r\nlast line"
    if kind == "missing":
        body = bpre + r.choice(["## Benchmarks\n\nnone yet\n", "## Benchmarks\n```text\nx\n```\n", "## Benchmark\n\n```text\nx\n```\n", "", "## Benchmarks\n\n```go\nx\n```\n"]).encode() + bpost
        want = None
        if START.encode() in body:
            kind, body = "missing", b"# Title\n\n```text\nx\n```\n"
    elif kind == "unterminated":
        tail = prose(r).replace("```", "")
        body = bpre + START.encode() + old.encode() + tail.encode()
        want = None
    else:
        body = bpre + START.encode() + old.encode() + END.encode() + bpost
        want = bpre + START.encode() + ("".join(l + "\n" for l in formatted(lines))).encode() + END.encode() + bpost
    if kind == "ok" and i % 37 == 11:  # a line longer than line scanners like
        kind = "long line"
        k = r.randrange(len(lines) + 1)
        lines.insert(k, r.choice(["x", "BenchmarkLong "]) + "y" * r.choice([65536, 70000, 1 << 20]))
        lines.append("BenchmarkLast-8 \t1\t1 ns/op")
        want = bpre + START.encode() + ("".join(l + "\n" for l in formatted(lines))).encode() + END.encode() + bpost
    stdin = "\n".join(lines).encode() + (b"" if r.random() < 0.2 else b"\n")
    return kind, body, want, stdin


def run(c, replay):
    tool = os.path.join(c.tmp, "updater")
    p = subprocess.run(["go", "build", "-o", tool, "./tools/parse_and_write_bench.go"], cwd=common.REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        p = subprocess.run(["go", "build", "-o", tool, "./tools"], cwd=common.REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Inconclusive("the tool does not build: " + p.stdout[-2000:])
    cov = c.cov
    cov["rule"] = RULE
    counters = cov.setdefault("counters", {})
    total = 1500 if common.TIER == "quick" else 40000
    todo = range(total) if not replay else [replay["index"]]

    def diff(got, want):
        k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        return "byte %d: got %r want %r (lengths %d, %d)" % (k, got[max(0, k - 30):k + 40], want[max(0, k - 30):k + 40], len(got), len(want))

    def one(i):
        kind, body, want, stdin = case(common.SEED if not replay else replay["seed"], i)
        home = os.path.join(c.tmp, "home-%d" % i)
        cwd = os.path.join(c.tmp, "cwd-%d" % i)
        os.mkdir(home)
        os.mkdir(cwd)
        readme, decoy = os.path.join(home, "README.md"), os.path.join(cwd, "README.md")
        decoytext = (START + "decoy\n" + END).encode()
        bad = []

        def put(path, data):
            with open(path, "wb") as f:
                f.write(data)

        def get(path):
            try:
                with open(path, "rb") as f:
                    return f.read()
            except OSError as e:
                return ("unreadable: %s" % e).encode()

        def tool_run(args):
            p = subprocess.run([tool] + args, cwd=cwd, env={"SBYTE_HOME": home, "PATH": "/usr/bin:/bin", "HOME": cwd}, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            return p.returncode, p.stdout, p.stderr

        put(readme, body)
        put(decoy, decoytext)
        try:
            code, out, err = tool_run([])
            if kind == "long line" and code != 0:
                want = None  # refusing is as good
            if get(readme) != body:
                bad.append(("not-asked", "run without -w changed the file: " + diff(get(readme), body)))
                put(readme, body)
            if want is None:
                if code == 0:
                    bad.append(("no-failure", "%s section but exit 0, printed %r" % (kind, out[:300])))
            elif code != 0:
                bad.append(("failure", "exit %d: %r" % (code, err[-600:])))
            elif out != want:
                bad.append(("output", "printed result: " + diff(out, want)))
            code, out, err = tool_run(["-w"])
            now = get(readme)
            if want is None:
                if code == 0:
                    bad.append(("no-failure", "%s section but exit 0 with -w" % kind))
                if now != body:
                    bad.append(("damage", "%s section, yet the file was changed: " % kind + diff(now, body)))
            elif code != 0:
                bad.append(("failure", "exit %d with -w: %r" % (code, err[-600:])))
            elif now != want:
                bad.append(("written", "written file: " + diff(now, want)))
            else:
                code, out, err = tool_run(["-w"])
                if code != 0 or get(readme) != want:
                    bad.append(("not-idempotent", "second run: exit %d, " % code + diff(get(readme), want)))
                put(readme, body)
            if get(decoy) != decoytext:
                bad.append(("wrong-file", "README.md of the working directory was changed"))
        except subprocess.TimeoutExpired:
            bad.append(("no-return", "the tool did not end within 60 s"))
        finally:
            shutil.rmtree(home, ignore_errors=True)
            shutil.rmtree(cwd, ignore_errors=True)
        return i, kind, hash((body, stdin)), bad, len(body), len(stdin)

    seen = set()
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for i, kind, h, bad, nb, ns in ex.map(one, todo):
            seen.add(h)
            cov["evaluations"] += 1
            key = "READMEs with " + {"ok": "a section", "missing": "no section", "long line": "a section, output with a line beyond 64 KiB", "unterminated": "an unterminated section"}[kind]
            counters[key] = counters.get(key, 0) + 1
            counters["README bytes"] = counters.get("README bytes", 0) + nb
            if i % 173 == 0:
                cov["samples"].append("case %d: %s, README of %d bytes, benchmark output of %d bytes" % (i, kind, nb, ns))
            for k, d in bad:
                if len(c.violations) < 12:
                    c.violate("parse_and_write_bench", k, "case %d (%s): %s" % (i, kind, d), "readme", i)
    cov["distinct_nontrivial"] = len(seen)
    if not replay and len(counters) < 5:
        raise Inconclusive("not all kinds of READMEs occurred")
    c.assumptions.append("Lines that merely begin like recognised ones (such as \"pkgfoo\"), headings that contain the section's heading, and an empty benchmark run are not exercised: what should happen then is not documented.")
