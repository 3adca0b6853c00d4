"""C24, and the part of C20 about tools/update_bench.sh: the scripts, run in scratch copies."""
import concurrent.futures
import os
import random
import re
import shutil
import subprocess

import common
from common import Inconclusive

TROUBLE = r"no space left|cannot allocate memory|signal: killed|resource temporarily unavailable"


def sh(cmd, cwd, env=None, timeout=400):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def copy_repo(c, name):
    dst = os.path.join(c.tmp, name)
    shutil.copytree(common.REPO, dst, ignore=shutil.ignore_patterns(".git"), symlinks=True)
    return dst


STUB = """#!/bin/bash
# stands in for the go command: the benchmark run is canned, the rest is real
if [ "$1" = test ]; then
  echo "$*" >> "$STUB_DIR/calls"
  cat "$STUB_DIR/output"
  exit "$(cat "$STUB_DIR/code")"
fi
exec "$STUB_GO" "$@"
"""


def update_bench(c, replay=None):
    """tools/update_bench.sh with a canned benchmark run."""
    import readme
    go = shutil.which("go")
    home = copy_repo(c, "update")
    jobs = []
    quick = common.TIER == "quick"
    seed = replay["seed"] if replay else common.SEED
    r = random.Random("scripts/%d" % seed)
    for k in range(12 if quick else 120):
        jobs.append((k, "succeeds" if k % 2 == 0 else "fails", r.random()))

    def one(job):
        k, kind, x = job
        r = random.Random(x)
        d = os.path.join(c.tmp, "ub-%d" % k)
        for s in ("bin", "tmp", "stub"):
            os.makedirs(os.path.join(d, s))
        rk, body, want, stdin = "", b"", None, b""
        i = r.randrange(10**6)
        while rk not in ("ok", "missing" if k % 10 == 4 else "ok"):
            i += 1
            rk, body, want, stdin = readme.case(seed, i)
        home2 = os.path.join(d, "home")
        shutil.copytree(home, home2, symlinks=True)
        target = os.path.join(home2, "README.md")
        open(target, "wb").write(body)
        code = 0
        if kind == "fails":
            code, want = r.choice([1, 2]), None
            stdin = stdin[:r.randrange(len(stdin) + 1)] + b"\nFAIL\n"
        open(d + "/stub/output", "wb").write(stdin)
        open(d + "/stub/code", "w").write(str(code))
        open(d + "/bin/go", "w").write(STUB)
        os.chmod(d + "/bin/go", 0o755)
        env = dict(os.environ, SBYTE_HOME=home2, TMPDIR=d + "/tmp", STUB_DIR=d + "/stub", STUB_GO=go, PATH=d + "/bin:" + os.environ["PATH"])
        rc, out = sh([os.path.join(home2, "tools", "update_bench.sh")], home2, env)
        if re.search(TROUBLE, out):
            raise Inconclusive("update_bench.sh: " + out[-1500:])
        got = open(target, "rb").read()
        bad = []
        what = "benchmark run that %s (exit %d) with %d bytes of output, README with %s section" % (kind, code, len(stdin), "a" if rk == "ok" else "no")
        called = os.path.exists(d + "/stub/calls") and "-bench" in open(d + "/stub/calls").read()
        if not called:
            bad.append(("no-run", "%s: no benchmark run was started; exit %d %s" % (what, rc, out[-600:])))
        elif want is None:
            if rc == 0:
                bad.append(("no-failure", "%s: the script ended with exit 0" % what))
            if got != body:
                bad.append(("damage", "%s: the README was changed, it has %d bytes instead of %d" % (what, len(got), len(body))))
        else:
            if rc != 0:
                bad.append(("failure", "%s: exit %d %s" % (what, rc, out[-800:])))
            elif got != want:
                bad.append(("written", "%s: the README is not the expected one (%d bytes, want %d)" % (what, len(got), len(want))))
        shutil.rmtree(d, ignore_errors=True)
        return k, what, bad

    counters = c.cov.setdefault("counters", {})
    with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
        for k, what, bad in ex.map(one, jobs):
            c.cov["evaluations"] += 1
            c.cov["distinct_nontrivial"] += 1
            key = "runs of update_bench.sh with a benchmark run that " + ("succeeds" if "succeeds" in what else "fails")
            counters[key] = counters.get(key, 0) + 1
            if k < 3:
                c.cov["samples"].append("update_bench.sh: " + what)
            for kind, detail in bad:
                if len(c.violations) < 12:
                    c.violate("update_bench.sh", kind, detail)
    shutil.rmtree(home, ignore_errors=True)


def snapshot(root):
    """Content of every file below root that git knows or does not ignore."""
    rc, out = sh(["git", "ls-files", "-z", "-c", "-o", "--exclude-standard"], root)
    if rc != 0:
        raise Inconclusive("git ls-files: " + out)
    files = {}
    for f in out.split("\0"):
        p = os.path.join(root, f)
        if f and os.path.isfile(p):
            files[f] = open(p, "rb").read()
    return files


def generate_and_check(c, replay=None):
    """tools/generate_and_check.sh on trees in several states, against a comparison of the files."""
    c.cov["rule"] = ("A case is a git repository made of the present tree with its generated files brought up to date, in some state: clean, unrelated uncommitted, staged or untracked changes, a generated file changed (committed or not), "
                     "deleted, generation that makes a new file or appends to a committed one, a failing or broken generator. The script's verdict is compared with whether generation changed or made any file. Non-trivial: every case.")
    env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="x", GIT_AUTHOR_EMAIL="x@x", GIT_COMMITTER_NAME="x", GIT_COMMITTER_EMAIL="x@x")
    base = copy_repo(c, "gencheck")

    def git(root, *args):
        rc, out = sh(["git"] + list(args), root, env)
        if rc != 0:
            raise Inconclusive("git %s: %s" % (" ".join(args), out[-800:]))
        return out

    rc, out = sh(["go", "generate", "./pkg/..."], base, env)
    if rc != 0:
        if re.search(TROUBLE, out):
            raise Inconclusive("go generate: " + out[-1500:])
        c.cov["evaluations"] += 1
        c.violate("go generate", "generation-failure", out[-2000:])
        return
    git(base, "init", "-q")
    git(base, "add", "-A")
    git(base, "commit", "-q", "-m", "base")

    def edit(root, f, fn):
        p = os.path.join(root, f)
        t = open(p).read()
        n = fn(t)
        if n == t:
            raise Inconclusive("scenario does not apply to " + f)
        open(p, "w").write(n)

    def edited(f, fn):
        return lambda root: edit(root, f, fn)

    def append(f, text):
        return lambda root: edit(root, f, lambda t: t + text)

    def commit(root):
        git(root, "add", "-A")
        git(root, "commit", "-q", "-m", "change")

    def then(*fs):
        def f(root):
            for x in fs:
                x(root)
        return f

    def stage(root):
        git(root, "add", "-A")

    def remove(f):
        return lambda root: os.remove(os.path.join(root, f))

    def new(f, text):
        def g(root):
            with open(os.path.join(root, f), "w") as h:
                h.write(text)
        return g

    TAB, ENC, DEC = "pkg/shared/tables.go", "pkg/encode/encode_amd64.s", "pkg/decode/decode_amd64.s"
    gen = lambda cmd: append("pkg/shared/gen.go", "\n//go:generate " + cmd + "\n")
    cases = [
        ("clean", lambda root: None),
        ("unrelated uncommitted change", append("LICENSE", "x\n")),
        ("unrelated staged change and untracked file", then(append("LICENSE", "x\n"), stage, new("notes", "n\n"))),
        ("unrelated staged change, then changed again", then(append("LICENSE", "x\n"), stage, append("LICENSE", "y\n"))),
        ("unrelated file deleted, not committed", remove("LICENSE")),
        ("tables changed and committed", then(append(TAB, "\n// changed\n"), commit)),
        ("tables changed, not committed", append(TAB, "\n// changed\n")),
        ("tables changed and staged", then(append(TAB, "\n// changed\n"), stage)),
        ("encoder assembly changed and committed", then(append(ENC, "\n// changed\n"), commit)),
        ("decoder assembly changed and committed", then(append(DEC, "\n// changed\n"), commit)),
        ("decoder assembly changed, not committed", append(DEC, "\n// changed\n")),
        ("decoder assembly deleted and committed", then(remove(DEC), commit)),
        ("encoder assembly deleted, not committed", remove(ENC)),
        ("generation makes a new file", then(gen("touch made_by_generation"), commit)),
        ("generation makes a new file, other untracked files present", then(gen("touch made_by_generation"), commit, new("pkg/shared/notes", "n\n"))),
        ("generation appends to a committed file", then(new("pkg/shared/log", "1\n"), gen('sh -c "echo line >> log"'), commit)),
        ("generation appends to a committed file with uncommitted changes", then(new("pkg/shared/log", "1\n"), gen('sh -c "echo line >> log"'), commit, append("pkg/shared/log", "2\n"))),
        ("generation appends to a committed file, unrelated changes", then(new("pkg/shared/log", "1\n"), gen('sh -c "echo line >> log"'), commit, append("LICENSE", "x\n"), new("notes", "n\n"))),
        ("generation deletes a committed file", then(new("pkg/shared/log", "1\n"), gen("rm -f log"), commit)),
        ("generation fails", then(gen("false"), commit)),
        ("generation fails with unrelated changes", then(gen("false"), append("LICENSE", "x\n"))),
        ("generation changes a line of a file with uncommitted changes", then(new("pkg/shared/log", "a\nb\n"), gen("sed -i s/b/c/ log"), commit, edited("pkg/shared/log", lambda t: t.replace("a", "z")))),
        ("generation changes a line that has uncommitted changes", then(new("pkg/shared/log", "a\n"), gen("sed -i s/b/c/ log"), commit, edited("pkg/shared/log", lambda t: "b\n"))),
        ("generation takes back an uncommitted change", then(new("pkg/shared/log", "a\n"), gen("sed -i s/b/a/ log"), commit, edited("pkg/shared/log", lambda t: "b\n"))),
        ("generation changes a staged file", then(new("pkg/shared/log", "a\n"), gen("sed -i s/b/c/ log"), commit, edited("pkg/shared/log", lambda t: "b\n"), stage)),
        ("generation changes a file elsewhere in the tree", then(gen("sed -i s/MIT/TIM/ ../../LICENSE"), commit)),
        ("generation makes a file elsewhere in the tree", then(gen("touch ../../tools/made"), commit)),
        ("generation swaps two files", then(new("pkg/shared/log", "a\n"), new("pkg/shared/other", "b\n"), gen('sh -c "cp log t; mv other log; mv t other"'), commit)),
        ("generation changes a committed file that is deleted beforehand", then(new("pkg/shared/log", "a\n"), gen('sh -c "echo b > log"'), commit, remove("pkg/shared/log"))),
        ("a generator in the encoder's directory fails", then(append("pkg/encode/gen.go", "\n//go:generate false\n") if os.path.exists(os.path.join(base, "pkg/encode/gen.go")) else gen("sh -c 'exit 3'"), commit)),
        ("generator does not compile", then(append("pkg/encode/main/asm.go", "\nfunc {\n"), commit)),
    ]
    plain = len(cases)
    if common.TIER != "quick":
        r = random.Random(common.SEED)
        for k in range(60):
            picks = r.sample(range(1, plain), 2)
            a, b = cases[picks[0]], cases[picks[1]]
            cases.append(("%s + %s" % (a[0], b[0]), then(a[1], b[1])))
    counters = c.cov.setdefault("counters", {})

    def one(k):
        name, change = cases[k]
        d = os.path.join(c.tmp, "gc-%d" % k)
        shutil.copytree(base, d, symlinks=True)
        try:
            try:
                change(d)
            except (Inconclusive, OSError):
                if k >= plain:
                    return k, name, None, 0, []  # a combination that makes no sense
                raise
            before = snapshot(d)
            ref = d + "-ref"
            shutil.copytree(d, ref, symlinks=True)
            rc, out = sh(["go", "generate", "./pkg/..."], ref, env)
            after = snapshot(ref)
            want = rc == 0 and before == after
            shutil.rmtree(ref, ignore_errors=True)
            heads = git(d, "rev-parse", "HEAD"), git(d, "stash", "list")
            rc2, out2 = sh([os.path.join(d, "tools", "generate_and_check.sh")], d, env)
            if re.search(TROUBLE, out + out2):
                raise Inconclusive("generate_and_check.sh: " + out2[-1500:])
            bad = []
            if (rc2 == 0) != want:
                bad.append(("verdict", "%s: exit %d although generation %s; %s" % (name, rc2, "failed" if rc else "changed " + ", ".join(sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f)))[:300] if before != after else "changed nothing", out2[-600:])))
            if snapshot(d) != after and rc == 0:
                bad.append(("files", "%s: after the script the files differ from those after generation" % name))
            if (git(d, "rev-parse", "HEAD"), git(d, "stash", "list")) != heads:
                bad.append(("history", "%s: the script changed the history" % name))
            return k, name, want, rc2, bad
        finally:
            shutil.rmtree(d, ignore_errors=True)

    todo = range(len(cases))
    if replay and replay.get("index", -1) >= 0:
        todo = [replay["index"]]
    with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
        for k, name, want, rc, bad in ex.map(one, todo):
            if want is None:
                continue
            c.cov["evaluations"] += 1
            c.cov["distinct_nontrivial"] += 1
            key = "trees that generation leaves as they are" if want else "trees that generation changes, or whose generation fails"
            counters[key] = counters.get(key, 0) + 1
            if k % 4 == 0 and len(c.cov["samples"]) < 12:
                c.cov["samples"].append("%s: exit %d" % (name, rc))
            for kind, detail in bad:
                c.violate("generate_and_check.sh", kind, detail, "trees", k)
    if len(counters) < 2 and not replay:
        raise Inconclusive("not both kinds of trees occurred")
    shutil.rmtree(base, ignore_errors=True)
