#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the descriptions in tools/seedsrc/*.py and confirms each one.

usage: mkseed.py [--check] [id...]
A description: dict(id=, property=, edits=[(file, old, new)...], needs=, breaks=, demo=<Go main body>, imports=[...])
The demo prints observations; demo.sh compares them with expected.txt recorded on the unchanged tree.
"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seedlib
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])

DEMO = '''#!/bin/bash
# Runs the small program beside this file against the code in the current directory and compares
# what it prints with what the correct code prints.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$D" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./zz_demo || exit 3
timeout 60 "$T/demo" > "$T/out.txt" 2>"$T/err.txt" || { echo "demo failed"; head -5 "$T/err.txt"; exit 1; }
diff "$D/expected.txt" "$T/out.txt"
'''


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)


def load():
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools/seedsrc/*.py"))):
        g = {"seed": seedlib.seed, "HERE": HERE}
        exec(open(f).read(), g)
        seeds += g["SEEDS"]
    return seeds


def gomain(s):
    imps = sorted(set(s.get("imports", [])) | {"fmt"})
    ours = ("beatmap", "performance/", "files", "math/curves", "math/vector", "math/mutils", "math/math32")
    return "package main\n\nimport (\n" + "".join('\t"%s"\n' % ("github.com/Wieku/gosu-pp/" + i if i.startswith(ours) else i) for i in imps) + \
        ")\n\nvar _ = fmt.Sprint\n\n" + s.get("decls", "") + "\nfunc main() {\n" + s["demo"].strip("\n") + "\n}\n"


def make(s):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    w = os.path.join(tmp, "repo")
    try:
        sh("cp -a /repo %s && cd %s && git checkout -q -- . && git clean -fdq" % (w, w))
        open(os.path.join(d, "main.go"), "w").write(gomain(s))
        sh("gofmt -w main.go", d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("go build", "go build -race") if "// race" in s["demo"] else DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "expected.txt"), "w").write("")
        # expected output on the unchanged tree
        o = os.path.join(tmp, "o.json")
        json.dump({"Replace": {w + "/zz_demo/main.go": d + "/main.go"}}, open(o, "w"))
        p = sh("go build -overlay %s -o %s/demo ./zz_demo && timeout 60 %s/demo > %s/expected.txt" % (o, tmp, tmp, d), w)
        if p.returncode:
            return "demo does not run on the unchanged tree: " + p.stdout[-1500:]
        if not open(os.path.join(d, "expected.txt")).read().strip():
            return "demo prints nothing"
        for f, old, new in s["edits"]:
            path = os.path.join(w, f)
            t = open(path).read()
            if t.count(old) != 1:
                return "edit of %s: old text occurs %d times: %r" % (f, t.count(old), old)
            open(path, "w").write(t.replace(old, new))
        p = sh("gofmt -l . ; go build ./...", w)
        if p.returncode:
            return "does not build: " + p.stdout[-1500:]
        diff = sh("git diff", w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        base = sh("git rev-list --max-parents=0 HEAD", w).stdout.strip()
        orig = set(x.strip() for f, _, _ in s["edits"] for x in sh("git show %s:%s" % (base, f), w).stdout.split("\n"))
        changed = [x[1:].strip() for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
        if changed and not any(x in orig for x in changed if x):
            return "changes only lines the fix commits added: %r" % changed
        t = sh("go test -vet=off -count=1 ./...", w)
        if t.returncode:
            return "tests fail with the patch (exposed by existing tests): " + t.stdout[-300:]
        p = sh("bash %s/demo.sh" % d, w)
        if p.returncode == 0:
            return "demo passes with the patch"
        sh("git checkout -q -- .", w)
        p = sh("bash %s/demo.sh" % d, w)
        if p.returncode:
            return "demo fails on the unchanged tree: " + p.stdout[-500:]
        return "ok"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(s):
    d = os.path.join(HERE, "seeded", s["id"])
    try:
        p = sh("git -C /repo apply %s/patch.diff" % d)
        if p.returncode:
            return "patch does not apply: " + p.stdout
        import time
        t = time.time()
        p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), s["property"]], env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        return "%s (%.0fs) %s" % ({0: "MISSED", 1: "caught"}.get(p.returncode, "ERROR %d" % p.returncode), time.time() - t,
                                  p.stdout.strip()[-600 if p.returncode > 1 else -330:].replace("\n", " | "))
    finally:
        sh("git -C /repo checkout -- .")


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    seeds = [s for s in load() if not a or s["id"] in a or any(s["id"].startswith(x) for x in a)]
    good = seeds
    if "--checkonly" not in sys.argv:
        from concurrent.futures import ThreadPoolExecutor
        good = []
        with ThreadPoolExecutor(4) as ex:
            for s, r in zip(seeds, ex.map(make, seeds)):
                if r == "ok":
                    good.append(s)
                else:
                    shutil.rmtree(os.path.join(HERE, "seeded", s["id"]), ignore_errors=True)
                if r != "ok" or "--check" not in sys.argv:
                    print(s["id"], s["property"], r, flush=True)
    if "--check" in sys.argv or "--checkonly" in sys.argv:
        for s in good:
            print(s["id"], s["property"], check(s), flush=True)


main()
