#!/usr/bin/env python3
"""tools/seed.py SPEC.py...: build seeded/<id>/ from a bug specification and confirm it.

A specification defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source; exit 0 = property holds).
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json")) if os.path.exists("/opt/vp/BASELINE.json") else {}


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("git", "-C", "/repo", "checkout", "--", ".")


def demo(d):
    r = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo", timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def failing():
    sh("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
    ok = set(json.load(open("/tmp/seed_out.json"))["passed"])
    return [t for t in BASE["stable"] if t not in ok]


def base_lines(diff):
    """every removed line belongs to the original repository"""
    base = sh("git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD").stdout.split()[0]
    f, n, bad, removed = None, 0, [], 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            c = sh("git", "-C", "/repo", "blame", "-s", "--abbrev=40", "-L", f"{n},{n}", "HEAD", "--", f).stdout.split()[0].lstrip("^")
            if l[1:].strip() and not base.startswith(c):
                bad.append((f, n))
            n += 1
        elif not l.startswith("+") and not l.startswith("\\"):
            n += 1
    return bad, removed


def main(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    d = os.path.join(HERE, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    assert sh("git", "-C", "/repo", "status", "--short").stdout == "", "repo dirty"
    open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"])
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    rc, out = demo(d)
    if rc != 0:
        print(f"{ns['ID']}: demo fails on the unchanged tree rc={rc}\n{out}"); return False
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, f"{ns['ID']}: {s.count(old)} matches of edit in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", "/repo", "diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        rc, out = demo(d)
        if rc == 0:
            print(f"{ns['ID']}: demo passes with the patch"); ok = False
        missing = failing()
        if missing:
            print(f"{ns['ID']}: stable tests fail: {missing[:3]}"); ok = False
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode != 0:
            print(f"{ns['ID']}: build fails"); ok = False
        c = sh("python3", "check.py", ns["PROP"], cwd=HERE)
        line = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{ns['ID']}: {'confirmed' if ok else 'REJECTED'}; check exit {c.returncode} {'CAUGHT' if c.returncode == 1 and line else 'MISSED'}")
        if c.returncode == 1:
            print("    " + "\n    ".join(c.stdout.splitlines()[:2])[:400])
        elif c.returncode not in (0, 1):
            print(c.stdout[-500:], c.stderr[-500:])
    finally:
        clean()
    bad, removed = base_lines(diff)
    if bad or not removed:
        print(f"{ns['ID']}: touches lines that are not original: {bad} (removed {removed})"); ok = False
    if not ok:
        subprocess.run(["rm", "-rf", d])
    return ok


if __name__ == "__main__":
    sys.exit(0 if all([main(a) for a in sys.argv[1:]]) else 1)


