#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in bugs*.py and confirms each in a scratch copy of /repo:
the patch applies to HEAD, touches original lines, the stable tests pass, the demonstration passes without
and fails with it.   mkbugs.py [id ...]     Nothing here is read by a check."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\n# run with the working directory /repo\nset -e\nD="$(cd "$(dirname "$0")" && pwd)"\n' \
          'export PYTHONDONTWRITEBYTECODE=1\nexport PYTHONPATH="$PWD/src:$D"\nexec /opt/venv/bin/python "$D/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def load():
    out = {}
    for f in sorted(glob.glob(HERE + "/bugs*.py")):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            out[b["id"]] = b
    return out


def stable_tests(copy):
    """the suite of test.sh, against the copy"""
    env = dict(os.environ, PYTHONPATH=copy + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    w = copy + ".tests"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(copy + "/tests", w + "/tests")
    os.remove(w + "/tests/__init__.py")
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir", w, "tests/test_05_constraints.py",
            "tests/test_08_trust_mark_file_db.py"], cwd=w, env=env)
    return r.stdout


def build(b, copy, base_out):
    d = os.path.join(VERIF, "seeded", b["id"])
    sh(["git", "-C", copy, "checkout", "-q", "--", "."])
    for f, old, new in b["edits"]:
        p = os.path.join(copy, "src/fedservice", f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "BAD EDIT", f, s.count(old), repr(old)[:80])
            return False
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "-C", copy, "diff"]).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write('"""%s"""\nfrom demolib import *\n\n' % b["breaks"].replace('"', "'") + b["demo"].strip() + "\n")
    shutil.copy(HERE + "/demolib.py", d + "/demolib.py")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    # original lines?
    orig = False
    for f, old, new in b["edits"]:
        bl = sh(["git", "-C", "/repo", "blame", "-s", "src/fedservice/" + f]).stdout.splitlines()
        for h in diff.split("\n@@ ")[1:]:
            pass
    import re
    cur = None
    removed = []
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
            bl = sh(["git", "-C", "/repo", "blame", "-s", cur]).stdout.splitlines()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            removed.append((bl[n - 1].startswith("^"), line))
            n += 1
        elif line.startswith(" "):
            n += 1
    if not any(o for o, _ in removed):
        print(b["id"], "NO ORIGINAL LINE", removed)
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    bad = sh([d + "/demo.sh"], cwd=copy, env=env)
    t = stable_tests(copy)
    tests_ok = t.splitlines()[-1].split(" in ")[0] == base_out if t else False
    sh(["git", "-C", copy, "checkout", "-q", "--", "."])
    good = sh([d + "/demo.sh"], cwd=copy, env=env)
    # with a do-nothing edit the demo must stay quiet too
    ok = good.returncode == 0 and bad.returncode != 0 and tests_ok
    print(f"{b['id']:34} {b['property']} good={good.returncode} bad={bad.returncode} tests={tests_ok} {'ok' if ok else 'PROBLEM'}")
    if good.returncode:
        print(good.stdout[-1500:], good.stderr[-1500:])
    elif not ok:
        print(t[-800:], bad.stdout[-300:])
    else:
        print("      ", (bad.stderr.strip().splitlines() or [""])[-1][:150])
    return ok


def main():
    bugs = load()
    want = sys.argv[1:] or list(bugs)
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        copy = tmp + "/repo"
        sh(["cp", "-a", "/repo", copy])
        base_out = stable_tests(copy).splitlines()[-1].split(" in ")[0]
        print("baseline:", base_out)
        bad = [i for i in want if not build(bugs[i], copy, base_out)]
        print("problems:", bad)
    finally:
        shutil.rmtree(tmp)


main()
