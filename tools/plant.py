"""Plant a bug: python3 tools/plant.py SPEC.json  -> seeded/<id>/
SPEC: {"id","property","needs","what_it_breaks","edits":[[file,old,new],...],"demo": "python text"}
The change is kept only when the tree still builds and passes the stable test,
the demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile

REPO, HERE = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# run with cwd = the repository, after the build
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/py" exec python3 "$D/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def stable(cwd):
    r = sh("PYTHONDONTWRITEBYTECODE=1 python3 -m unittest tests.test_other.TestOther.test_is_gismu_dictionary", cwd + "/py")
    return r.returncode == 0, r.stderr[-500:]


def main(spec):
    s = spec
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        for n in ("a", "b"):
            shutil.copytree(REPO + "/py", tmp + "/%s/py" % n, ignore=shutil.ignore_patterns("__pycache__", "build", "*.egg-info"))
        os.symlink(REPO + "/tests", tmp + "/a/tests")
        os.symlink(REPO + "/tests", tmp + "/b/tests")
        for f, old, new in s["edits"]:
            p = tmp + "/b/py/latkerlo_jvotci/" + f
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        ok, msg = stable(tmp + "/b")
        assert ok, "stable test fails: " + msg
        r = sh("sh %s/demo.sh" % d, tmp + "/a", timeout=300)
        assert r.returncode == 0, "demo fails on the unchanged tree: " + r.stdout + r.stderr
        r = sh("sh %s/demo.sh" % d, tmp + "/b", timeout=300)
        assert r.returncode != 0, "demo passes with the change"
        print(s["id"], "demo:", (r.stdout + r.stderr).strip().split("\n")[-1])
        diff = sh("diff -urN a/py/latkerlo_jvotci b/py/latkerlo_jvotci", tmp).stdout
        diff = "".join("diff --git " + l[len("diff -urN "):] if l.startswith("diff -urN ") else l for l in diff.splitlines(True))
        out = HERE + "/seeded/" + s["id"]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        shutil.rmtree(out + "/__pycache__", ignore_errors=True)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        r = sh("git apply --check %s/patch.diff" % out, REPO)
        assert r.returncode == 0, r.stderr
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        try:
            main(b)
        except AssertionError as e:
            print(b["id"], "NOT PLANTED:", e)
