#!/opt/venv/bin/python
"""Plant bugs: mkseed.py FILE.py [ID...]

FILE.py defines SEEDS = [dict(id, prop, file, old, new, needs, breaks, demo)], or edits=[(file, old, new)...] in
place of file/old/new.  Each change is made in a scratch copy of /repo's HEAD, the demonstration has to pass without it
and fail with it, and the repository's tests have to pass with it (option --notest skips that; --test does only that
for seeds that exist).  What is confirmed goes to /verif/seeded/<id>."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEEDED = "/verif/seeded"
SRC = "BayesicFitting/source/"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def copy():
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && "
                   "git -c user.name=x -c user.email=x commit -q -m x" % (d, d), shell=True, check=True)
    return d


def stable():
    b = BASE
    for k in ("stable", "tests", "passed", "pass"):
        if k in b:
            return set(b[k])
    raise SystemExit(list(b))


def runtests(d, n=8):
    env = dict(os.environ, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="%s:/opt/vp/plugins:%s/BayesicFitting/test" % (d, d))
    t = "BayesicFitting/test"
    subprocess.run(["timeout", "840", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p",
                    "no:warnings", "-p", "seedrng", "-o", "python_files=Test*.py", "-n", str(n), "--dist", "worksteal",
                    "--timeout=400", "--tb=short", "--continue-on-collection-errors",
                    "--ignore=%s/TestModifiable.py" % t, "--ignore=%s/TestNestedSampler.py" % t,
                    "--ignore=%s/TestNestedSolver.py" % t, "--ignore=%s/TestPhantomSampler.py" % t,
                    "-o", "junit_family=xunit2", "--junitxml=%s/junit.xml" % d, t], cwd=d, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = d + "/out.json"
    subprocess.run(["python3", "/opt/vp/results.py", out, "junit:%s/junit.xml" % d], stdout=subprocess.DEVNULL)
    r = json.load(open(out))
    return r


def failing(r):
    """stable tests that did not pass"""
    ok = set(r["passed"]) if "passed" in r else {k for k, v in r.items() if v in ("passed", "pass", True)}
    return sorted(stable() - ok)


def demo(d, folder):
    p = subprocess.run(["bash", folder + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, OMP_NUM_THREADS="1"), timeout=300, text=True)
    return p.returncode, p.stdout[-600:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = {a for a in sys.argv[1:] if a.startswith("--")}
    ns = {}
    exec(open(args[0]).read(), ns)
    for s in ns["SEEDS"]:
        if args[1:] and s["id"] not in args[1:]:
            continue
        dst = os.path.join(SEEDED, s["id"])
        if not args[1:] and os.path.exists(dst):
            continue
        d = copy()
        try:

            for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
                p = os.path.join(d, SRC + f if "/" not in f or f.startswith("kernels") else f)
                t = open(p).read()
                base = subprocess.run(["git", "-C", "/repo", "show", "3f3ebff:" + os.path.relpath(p, d)],
                                      stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
                assert any(q in base for q in old.splitlines() if q.strip() and q not in new.splitlines()) or \
                    all(q in base for q in old.splitlines()), (s["id"], "not a line of the original")
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True, check=True).stdout
            tmp = tempfile.mkdtemp(prefix="demo", dir="/tmp")
            with open(tmp + "/demo.py", "w") as fh:
                fh.write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n"
                         "import warnings\nwarnings.simplefilter('ignore')\nimport math\nimport numpy as np\n"
                         "import BayesicFitting as bf\n"
                         "assert os.path.realpath(bf.__file__).startswith(os.path.realpath(os.getcwd()))\n"
                         + s["demo"].strip() + "\nprint('ok')\n")
            with open(tmp + "/demo.sh", "w") as fh:
                fh.write('#!/bin/bash\nexport MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                         'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            with open(tmp + "/patch.diff", "w") as fh:
                fh.write(diff)
            with open(tmp + "/meta.json", "w") as fh:
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, fh, indent=1)
                fh.write("\n")
            a, ao = demo("/repo", tmp)
            b, bo = demo(d, tmp)
            if a != 0 or b == 0:
                print("NO  %s: demo on clean %d, on patched %d\n--clean: %s\n--patched: %s" % (s["id"], a, b, ao, bo))
                shutil.rmtree(tmp)
                continue
            if "--notest" not in opts:
                bad = failing(runtests(d))
                if bad:
                    print("NO  %s: tests fail: %s" % (s["id"], bad[:5]))
                    shutil.rmtree(tmp)
                    continue
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(tmp, dst)
            shutil.rmtree(tmp)
            print("OK  %s (%s)   patched: %s" % (s["id"], s["prop"], bo.strip().splitlines()[-1:] if bo else ""))
        except AssertionError as e:
            print("NO ", e)
        finally:
            shutil.rmtree(d)
        sys.stdout.flush()


if __name__ == "__main__":
    main()
