#!/usr/bin/env python3
"""Development aid: apply behaviour-preserving edits ('same') and bugs to scratch copies of the repository and run checks.
usage: selftest.py [-p C01,C02] [case ids...]   (cases in tools/selftest/*.py; not used by any registered check)"""
import os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "absint"))
CASES = []


def case(id, kind, props, *edits):
    CASES.append((id, kind, props.split(), edits))


def load():
    d = os.path.join(HERE, "selftest")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(d, f)).read(), f, "exec"), {"case": case})


def apply(repo, edits):
    for f, old, new in edits:
        path = os.path.join(repo, f)
        s = open(path, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        if s.count(old) != 1:
            raise SystemExit(f"{f}: {s.count(old)} matches for {old[:80]!r}")
        s = s.replace(old, new)
        if crlf:
            s = s.replace("\n", "\r\n")
        open(path, "w", newline="").write(s)


def run(c, props):
    id, kind, ps, edits = c
    td = tempfile.mkdtemp(prefix="kxself")
    try:
        repo = os.path.join(td, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        shutil.rmtree(os.path.join(repo, "target"), ignore_errors=True)
        apply(repo, edits)
        import main
        try:
            d, out = main.dump(repo)
        except SystemExit as e:
            return id, kind, "DOES NOT COMPILE " + str(e)[-1500:], ""
        res = []
        detail = ""
        for p in (props or ps):
            r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, sys.argv[1]); import main; sys.exit(main.main(sys.argv[2:]))", os.path.join(ROOT, "absint"), p, "--dump=" + out], capture_output=True, text=True,
                               env=dict(os.environ, KX_REPO=repo, KX_EVIDENCE=os.path.join(td, "ev")))
            v = "VIOLATION" in r.stdout
            und = r.stdout.count("undecided:")
            if " obligations" not in r.stdout:
                return id, kind, "BROKEN " + p, (r.stdout + r.stderr)[-1500:]
            res.append((p, "alarm" if v else "quiet", und))
            if v == (kind == "same") or (v and kind == "same") or (not v and kind == "bug") or und:
                detail += "\n".join("      " + l[:260] for l in r.stdout.splitlines()[:8]) + "\n"
        shutil.rmtree(d, ignore_errors=True)
        ok = all(x[1] == ("quiet" if kind == "same" else "alarm") for x in res)
        return id, kind, ("ok   " if ok else "FAIL ") + " ".join(f"{p}:{a}" + (f"(u{u})" if u else "") for p, a, u in res), detail
    finally:
        shutil.rmtree(td, ignore_errors=True)


if __name__ == "__main__":
    props = None
    ids = []
    a = sys.argv[1:]
    quiet = False
    while a:
        x = a.pop(0)
        if x == "-p":
            props = a.pop(0).split(",")
        elif x == "-q":
            quiet = True
        else:
            ids.append(x)
    load()
    t0 = time.time()
    cs = [c for c in CASES if not ids or any(c[0].startswith(i) for i in ids)]
    if props:
        cs = [c for c in cs if c[1] == "same" or set(c[2]) & set(props)]
    with ThreadPoolExecutor(3) as ex:
        for id, kind, verdict, detail in ex.map(lambda c: run(c, props if c[1] == "same" else ([p for p in c[2] if not props or p in props])), cs):
            print(f"{id:28} {kind:5} {verdict}", flush=True)
            if detail and not quiet:
                print(detail, end="")
    print("%.0fs" % (time.time() - t0))
