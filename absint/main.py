"""Entry point: dump the program, run one property's analysis, write evidence, print the verdict."""
import json, os, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("KX_REPO", "/repo")


def dump(repo):
    """compile the crate with the driver, return path of the JSON dump"""
    r = subprocess.run([os.path.join(ROOT, "setup.sh")], capture_output=True, text=True)
    drv = os.path.join(ROOT, "driver/target/release/mirdump")
    if r.returncode != 0 or not os.path.exists(drv):
        raise SystemExit("driver build failed: " + r.stderr[-2000:])
    td = tempfile.mkdtemp(prefix="kxdump")
    out = os.path.join(td, "dump.json")
    env = dict(os.environ)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, cwd="/").stdout.strip()
    env.update(LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_OUT=out,
               MIRDUMP_CRATE="kiss_xml", CARGO_TARGET_DIR=os.path.join(td, "t"), CARGO_NET_OFFLINE="true",
               RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
    env.pop("RUSTUP_TOOLCHAIN", None)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib"], capture_output=True, text=True, cwd=repo, env=env)
    shutil.rmtree(os.path.join(td, "t"), ignore_errors=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise SystemExit("cannot compile the crate: " + r.stderr[-3000:])
    return td, out


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []   # (key, text)
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.cover = {}
        self.assumptions = []
        self.errors = []

    def ob(self, ok, what, sample=True):
        """one obligation; ok True/False"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample and len(self.samples) < 12:
                self.samples.append("ok: " + what)
        return ok

    def violate(self, key, text):
        if all(k != key for k, _ in self.violations):
            self.violations.append((key, text))

    def undecide(self, text):
        if text not in self.undecided:
            self.undecided.append(text)


def known():
    f = os.path.join(ROOT, "known_findings.txt")
    out = {}
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> key=<key> <text>
                p = l.split("property=")[1].split()[0]
                k = l.split("key=")[1].split(" :: ")[0].strip()
                out.setdefault(p, {})[k] = l.split(" :: ", 1)[1] if " :: " in l else k
    return out


def run_one(pid, program, args):
    import props
    t0 = time.time()
    rep = Report(pid)
    try:
        props.CHECKS[pid](program, rep)
    except Exception:
        rep.errors.append(traceback.format_exc())
        rep.undecide("internal: analysis stopped: " + traceback.format_exc().strip().splitlines()[-1])
    kn = known().get(pid, {})
    new = []
    for k, txt in rep.violations:
        if k in kn:
            print(f"KNOWN-FINDING: property={pid} {kn[k]}")
        else:
            new.append((k, txt))
    ev = {
        "property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {"explanation": props.EXPLAIN.get(pid, ""), "obligations": rep.obligations, "discharged": rep.discharged,
                     "samples": rep.samples, "undecided": rep.undecided, **rep.cover},
        "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    EV = os.environ.get("KX_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {rep.obligations} obligations, {rep.discharged} discharged, {len(rep.undecided)} undecided, {len(new)} violations, {ev['wall_s']}s")
    for u in rep.undecided:
        print("  undecided:", u)
    for e in rep.errors:
        print(e)
    if new:
        rp = os.path.join(EV, pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, txt in new:
                f.write(f"[{k}] {txt}\n")
        for k, txt in new:
            print(f"  {txt}   [{k}]")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def main(argv):
    sys.setrecursionlimit(50000)
    pids = [a for a in argv if not a.startswith("-")]
    path = None
    for a in argv:
        if a.startswith("--dump="):
            path = a[7:]
    td = None
    if path is None:
        try:
            td, path = dump(REPO)
        except SystemExit as e:
            print(e)
            return 2
    from program import Program
    try:
        p = Program(path)
    finally:
        if td:
            shutil.rmtree(td, ignore_errors=True)
    if pids == ["all"]:
        import props
        pids = sorted(props.CHECKS)
    rc = 0
    for pid in pids:
        rc |= run_one(pid, p, argv)
    return rc
