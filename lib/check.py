"""Decide one property on /repo's current tree by static analysis.

check.py PROPERTY [quick|thorough]
Exit 0: holds (KNOWN-FINDING lines for listed defects). Exit 1: VIOLATION lines.
"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SA = os.path.join(VERIF, "sa")
ENGINE = os.path.join(SA, "target/release/engine")
DRIVER = os.path.join(SA, "target/release/driver")
SPEC = os.path.join(VERIF, "spec/spec.json")
EVID = os.path.join(VERIF, "evidence")


class Run:
    """one run of a check"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.findings = {}  # key -> detail
        self.coverage = {}
        self.notes = []
        self.tmp = tempfile.mkdtemp(prefix="sa-check.")
        self.cache = {}
        self.spec = json.load(open(SPEC))

    def find(self, key, detail=""):
        self.findings.setdefault(key, detail)

    def floor(self, name, got, least):
        """fail closed when the analysis looked at less than it must"""
        self.coverage[name] = got
        if got < least:
            self.find(f"analysis covers too little: {name} is {got}, expected at least {least}")

    # -- what is analysed --
    def dump(self):
        if "dump" not in self.cache:
            f = os.path.join(self.tmp, "mir.json")
            if os.environ.get("SA_DUMP"):  # development: a dump made earlier
                self.cache["dump"] = os.environ["SA_DUMP"]
                return self.cache["dump"]
            p = subprocess.run(["bash", os.path.join(SA, "dump.sh"), f], capture_output=True, text=True)
            if p.returncode != 0 or not os.path.exists(f):
                self.find("the crate cannot be compiled for analysis", (p.stdout + p.stderr)[-2000:])
                f = None
            self.cache["dump"] = f
        return self.cache["dump"]

    def engine(self, mode, *args):
        """run the engine; None if there is nothing to analyse"""
        k = (mode,) + args
        if k not in self.cache:
            d = self.dump()
            r = None
            if d:
                o = os.path.join(self.tmp, "out-" + "-".join(k).replace("@", "") + ".json")
                # "@mode-arg": the output of that earlier run
                a = [os.path.join(self.tmp, f"out-{x[1:]}.json") if x.startswith("@") else x for x in args]
                p = subprocess.run([ENGINE, d, mode, SPEC, o, *a], capture_output=True, text=True)
                if p.returncode == 0 and os.path.exists(o):
                    r = json.load(open(o))
                else:
                    self.find(f"the {mode} analysis gave no answer (exit {p.returncode})", p.stderr[-2000:])
            self.cache[k] = r
        return self.cache[k]

    def witness(self):
        """does the crate of type-level witnesses build against the current tree"""
        w = os.path.join(self.tmp, "witness")
        shutil.copytree(os.path.join(VERIF, "witness"), w, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET")}
        p = subprocess.run(["cargo", "check", "--offline", "--quiet", "--target-dir", os.path.join(self.tmp, "wt")], cwd=w, env=env, capture_output=True, text=True)
        return "" if p.returncode == 0 else p.stderr[-3000:] or "cargo check failed"

    # -- the end --
    def finish(self, level, explanation, t0):
        known = {}
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            if line.startswith("KNOWN-FINDING:"):
                p, key, what = [x.strip() for x in line[len("KNOWN-FINDING:"):].split(" | ", 2)]
                if p == self.prop:
                    known[key] = what
        bad = []
        for key, detail in sorted(self.findings.items()):
            if key in known:
                print(f"KNOWN-FINDING: property={self.prop} {key}: {known[key]}")
            else:
                bad.append((key, detail))
        os.makedirs(EVID, exist_ok=True)
        for n in os.listdir(EVID):
            if n.startswith(f"violation-{self.prop}-"):
                os.remove(os.path.join(EVID, n))
        for i, (key, detail) in enumerate(bad[:25]):
            f = os.path.join(EVID, f"violation-{self.prop}-{i}.json")
            json.dump({"property": self.prop, "construct": key, "detail": detail}, open(f, "w"), indent=1)
            print(f"VIOLATION property={self.prop} replay={f}  {key}")
        self.coverage["explanation"] = explanation
        if self.notes:
            self.coverage["notes"] = self.notes
        self.coverage["known_findings"] = [k for k in self.findings if k in known]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": level,
            "coverage": self.coverage,
            "violations": len(bad),
            "wall_s": round(time.time() - t0, 2),
        }
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return 1 if bad else 0


def build():
    """build the tools when they are missing or older than their sources"""
    os.makedirs(os.path.join(SA, "target"), exist_ok=True)
    with open(os.path.join(SA, "target", ".check-lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], cwd=SA, capture_output=True, text=True)
        return p.stderr if p.returncode else ""


def main():
    import props

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    r = Run(prop, tier)
    if prop not in props.CHECKS:
        print("unknown property", prop)
        return 2
    fn, level, explanation = props.CHECKS[prop]
    e = build()
    if e:
        r.find("the analysis tools do not build", e[-2000:])
    else:
        fn(r)
    return r.finish(level, explanation, t0)


if __name__ == "__main__":
    sys.exit(main())
