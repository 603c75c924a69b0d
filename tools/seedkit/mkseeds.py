#!/usr/bin/env python3
"""Write and confirm planted bugs: mkseeds.py SCRATCH [ID...]

SCRATCH is a copy of /repo (cp -a) outside /repo and /verif. For each bug: edits -> patch.diff, then with
the patch the build and the stable tests pass and the demonstration fails, and without it it passes.
Prints one line per bug; a bug is kept under seeded/ only when confirmed."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import B
import bugs2, bugs3, bugs4, bugs5, bugs6, bugs7, bugs8  # noqa: F401
scratch = sys.argv[1]
ids = sys.argv[2:] or list(B)
out = os.path.join(here, "..", "..", "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true")
env.pop("RUSTFLAGS", None)
MAIN = "mod util;\nuse util::*;\n\n#[tokio::main]\nasync fn main() {\n%s}\n"


def sh(*a, **k):
    return subprocess.run(a, cwd=k.pop("cwd", scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **k)


def demo(d):
    """With a shared target directory, to save time."""
    subprocess.run(["sed", "-i", "s#^export PATH.*#&\\nexport CARGO_TARGET_DIR=${SEED_TARGET:-$CARGO_TARGET_DIR}#;s#\"$dir/target/debug/demo\"#\"$CARGO_TARGET_DIR/debug/demo\"#", d + "/demo.sh"], check=True)
    e = dict(env, SEED_TARGET="/tmp/seed-target")
    sh("find", "spop", "spoa", "-name", "*.rs", "-exec", "touch", "{}", "+")
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.copy(here + "/demo.sh", d + "/demo.sh")
    return r


for id in ids:
    b = B[id]
    sh("git", "checkout", "-q", "--", ".")
    d = os.path.abspath(os.path.join(out, id))
    os.makedirs(d, exist_ok=True)
    bad = None
    for f in ["demo.sh", "util.rs", "Cargo.toml.demo", "Cargo.lock.demo"]:
        shutil.copy(os.path.join(here, f), d)
    open(d + "/demo.rs", "w").write(MAIN % b["demo"])
    clean = demo(d)
    for f, old, new in b["edits"]:
        p = os.path.join(scratch, f)
        t = open(p).read()
        if t.count(old) < 1:
            bad = "edit does not apply: " + f
            break
        open(p, "w").write(t.replace(old, new, 1))
    if not bad:
        open(d + "/patch.diff", "w").write(sh("git", "diff").stdout)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = sh("cargo", "test", "--workspace", "--all-features", "--offline")
        passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok")}
        missing = [s for s in STABLE if not any(s.endswith(p) for p in passed)]
        if t.returncode and "error" in t.stdout and "could not compile" in t.stdout:
            bad = "does not build\n" + "\n".join(l for l in t.stdout.splitlines() if "error" in l or "-->" in l)[:1500]
        elif missing:
            bad = "tests fail: %s" % missing
        else:
            broken = demo(d)
            if clean.returncode:
                bad = "demo fails on the clean tree: %d %s" % (clean.returncode, clean.stdout[-1500:])
            elif not broken.returncode:
                bad = "demo passes with the patch"
            elif broken.returncode in (8, 9):
                bad = "demo does not build " + broken.stdout[-1500:]
    if bad:
        shutil.rmtree(d)
    print("FAIL" if bad else "ok  ", id, bad or "", flush=True)
sh("git", "checkout", "-q", "--", ".")
