#!/usr/bin/env python3
"""plant.py ID...: validates seeded bugs (builds, passes the tests, demo) and runs the checks of their
properties against them, in a mount namespace where a scratch copy hides /repo.
Options: --checks C01,C02 (instead of the property's), --no-tests, --no-demo, --no-checks"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = lambda n: any(a == n for a in sys.argv)
checks = next((a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")), None)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if os.path.exists("/opt/vp/BASELINE.json") else set()

def ns(repo, cmd, cwd="/repo", limit=900):
    script = f"mount --bind {repo} /repo && cd {cwd} && {cmd}"
    try:
        p = subprocess.run(["unshare", "-m", "bash", "-c", script], capture_output=True, text=True, timeout=limit,
            env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -1, "timeout"

vc = "/tmp/plant/verif"
os.makedirs("/tmp/plant", exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "work", "--exclude", "evidence", "--exclude", "seeded", "--exclude", "replays", "--exclude", "target", V + "/", vc + "/"], check=True) if shutil.which("rsync") else \
  subprocess.run(f"mkdir -p {vc} && cd {V} && git ls-files -co --exclude-standard | grep -v ^seeded/ | cpio -pdum --quiet {vc}", shell=True, check=True)
for i in args:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    w = f"/tmp/plant/{i}"
    subprocess.run(["rm", "-rf", w]); os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    demo = f"{w}/demo"
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    line = [i]
    if not opt("--no-demo"):
        t = time.time()
        rc, out = ns(w + "/repo", f"bash {demo}/demo.sh", limit=300)
        line.append(f"demo-clean={rc} ({time.time()-t:.0f}s)")
        if rc != 0: print(out[-1500:])
    subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"], check=True)
    if not opt("--no-tests"):
        rc, out = ns(w + "/repo", "bash /opt/vp/build.sh")
        line.append(f"build={rc}")
        if rc != 0: print(out[-1500:])
        rc, out = ns(w + "/repo", f"bash /opt/vp/test.sh {w}/t.json")
        passed = set(json.load(open(w + "/t.json"))["passed"]) if os.path.exists(w + "/t.json") else set()
        miss = base - passed
        line.append(f"tests={'ok' if not miss else sorted(miss)[:6]}")
    if not opt("--no-demo"):
        rc, out = ns(w + "/repo", f"bash {demo}/demo.sh", limit=300)
        line.append(f"demo-bug={rc} [{out.strip()[-200:]}]")
    if not opt("--no-checks"):
        for c in checks or [meta["property"]]:
            t = time.time()
            rc, out = ns(w + "/repo", f"./check.sh {c}", cwd=vc)
            tail = [l for l in out.splitlines() if c in l][-2:]
            line.append(f"{c}={'CAUGHT' if rc == 1 and 'VIOLATION property=' + c in out else rc} ({time.time()-t:.0f}s) {tail if rc else ''}")
    print(" ".join(line), flush=True)
    subprocess.run(["rm", "-rf", w])
