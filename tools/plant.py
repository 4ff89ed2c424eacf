#!/opt/venv/bin/python
"""Development helper: validate planted bugs in scratch copies of /repo.
plant.py ID [ID...] [--notests] [--nocheck]"""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf
S = "/verif/seeded"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
notests, nocheck = "--notests" in sys.argv, "--nocheck" in sys.argv
base = json.load(open("/opt/vp/BASELINE.json"))


def one(i):
    d = f"{S}/{i}"
    W = tempfile.mkdtemp(prefix="plant_")
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
        R = W + "/repo"
        D = W + "/demo"
        shutil.copytree(d, D, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        env = dict(os.environ, PYTHONPATH=R, PYTHONPYCACHEPREFIX=W + "/pyc", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/cache/mpl",
                   NUMBA_CACHE_DIR=W + "/numba")
        def demo():
            p = subprocess.run(["bash", D + "/demo.sh"], cwd=R, env=env, capture_output=True, text=True, timeout=300)
            return p.returncode, (p.stdout + p.stderr)[-300:]
        out.append(("demo clean", demo()))
        p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=R, capture_output=True, text=True)
        if p.returncode:
            return i, [("APPLY FAILED", p.stderr)]
        shutil.rmtree(W + "/pyc", ignore_errors=True); shutil.rmtree(W + "/numba", ignore_errors=True)
        out.append(("demo patched", demo()))
        if not notests:
            e2 = dict(env, PYTHONPATH=R + ":/opt/vp/pytest_plugins", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-n", "4", "--dist", "loadfile",
                                "--timeout=300", "tests"], cwd=R, env=e2, capture_output=True, text=True)
            out.append(("tests", [l for l in p.stdout.splitlines() if l.startswith("FAILED") or "passed" in l or "ERROR" in l]))
        if not nocheck:
            prop = json.load(open(d + "/meta.json"))["property"]
            e3 = {k: v for k, v in os.environ.items() if not k.startswith("DST_")}
            e3.update(DST_REPO=R, VERIF_SEED="1", VERIF_TIER="quick", DST_EVIDENCE="0")
            import time
            t = time.time()
            p = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", prop], env=e3, capture_output=True, text=True, cwd="/verif")
            out.append((f"check {prop} {time.time()-t:.0f}s", (p.returncode, p.stdout[-900:], p.stderr[-300:])))
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return i, out


with cf.ThreadPoolExecutor(2 if not notests else 3) as ex:
    for i, out in ex.map(one, args):
        print("=====", i)
        for k, v in out:
            print("  ", k, ":", v)
        sys.stdout.flush()
