"""Does each check report a repaired defect when its repair is taken back?  revert_fixes.py [PROP...] [--jobs N]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 2
want = [a for a in sys.argv[1:] if re.fullmatch(r"C\d\d", a)]
fixed = [re.match(r"fixed: property=(\S+) (\S+) (.*)", x).groups() for x in json.load(open(V + "/known_findings.json"))["fixed"]]
fixed = [f for f in fixed if not want or f[0] in want]


def one(f):
    prop, h, what = f
    d = tempfile.mkdtemp(prefix="rev_", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        r = subprocess.run(["git", "-C", d + "/r", "-c", "user.name=x", "-c", "user.email=x", "revert", "-n", h], capture_output=True, text=True)
        if r.returncode:
            return f"CONFLICT {prop} {h} {what}"
        env = dict(os.environ, DST_REPO=d + "/r", DST_EVIDENCE="0", DST_FAST="1")
        r = subprocess.run([sys.executable, V + "/check.py", prop, "--workers", "2"], env=env, capture_output=True, text=True)
        return f"{ {0: 'MISSED', 1: 'reported'}.get(r.returncode, 'ERROR %d' % r.returncode)} {prop} {h} {what} | {r.stdout.strip().splitlines()[-1][:120] if r.stdout.strip() else r.stderr[-200:]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(jobs) as ex:
    for line in ex.map(one, fixed):
        print(line, flush=True)
