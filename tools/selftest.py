"""Determinism self-test: the event digest of every run must not depend on the process, on the hash seed or on which
worker executed it.  python3 tools/selftest.py [runs]"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = sys.argv[1] if len(sys.argv) > 1 else "60"
bad = 0
for i in range(1, 14):
    pid = "C%02d" % i
    ps = [subprocess.Popen(["./check", pid, "--digests", "--runs", n, "--seed", "3"], cwd=HERE, text=True, stderr=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           env=dict(os.environ, PYTHONHASHSEED=h, **x)) for h, x in (("0", {}), ("77", {"VERIF_ASLR": "off"}))]
    a, b = [p.communicate()[0] for p in ps]
    d = [x for x, y in zip(a.splitlines(), b.splitlines()) if x != y]
    print(pid, len(a.splitlines()), "runs,", len(d), "differ", d[:2], flush=True)
    bad += bool(d) or len(a.splitlines()) != int(n)
sys.exit(1 if bad else 0)
