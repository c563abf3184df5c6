"""dev: try.py CHECKS FILE OLD NEW [FILE OLD NEW...]: apply a textual change to a scratch copy and run checks on it"""
import os, shutil, subprocess, sys, tempfile
def scratch():
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    shutil.copytree("/repo/dynetworkx", d + "/dynetworkx", ignore=shutil.ignore_patterns("__pycache__", "tests"))
    return d
def run(pid, d, tier="quick"):
    r = subprocess.run([sys.executable, "/verif/check.py", pid], env=dict(os.environ, VERIF_REPO=d, VERIF_TIER=tier, VERIF_EVIDENCE=d + "/ev"), capture_output=True, text=True, cwd="/verif")
    return r.returncode, r.stdout, r.stderr
if __name__ == "__main__":
    d = scratch()
    a = sys.argv[2:]
    while a:
        f, old, new = a[:3]; a = a[3:]
        p = d + "/dynetworkx/" + f
        s = open(p).read()
        old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
        assert old in s, "no match " + old
        open(p, "w").write(s.replace(old, new, 1))
        assert not subprocess.run([sys.executable, "-m", "py_compile", p]).returncode
    for pid in sys.argv[1].split(","):
        rc, o, e = run(pid, d)
        print(pid, rc, o[:int(os.environ.get("W", "420"))], e[-300:])
    shutil.rmtree(d)
