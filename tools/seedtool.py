#!/usr/bin/env python3
"""Makes and validates planted bugs.  seedtool.py make DEF.py... ; seedtool.py validate ID...
A definition file sets id, property, needs, breaks, edits=[(file, old, new)], demo (text of demo.sh), files={name: text}."""
import sys, os, subprocess, json, shutil, runpy, concurrent.futures as cf
V = "/verif"; R = "/repo"; W = "/tmp/wt"
def copy(i):
    d = W + "/" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(W, exist_ok=True)
    subprocess.check_call(["cp", "-a", R, d])
    return d
def make(f):
    g = runpy.run_path(f); i = g["id"]; d = W + "/mk-" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(W, exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "--shared", R, d])
    for fn, old, new in g["edits"]:
        s = open(d + "/" + fn).read()
        assert s.count(old) == 1, (i, fn, s.count(old), old)
        open(d + "/" + fn, "w").write(s.replace(old, new))
    p = subprocess.check_output(["git", "-C", d, "diff"], text=True)
    o = V + "/seeded/" + i
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(p)
    demo = g["demo"]
    open(o + "/demo.sh", "w").write(demo); os.chmod(o + "/demo.sh", 0o755)
    for n, t in g.get("files", {}).items(): open(o + "/" + n, "w").write(t)
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    print("made", i)
def driver(d, tmp):
    s = open("/opt/vp/driver.py").read().replace('REPO = "/repo"', 'REPO = %r' % d)
    open(tmp, "w").write(s); return tmp
def validate(i):
    out = [i]; d = copy(i); o = V + "/seeded/" + i
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    try:
        dd = W + "/demo-" + i; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(o, dd)
        dr = driver(d, W + "/drv-" + i + ".py")
        r0 = subprocess.run(["bash", dd + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out.append("demo-clean=%d" % r0.returncode)
        if r0.returncode: out.append(r0.stdout.decode(errors="replace")[-1500:])
        subprocess.check_call(["git", "-C", d, "apply", o + "/patch.diff"])
        b = subprocess.run(["python3", dr, "build"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out.append("build=%d" % b.returncode)
        if b.returncode: out.append(b.stdout.decode(errors="replace")[-1500:])
        r1 = subprocess.run(["bash", dd + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out.append("demo-bug=%d" % r1.returncode); out.append(r1.stdout.decode(errors="replace")[-400:])
        rep = d + "/__targets_vp/results.txt"
        if os.path.exists(rep): os.unlink(rep)
        if "--notest" not in sys.argv:
            subprocess.run(["python3", dr, "test", rep], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            subprocess.run(["python3", "/opt/vp/results.py", W + "/res-" + i + ".json", "lines:" + rep])
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ps = set(json.load(open(W + "/res-" + i + ".json"))["passed"])
            out.append("tests-missing=%s" % sorted(st - ps)[:4])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "\n  ".join(out)
if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    if sys.argv[1] == "make":
        for f in a: make(f)
    else:
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(validate, a): print(r, flush=True)
