#!/usr/bin/env python3
"""Usage: check.py <property> <quick|thorough> | check.py --replay <file>
Builds the harnesses of a property from /repo's working tree, runs the exhaustive exploration, writes
evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import sys, os, json, time, subprocess, shutil, signal, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import vbuild
from checks import CHECKS, ASSUME

DEADLINE = {"quick": 600, "thorough": 3600}


def scratch():
    for base in ("/dev/shm", "/tmp"):
        d = os.path.join(base, "mkv-%08d" % os.getpid())
        try:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            return d
        except OSError:
            continue
    raise RuntimeError("no scratch directory")


def known_findings(prop):
    """Listed findings of a property: identified by the scenario (a specific input) and the kind of violation."""
    kf = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(kf):
        return []
    return [k for k in json.load(open(kf)) if k["property"] == prop and k["status"] == "known"]


def run_part(prop, part, tier, vdir, scr):
    t0 = time.time()
    if part.get("python"):
        import importlib
        m = importlib.import_module(part["python"])
        r = m.run_part(prop, tier, vdir, scr)
        r["wall_s"] = time.time() - t0
        return r
    exe = vbuild.build(part["name"], part["src"], part.get("flavour", "plain"))
    tb = time.time() - t0
    out = os.path.join(scr, "out.json")
    env = dict(os.environ)
    env["MC_SCRATCH"] = scr
    cmd = [exe, "--group", part.get("group", prop), "--tier", tier, "--out", out, "--vdir", vdir, "--deadline", str(part.get("deadline", DEADLINE[tier]))]
    for k in known_findings(prop):
        cmd += ["--known", k["scenario"], k["tag"]]
    last = ""
    for attempt in range(3):
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=DEADLINE[tier] + 250)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, _ = p.communicate()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        last = o.decode("utf-8", "replace")
        if p.returncode in (0, 1) and os.path.exists(out):
            r = json.loads(open(out, encoding="utf-8", errors="replace").read(), strict=False)
            r["build_s"] = tb
            r["log"] = last
            return r
        sys.stderr.write("harness attempt %d ended with %s\n%s\n" % (attempt, p.returncode, last[-3000:]))
    raise RuntimeError("harness failed: " + last[-2000:])


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        txt = open(sys.argv[2]).read()
        h = dict(l[2:].split("=", 1) for l in txt.splitlines() if l.startswith("#@"))
        for part in CHECKS[h["property"]]["parts"]:
            if part["name"] == h["part"] and part.get("python"):
                import importlib
                scr = scratch()
                try:
                    r = importlib.import_module(part["python"]).run_part(h["property"], "quick", scr, scr, only=h["case"])
                finally:
                    shutil.rmtree(scr, ignore_errors=True)
                for v in r["violations"]:
                    print("%s %s\n%s" % (v["scenario"], v["tag"], v["msg"]))
                return 1 if r["violations"] else 0
            if part["name"] == h["part"]:
                exe = vbuild.build(part["name"], part["src"], part.get("flavour", "plain"))
                scr = scratch()
                try:
                    return subprocess.run([exe, "--replay", sys.argv[2]], env=dict(os.environ, MC_SCRATCH=scr)).returncode
                finally:
                    shutil.rmtree(scr, ignore_errors=True)
        return 2
    prop, tier = sys.argv[1], sys.argv[2]
    os.environ["VERIF_TIER"] = tier
    c = CHECKS[prop]
    t0 = time.time()
    scr = scratch()
    vdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(vdir, exist_ok=True)
    parts, skipped, viol = [], [], []
    try:
        for part in c["parts"]:
            if part.get("tier") and part["tier"] != tier:
                continue
            try:
                r = run_part(prop, part, tier, vdir, scr)
            except vbuild.BuildError as e:
                if part.get("api") and len(c["parts"]) > 1:
                    # the harness is written against an internal interface that this tree no longer has
                    skipped.append(part["name"])
                    print("NOTE: part %s does not compile against this tree and was skipped" % part["name"])
                    sys.stderr.write(str(e)[-3000:] + "\n")
                    continue
                raise
            r["part"] = part["name"]
            parts.append(r)
            for v in r["violations"]:
                if os.path.exists(v["replay"]):
                    with open(v["replay"], "a") as f:
                        f.write("#@property=%s\n#@part=%s\n" % (prop, part["name"]))
                    new = os.path.join(vdir, "%s_%s_%d.replay" % (prop, part["name"], len(viol)))
                    os.replace(v["replay"], new)
                    v["replay"] = new
                viol.append(v)
            if viol:
                break
        if not parts:
            raise RuntimeError("no part of the check could be built")
    finally:
        shutil.rmtree(scr, ignore_errors=True)
    cov = {}
    level = c["level"]
    ex = sum(p.get("executions", 0) if not p.get("inner_states") else p.get("inner", 0) for p in parts)
    states = sum(p.get("points", 0) + p.get("inner_states", 0) for p in parts)
    steps = sum(p.get("steps", 0) + p.get("inner_steps", 0) for p in parts)
    capped = sum(p.get("capped", 0) for p in parts)
    cov["samples"] = [p.get("sample", "") for p in parts if p.get("sample")]
    cov["exhaustive_within_bounds"] = capped == 0
    cov["parts"] = [{k: v for k, v in p.items() if k not in ("violations", "log", "sample")} for p in parts]
    if level == "model_checking":
        cov["states"] = states
        cov["transitions"] = steps
        cov["traces_validated_against_impl"] = ex
    else:
        cov["evaluations"] = ex
        cov["distinct_nontrivial"] = states
        cov["rule"] = c["rule"]
    cov["bounds"] = c.get("bounds", "")
    if skipped:
        cov["skipped_parts"] = skipped
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": ASSUME + c.get("assume", []), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in viol:
        print("property %s, scenario %s, %s:\n%s" % (prop, v["scenario"], v["tag"], v["msg"][:2500]))
    for v in viol[:1]:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(v["replay"], HERE)))
    if viol:
        return 1
    for k in known_findings(prop):
        if any(n.startswith("known:%s:%s:" % (k["scenario"], k["tag"])) for p in parts for n in p.get("notes", [])):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("OK property=%s tier=%s states=%d executions=%d steps=%d wall=%.1fs" % (prop, tier, states, ex, steps, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
