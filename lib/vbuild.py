"""Builds harnesses from /repo's working tree (never from a copy) into /verif/build (git-ignored)."""
import os, sys, glob, hashlib, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MAIKE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def repo_sources():
    r = []
    for p in sorted(glob.glob(os.path.join(REPO, "core/**/*.cpp"), recursive=True)):
        rel = os.path.relpath(p, REPO)
        if rel.endswith(".test.cpp") or rel == "core/bin/about.cpp" or "/testdata/" in rel:
            continue
        r.append(rel)
    return r


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as s:
            h.update(s.read())
    return h.hexdigest()[:16]


def repo_hash(extra=""):
    fs = []
    for root, d, f in os.walk(os.path.join(REPO, "core")):
        for x in f:
            if x.endswith((".cpp", ".hpp", ".h")):
                fs.append(os.path.join(root, x))
    return hash_files(fs, extra)


FLAGS = {
    "plain": ["-std=c++17", "-O1", "-g1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"],
    "tsan": ["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"],
    "asan": ["-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
}
MCFLAGS = ["-std=c++20", "-O2", "-g1", "-Wno-sequence-point", "-U_FORTIFY_SOURCE", "-w"]
ABOUT = """namespace Maike::Self { extern char const* const BuildId; }
namespace Maike::Self {
extern char const* const BuildStartTime; extern char const* const BuildHost; extern char const* const VcsRevisionId;
extern char const* const VcsTag; extern char const* const Copyright; extern char const* const DescriptionShort; extern char const* const LegalBrief;
char const* const BuildId="id"; char const* const BuildStartTime="t"; char const* const BuildHost="h"; char const* const VcsRevisionId="r";
char const* const VcsTag="v"; char const* const Copyright="c"; char const* const DescriptionShort="d"; char const* const LegalBrief="l"; }
"""


def prune(keep=24):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("o-")]
    except FileNotFoundError:
        return
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def build(name, harness, flavour="plain", mc=True, libs=("-ljansson", "-lpthread", "-ldl")):
    """harness: list of sources below /verif. Returns the path of the binary."""
    os.makedirs(BUILD, exist_ok=True)
    prune()
    flags = FLAGS[flavour]
    rh = repo_hash(" ".join(flags) + "v3")
    odir = os.path.join(BUILD, "o-%s-%s" % (flavour, rh))
    jobs = []
    objs = []
    if not os.path.exists(os.path.join(odir, "ok")):
        shutil.rmtree(odir, ignore_errors=True)
        os.makedirs(odir)
        with open(os.path.join(odir, "about_stub.cpp"), "w") as f:
            f.write(ABOUT)
        jobs.append((["g++"] + flags + ["-c", os.path.join(odir, "about_stub.cpp"), "-o", os.path.join(odir, "about_stub.o")], None))
        for s in repo_sources():
            o = os.path.join(odir, s.replace("/", "__")[:-4] + ".o")
            jobs.append((["g++"] + flags + ["-iquote" + os.path.dirname(s), "-iquote.", "-c", s, "-o", o], REPO))
    fresh = bool(jobs)
    # harness and runtime objects
    hdrs = glob.glob(os.path.join(VERIF, "mc/*.h")) + glob.glob(os.path.join(VERIF, "harness/*.h"))
    hsrc = [os.path.join(VERIF, h) for h in harness]
    if mc:
        hsrc += [os.path.join(VERIF, "mc/rt.cpp"), os.path.join(VERIF, "mc/explore.cpp")]
    hdir = os.path.join(BUILD, "h")
    os.makedirs(hdir, exist_ok=True)
    hobjs = []
    for s in hsrc:
        in_mc = "/mc/" in s
        with open(s) as f:
            text = f.read()
        # harness sources that include maike headers are compiled like maike itself (templates live there)
        api = (not in_mc) and '"core/' in text
        fl = MCFLAGS
        tag = "mc"
        if api:
            fl = [x for x in flags if not x.startswith("-std")] + ["-std=c++20", "-w"]
            tag = flavour
        key = hash_files([s] + hdrs, " ".join(fl) + (rh if api else ""))
        o = os.path.join(hdir, os.path.basename(s)[:-4] + "-" + tag + "-" + key + ".o")
        hobjs.append(o)
        if not os.path.exists(o):
            jobs.append((["g++"] + fl + ["-I" + VERIF, "-iquote" + REPO, "-c", s, "-o", o], None))
    jobs.sort(key=lambda j: 0 if j[1] is None else 1)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: run(j[0], j[1]), jobs))
    if fresh:
        for s in repo_sources():
            if s == "core/bin/maike.cpp":
                o = os.path.join(odir, s.replace("/", "__")[:-4] + ".o")
                run(["objcopy", "--redefine-sym", "main=maike_main", o])
        open(os.path.join(odir, "ok"), "w").close()
    os.utime(odir)
    objs = sorted(glob.glob(os.path.join(odir, "*.o")))
    out = os.path.join(BUILD, "bin", name + "-" + flavour)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    stamp = hashlib.sha256((" ".join(objs + hobjs)).encode()).hexdigest()
    sf = out + ".stamp"
    if os.path.exists(out) and os.path.exists(sf) and open(sf).read() == stamp:
        return out
    link = ["g++"] + hobjs + objs + ["-o", out, "-rdynamic"] + list(libs)
    if flavour == "asan":
        link.insert(1, "-fsanitize=address,undefined")
    run(link)
    with open(sf, "w") as f:
        f.write(stamp)
    return out
