"""C22: the bundled recipes with stand-ins for the tools they run; every tool call fails once, in every way."""
import os, sys, json, itertools, subprocess, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MAIKE_REPO", "/repo")
REC = os.path.join(REPO, "recipes")
KINDS = ["1", "77", "255", "sig9", "sig11", "late", "latesig", "missing"]
REV = {"c++98": 199711, "c++11": 201103, "c++14": 201402, "c++17": 201703, "c++20": 202002, "c++23": 202302}


class Bad(Exception):
    def __init__(self, tag, msg):
        Exception.__init__(self, msg)
        self.tag = tag


class Env:
    """Tools in a directory of their own; nothing else is reachable through PATH."""
    TOOLS = ["g++", "clang++", "pkg-config", "clang-tidy", "ar", "myar", "pandoc", "xsltproc", "tool"]

    def __init__(self, scr):
        self.scr = scr
        self.stub = os.path.join(scr, "stub")
        subprocess.run(["gcc", "-O1", "-w", "-o", self.stub, os.path.join(HERE, "harness", "stubtool.c")], check=True)
        self.mod = os.path.join(scr, "mod")
        os.makedirs(self.mod)
        with open(os.path.join(self.mod, "sass.py"), "w") as f:
            f.write("import os\nclass CompileError(ValueError):\n\tpass\ndef compile(string):\n\tif os.environ.get('STUB_SASS') == 'fail':\n\t\traise CompileError('stub')\n\treturn 'css of ' + string\n")
        # the recipes, so that nothing is written into the repository
        self.rec = os.path.join(scr, "recipes")
        shutil.copytree(REC, self.rec)
        self.bins = {}

    def bin(self, without=(), extra=()):
        key = (tuple(sorted(without)), tuple(sorted(extra)))
        if key not in self.bins:
            d = os.path.join(self.scr, "bin%d" % len(self.bins))
            os.makedirs(d)
            os.symlink(sys.executable if os.path.basename(sys.executable) == "python3" else "/usr/bin/python3", os.path.join(d, "python3"))
            for t in self.TOOLS + list(extra):
                if t not in without:
                    os.link(self.stub, os.path.join(d, t))
            self.bins[key] = d
        return self.bins[key]


class Result:
    def __init__(self, code, out, err, calls):
        self.code, self.out, self.err, self.calls = code, out, err, calls

    def text(self):
        return "exit %s\nstdout: %s\nstderr: %s\ncalls:\n%s" % (self.code, self.out[-600:], self.err[-600:], "\n".join("  " + " ".join(c) for c in self.calls))


def run(env, cwd, recipe, mode, args, plan=None, without=(), extra=(), more=None):
    log = cwd + ".log"
    if os.path.exists(log):
        os.unlink(log)
    e = {"PATH": env.bin(without, extra), "STUB_LOG": log, "PYTHONPATH": env.mod, "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8"}
    if plan:
        e["STUB_PLAN"] = plan
    e.update(more or {})
    p = subprocess.run([os.path.join(env.rec, recipe), mode, json.dumps(args)], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
    calls = []
    if os.path.exists(log):
        raw = open(log, errors="replace").read()
        calls = [c.split("\x1f") for c in raw.split("\x1e")[:-1]]
    return Result(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), calls)


def put(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(t)


def need(ok, tag, msg, r=None):
    if not ok:
        raise Bad(tag, msg + ("\n" + r.text() if r else ""))


def has_seq(args, seq):
    n = len(seq)
    return n == 0 or any(args[k:k + n] == seq for k in range(len(args) - n + 1))


# ---------------------------------------------------------------- the recipes
DEPS = [
    {"ref": "%T/o1.o", "origin": "generated", "rel": "implementation"},
    {"ref": "%T/o2.o", "origin": "generated", "rel": "implementation"},
    {"ref": "m", "origin": "system", "rel": "external"},
    {"ref": "zlib", "origin": "pkg-config"},
    {"ref": "%T/g.hpp", "origin": "generated"},
    {"ref": "vector", "origin": "system"},
    {"ref": "pre.hpp", "origin": "project", "rel": "include"},
    {"ref": "png", "origin": "pkg-config"},
    {"ref": "own.o", "origin": "project", "rel": "implementation"},
]


def link_args(deps):
    """What has to be linked, users before what they use (the list has dependencies first)."""
    r = []
    for d in deps:
        rel = d.get("rel")
        if d["origin"] in ("generated", "project") and rel == "implementation":
            r.append([d["ref"]])
        elif d["origin"] == "system" and rel == "external":
            r.append(["-l" + d["ref"]])
        elif d["origin"] == "pkg-config":
            r.append(["-l" + d["ref"], "-lsub" + d["ref"]])
    seen, out = set(), []
    for x in r:
        if tuple(x) not in seen:
            seen.add(tuple(x))
            out.append(x)
    return out[::-1]


def base_args(src, targets, sd, td, deps, cfg, fmt="plain_text"):
    return {"source_file": src, "targets": targets, "dependencies": deps, "compiler_cfg": cfg, "log_format": fmt, "task_id": 17,
            "build_info": {"source_dir": sd, "target_dir": td, "start_time": 1000000, "build_id": "ab" * 32, "build_host": "h"}}


def cxx_args_ok(call, a, cwd, link):
    r = []
    cfg = a["compiler_cfg"]
    args = call[1:]
    def want(ok, what):
        if not ok:
            r.append(what)
    want(os.path.basename(call[0]) == cfg["backend"], "compiler")
    want(args.count(a["source_file"]) == 1, "source file")
    want(args.count("-o") == 1 and args[-1] != "-o" and args[args.index("-o") + 1] == a["targets"][0], "target") if "-o" in args else r.append("target")
    want(("-c" in args) == (not link), "-c")
    want(has_seq(args, cfg["cflags"]), "cflags")
    sd, td = a["build_info"]["source_dir"], a["build_info"]["target_dir"]
    iq = [x[len("-iquote"):] for x in args if x.startswith("-iquote")]
    iq = [os.path.normpath(os.path.join(cwd, x)) for x in iq]
    dirs = list(cfg["iquote"])
    if os.path.dirname(a["source_file"]):
        dirs.append(os.path.relpath(os.path.dirname(a["source_file"]), sd))
    for d in dirs:
        want(os.path.normpath(os.path.join(cwd, sd, d)) in iq, "include directory %s of the sources" % d)
        want(os.path.normpath(os.path.join(cwd, td, d)) in iq, "include directory %s of the targets" % d)
    sel = cfg.get("std_revision", {}).get("selected")
    want([x for x in args if x.startswith("-std=")] == (["-std=" + sel] if sel else []), "language revision")
    want(("-fdiagnostics-color=" + ("always" if a["log_format"] == "ansi_term" else "never")) in args, "colour")
    bi = a["build_info"]
    for d in ["-DMAIKE_TASKID=17L", "-DMAIKE_BUILDINFO_STARTTIME=1000000L", '-DMAIKE_BUILDINFO_STARTTIME_STR="1970-01-12 13:46:40 UTC"', '-DMAIKE_BUILDINFO_BUILDID="%s"' % bi["build_id"],
              '-DMAIKE_BUILDINFO_TARGETDIR="%s"' % td, '-DMAIKE_BUILDINFO_SOURCEDIR="%s"' % sd]:
        want(d in args, d)
    for d in a["dependencies"]:
        if d["origin"] == "pkg-config":
            want("-I/inc/" + d["ref"] in args and "-DLIB_" + d["ref"] in args, "flags of package " + d["ref"])
        if d.get("rel") == "include":
            want("-include" + d["ref"] in args or has_seq(args, ["-include", d["ref"]]), "forced include " + d["ref"])
    link_ok(args, a, link, want)
    return r


def link_ok(args, a, link, want):
    exp = link_args(a["dependencies"])
    if link:
        pos = []
        for x in exp:
            if not want(has_seq(args, x), "linking of " + " ".join(x)):
                pos.append(max([k for k in range(len(args)) if args[k:k + len(x)] == x], default=-1))
        want(pos == sorted(pos), "order of the linked files")
        for d in a["dependencies"]:
            if d["origin"] == "pkg-config":
                want("-L/lib/" + d["ref"] in args, "library directory of package " + d["ref"])
    else:
        want(not any(x.startswith("-l") for x in args), "no libraries")
        for x in exp:
            if not x[0].startswith("-"):
                want(x[0] not in args, "no objects")


class Case:
    """One way to call a recipe, with what has to come of it; judge() sees the run without failures."""
    def __init__(self, name, recipe, args, judge, files=None, dirs=(), mode="compile", more=None, extra=(), inject=True, fails=False, after=None):
        self.__dict__.update(locals())


def fill(x, td):
    return json.loads(json.dumps(x).replace("%T", td))


def cases(tier):
    out = []
    deep = tier == "thorough"

    # ---- cxx_compiler
    def cxx(name, actions, deps, ntg, sd, td, sub, sel, fmt, cflags, iquote, ext=".cpp", absolute=False, inject=True):
        src = os.path.normpath(os.path.join(sd, sub, "m" + ext))
        if not sub and sd == ".":
            src = "m" + ext
        def make(cwd):
            t = os.path.join(cwd, td) if absolute else td
            tg = [os.path.join(t, sub, "m%d" % k) for k in range(ntg)]
            cfg = {"backend": "g++", "cflags": cflags, "iquote": iquote}
            if actions is not None:
                cfg["actions"] = actions
            if sel is not None:
                cfg["std_revision"] = {"min": "c++17", "selected": sel} if sel else {"min": "c++17"}
            return base_args(src, tg, sd, t, fill(deps, t), cfg, fmt)
        acts = actions or []
        def judge(r, a, cwd):
            tools = [os.path.basename(c[0]) for c in r.calls]
            if ext in (".hpp", ".h"):
                need(r.code == 0 and not r.calls, "header", "a header was compiled", r)
                return
            if "run" in acts and "link" not in acts:
                need(r.code != 0, "impossible", "running without linking was accepted", r)
                return
            need(r.code == 0, "failed", "the recipe fails although every tool succeeds", r)
            cc = [c for c in r.calls if os.path.basename(c[0]) == "g++"]
            need(len(cc) == 1, "tools", "the compiler was run %d times" % len(cc), r)
            bad = cxx_args_ok(cc[0], a, cwd, "link" in acts)
            need(not bad, "arguments", "the compiler was not given: " + ", ".join(bad), r)
            ran = [c for c in r.calls if os.path.normpath(os.path.join(cwd, c[0])) == os.path.normpath(os.path.join(cwd, a["targets"][0]))]
            need(len(ran) == (1 if "run" in acts else 0) and all(len(c) == 1 for c in ran), "run", "the program was run %d times" % len(ran), r)
            tidy = [c for c in r.calls if os.path.basename(c[0]) == "clang-tidy"]
            need(len(tidy) == (1 if "sanitize" in acts else 0) and all(a["source_file"] in c for c in tidy), "sanitize", "clang-tidy was run %d times" % len(tidy), r)
            data = {open(os.path.join(cwd, t), "rb").read() for t in a["targets"] if os.path.exists(os.path.join(cwd, t))}
            need(all(os.path.exists(os.path.join(cwd, t)) for t in a["targets"]) and len(data) == 1, "targets", "not all targets were made", r)
        def after(r, k, calls, a, cwd):
            # a program that could not be compiled is not run
            if os.path.basename(calls[k][0]) == "g++":
                need(not any(os.path.normpath(os.path.join(cwd, c[0])) == os.path.normpath(os.path.join(cwd, a["targets"][0])) for c in r.calls), "run", "a program that could not be compiled was run", r)
        out.append(Case("cxx:" + name, "cxx_compiler.py", make, judge, {src: "int main() {}\n"}, [os.path.join(td, sub)], after=after, inject=inject))

    all_actions = [None] + [[x for k, x in enumerate(["link", "run", "sanitize"]) if m >> k & 1] for m in range(8)]
    some = [[], DEPS[:1], DEPS[:4], DEPS, DEPS + DEPS[:2], [DEPS[3], DEPS[7], DEPS[3]], [DEPS[1], DEPS[0]], DEPS[4:7]]
    for ka, ac in enumerate(all_actions):
        for kd, d in enumerate(some):
            for n in (1, 2):
                cxx("a%d-d%d-t%d" % (ka, kd, n), ac, d, n, ".", "__targets", "", None, "plain_text", ["-g"], ["."], inject=deep or n == 1 or kd < 2)
    for ks, sd in enumerate([".", "src", "a/b"]):
        for kt, (td, ab) in enumerate([("__targets", False), ("out/deep", False), ("__targets", True)]):
            for kb, sub in enumerate(["", "d", "d/e"]):
                for kf, cf in enumerate([[], ["-g", "-Wall"], ["-isystem", "x", "-isystem", "y"], ["-DA=\"b c\"", "-O2", "-g", "-O2"]]):
                    for ki, iq in enumerate([[], ["."], [".", "inc", "d"]]):
                        k = ks + kt + kb + kf + ki
                        cxx("s%d%d%d%d%d" % (ks, kt, kb, kf, ki), ["link"] if k % 2 else None, DEPS[:4], 1, sd, td, sub, [None, "", "c++20"][k % 3], ["plain_text", "ansi_term"][k % 2], cf, iq, absolute=ab, inject=False)
    for e in (".hpp", ".h", ".cc", ".cxx"):
        cxx("ext" + e, ["link"], DEPS[:4], 1, ".", "__targets", "", None, "plain_text", ["-g"], ["."], ext=e)

    # ---- cxx_linker, make_lib
    for kd, d in enumerate(some + [list(p) for p in itertools.permutations(DEPS[:3])]):
        for fmt in ("plain_text", "ansi_term"):
            for cf in ([], ["-g", "-g", "-shared"]):
                for env_cxx in (None, "clang++"):
                    def judge(r, a, cwd, env_cxx=env_cxx):
                        need(r.code == 0, "failed", "the recipe fails although every tool succeeds", r)
                        cc = [c for c in r.calls if os.path.basename(c[0]) == (env_cxx or "g++")]
                        need(len(cc) == 1, "tools", "the linker was run %d times" % len(cc), r)
                        bad = []
                        want = lambda ok, w: None if ok else bad.append(w)
                        args = cc[0][1:]
                        link_ok(args, a, True, want)
                        want(has_seq(args, a["compiler_cfg"]["cflags"]), "flags")
                        want(has_seq(args, ["-o", a["targets"][0]]), "target")
                        want(("-fdiagnostics-color=" + ("always" if a["log_format"] == "ansi_term" else "never")) in args, "colour")
                        need(not bad, "arguments", "the linker was not given: " + ", ".join(bad), r)
                        need(os.path.exists(os.path.join(cwd, a["targets"][0])), "targets", "no target", r)
                    def make(cwd, d=d, cf=cf, fmt=fmt):
                        return base_args("m.app", ["__targets/m"], ".", "__targets", fill(d, "__targets"), {"cflags": cf}, fmt)
                    out.append(Case("linker:%d%s%d%s" % (kd, fmt[0], len(cf), env_cxx or ""), "cxx_linker.py", make, judge, {"m.app": "{}"}, ["__targets"], more={"CXX": env_cxx} if env_cxx else None, inject=not cf and fmt[0] == "p"))
        for env_ar in (None, "myar"):
            def judge(r, a, cwd, env_ar=env_ar):
                need(r.code == 0, "failed", "the recipe fails although every tool succeeds", r)
                need(len(r.calls) == 1 and os.path.basename(r.calls[0][0]) == (env_ar or "ar"), "tools", "wrong tools", r)
                objs = [x[0] for x in link_args(a["dependencies"]) if not x[0].startswith("-")]
                need(r.calls[0][2] == a["targets"][0] and sorted(r.calls[0][3:]) == sorted(objs), "arguments", "the archiver was not given the right files", r)
                need(os.path.exists(os.path.join(cwd, a["targets"][0])), "targets", "no target", r)
            def make(cwd, d=d):
                return base_args("m.lib", ["__targets/m.a"], ".", "__targets", fill(d, "__targets"), {})
            out.append(Case("lib:%d%s" % (kd, env_ar or ""), "make_lib.py", make, judge, {"m.lib": "{}"}, ["__targets"], more={"AR": env_ar} if env_ar else None))

    # ---- generic
    for ka, al in enumerate([[], ["-o", "$target"], ["$source_file", "x$target", "-o", "$target"], ["$$HOME", "a b", "", "-o", "${target}"]]):
        for sub in ("", "d"):
            def subst(x, a):
                return x.replace("$$", "\0").replace("${target}", a["targets"][0]).replace("$target", a["targets"][0]).replace("$source_file", a["source_file"]).replace("\0", "$")
            def judge(r, a, cwd, al=al):
                need(r.code == 0, "failed", "the recipe fails although every tool succeeds", r)
                need(len(r.calls) == 1 and os.path.basename(r.calls[0][0]) == "tool" and r.calls[0][1:] == [subst(x, a) for x in al], "arguments", "the command was not run as configured", r)
            def cfg(al=al):
                return {"target_filename_ext": "out", "compilation_cmd": {"executable": "tool", "exec_origin": "system", "args": al}}
            def make(cwd, al=al, sub=sub):
                return base_args(os.path.join(sub, "m.foo"), [os.path.join("__targets", sub, "m.foo.out")], ".", "__targets", [], cfg(al))
            out.append(Case("generic:%d%s" % (ka, sub), "generic.py", make, judge, {os.path.join(sub, "m.foo"): "x"}, [os.path.join("__targets", sub)]))
            def tags(r, a, cwd):
                need(r.code == 0 and not r.calls, "failed", "the recipe fails", r)
                t = json.loads(r.out)
                need(t["target"]["name"] == "m.foo.out" and t["dependencies"] == [{"ref": "tool", "origin": "system"}], "tags", "wrong tags", r)
            def maket(cwd, al=al, sub=sub):
                return {"source_file": os.path.join(sub, "m.foo"), "compiler_cfg": cfg(al)}
            out.append(Case("generictags:%d%s" % (ka, sub), "generic.py", maket, tags, {os.path.join(sub, "m.foo"): "x"}, mode="get_tags", inject=False))

    # ---- copy_file
    for n in (1, 2, 3):
        for state in ("ok", "nosource", "nodir", "isdir", "old"):
            data = "contents \u00e5\n" * 3
            def make(cwd, n=n, state=state):
                return base_args("d/a.txt", ["__targets/d/a%d.txt" % k for k in range(n)], ".", "__targets", [], {})
            def judge(r, a, cwd, state=state, data=data):
                if state in ("ok", "old"):
                    need(r.code == 0, "failed", "the recipe fails", r)
                    for t in a["targets"]:
                        need(open(os.path.join(cwd, t)).read() == data, "content", "a copy differs", r)
                else:
                    need(r.code != 0, "success", "a file that cannot be copied is reported as copied", r)
            files = {} if state == "nosource" else {"d/a.txt": data}
            if state == "old":
                files["__targets/d/a0.txt"] = "something old that is longer than the source" * 5
            dirs = [] if state == "nodir" else ["__targets/d"]
            if state == "isdir":
                dirs.append("__targets/d/a%d.txt" % (n - 1))
            out.append(Case("copy:%d%s" % (n, state), "copy_file.py", make, judge, files, dirs, inject=False))

    # ---- make_directory
    for tg in (["__targets/"], ["__targets/."], ["__targets/d"], ["__targets/d/."], ["a b"], ["x", "y"]):
        for state in ("new", "exists", "file", "noparent"):
            def make(cwd, tg=tg):
                return base_args(".", tg, ".", "__targets", [], {})
            first = tg[-1].rstrip("/.")
            parent = os.path.dirname(first)
            files, dirs = {}, [parent] if parent and state != "noparent" else []
            if state == "exists":
                dirs.append(first)
            if state == "file":
                files[first] = "in the way"
            def judge(r, a, cwd, state=state, parent=parent):
                if state in ("new", "exists") or (state == "noparent" and not parent):
                    need(r.code == 0 and all(os.path.isdir(os.path.join(cwd, t)) for t in a["targets"]), "failed", "the directory was not made", r)
                else:
                    need(r.code != 0, "success", "a directory that cannot be made is reported as made", r)
            out.append(Case("mkdir:%s:%s" % ("+".join(tg), state), "make_directory.py", make, judge, files, dirs, inject=False))

    # ---- md2htmlpart, doc2html, sass2css
    def make_md(cwd):
        return base_args("d/a.md", ["__targets/d/a.html"], ".", "__targets", [], {})
    def judge_md(r, a, cwd):
        need(r.code == 0, "failed", "the recipe fails although every tool succeeds", r)
        need(len(r.calls) == 1 and os.path.basename(r.calls[0][0]) == "pandoc" and "d/a.md" in r.calls[0], "arguments", "pandoc was not run on the source", r)
        t = open(os.path.join(cwd, "__targets/d/a.html")).read()
        need("text of d/a.md" in t and 'title="Title"' in t, "content", "the target is " + t, r)
    out.append(Case("md", "md2htmlpart.py", make_md, judge_md, {"d/a.md": "# Title\n"}, ["__targets/d"]))
    out.append(Case("md-nodir", "md2htmlpart.py", make_md, lambda r, a, cwd: need(r.code != 0, "success", "no target was made", r), {"d/a.md": "# Title\n"}, [], inject=False))

    for sd, src in ((".", "d/a.doc.xml"), ("src", "src/d/a.doc.xml")):
        def make_doc(cwd, sd=sd, src=src):
            return base_args(src, ["__targets/d/a.html"], sd, "__targets", [], {})
        def judge_doc(r, a, cwd, src=src):
            need(r.code == 0, "failed", "the recipe fails although every tool succeeds", r)
            c = r.calls[0] if r.calls else []
            need(len(r.calls) == 1 and os.path.basename(c[0]) == "xsltproc" and src in c and has_seq(c, ["-o", "__targets/d/a.html"]), "arguments", "xsltproc was not run on the source", r)
            k = c.index("current_dir") if "current_dir" in c else -1
            need(k >= 0 and os.path.normpath(c[k + 1]) == "__targets/d", "arguments", "wrong current_dir", r)
            xsl = os.path.getsize(os.path.join(REC, "doc2html.xsl"))
            need(open(os.path.join(cwd, "__targets/d/a.html")).read() == "html %d\n" % xsl, "content", "the style sheet was not passed completely", r)
        out.append(Case("doc:" + sd, "doc2html.py", make_doc, judge_doc, {src: "<d/>"}, ["__targets/d"]))
    docs = [("<d/>", []), ('<d src="a.png"><x href="b/c.html"/><y href="http://e/f"/></d>', ["a.png", "b/c.html"]), ('<d href="./u"><d src="v" href="w"/></d>', ["./u", "v", "w"])]
    for k, (xml, refs) in enumerate(docs):
        def tags(r, a, cwd, refs=refs):
            need(r.code == 0, "failed", "the recipe fails", r)
            t = json.loads(r.out)
            need(sorted(x["ref"] for x in t["dependencies"]) == sorted(refs) and all(x["origin"] == "generated" for x in t["dependencies"]), "tags", "wrong tags", r)
        out.append(Case("doctags%d" % k, "doc2html.py", lambda cwd: {"source_file": "a.doc.xml", "compiler_cfg": {}}, tags, {"a.doc.xml": xml}, mode="get_tags", inject=False))
    out.append(Case("doctags-bad", "doc2html.py", lambda cwd: {"source_file": "a.doc.xml", "compiler_cfg": {}}, lambda r, a, cwd: need(r.code != 0, "success", "a malformed document was accepted", r), {"a.doc.xml": "<d>"}, mode="get_tags", inject=False))
    for n in (1, 2):
        for state in ("ok", "fail", "nosource", "nodir"):
            def make_sass(cwd, n=n):
                return base_args("a.sass", ["__targets/a%d.css" % k for k in range(n)], ".", "__targets", [], {})
            def judge_sass(r, a, cwd, state=state):
                if state == "ok":
                    need(r.code == 0 and all(open(os.path.join(cwd, t)).read() == "css of body\n" for t in a["targets"]), "content", "wrong targets", r)
                else:
                    need(r.code != 0, "success", "a failure was reported as success", r)
            out.append(Case("sass:%d%s" % (n, state), "sass2css.py", make_sass, judge_sass, {} if state == "nosource" else {"a.sass": "body\n"}, [] if state == "nodir" else ["__targets"], more={"STUB_SASS": state}, inject=False))

    # ---- configuration of the compiler
    names = list(REV)
    for default in ("c++98", "c++14", "c++17", "c++20", "c++23"):
        for newest in ("c++14", "c++17", "c++23"):
            if REV[newest] < REV[default]:
                continue
            for lo in [None] + names:
                for hi in [None] + names:
                    if not deep and ((names.index(lo) if lo else 0) + (names.index(hi) if hi else 0)) % 2 and lo and hi:
                        continue
                    rev = {}
                    if lo:
                        rev["min"] = lo
                    if hi:
                        rev["max"] = hi
                    def make(cwd, rev=rev):
                        return {"cflags": ["-g"], "iquote": ["."], "std_revision": dict(rev), "always_use_default_compiler": True, "own": {"k": [1]}}
                    def judge(r, a, cwd, default=default, newest=newest, lo=lo, hi=hi):
                        bad = lo and hi and REV[lo] > REV[hi]
                        d = REV[default]
                        eff = max(d, REV[lo]) if lo else d
                        if hi:
                            eff = min(eff, REV[hi])
                        if bad or (eff != d or (lo and lo == hi)) and eff > REV[newest]:
                            need(r.code != 0, "success", "an impossible language revision was accepted", r)
                            return
                        need(r.code == 0, "failed", "the recipe fails although every tool succeeds", r)
                        o = json.loads(r.out)
                        need(o["backend"] == "g++", "backend", "wrong compiler", r)
                        s = o["std_revision"].get("selected")
                        got = REV[s] if s else d
                        need(got == eff, "revision", "the compiler will be used with %s" % got, r)
                        rest = {k: v for k, v in o.items() if k not in ("backend", "std_revision")}
                        need(rest == {k: v for k, v in a.items() if k != "std_revision"} and all(o["std_revision"].get(k) == v for k, v in a["std_revision"].items()), "kept", "the configuration was changed", r)
                    out.append(Case("conf:%s-%s:%s..%s" % (default, newest, lo, hi), "cxx_compiler.py", make, judge, mode="configure", more={"STUB_CXX": ";g++=%d:%d;" % (REV[default], REV[newest])}, inject=False))
    for env_cxx in (None, "clang++"):
        def judge(r, a, cwd, env_cxx=env_cxx):
            need(r.code == 0 and json.loads(r.out) == dict(a, backend=env_cxx or "g++"), "configure", "wrong configuration", r)
        out.append(Case("conf-plain:%s" % env_cxx, "cxx_compiler.py", lambda cwd: {"cflags": ["-g"], "iquote": ["."]}, judge, mode="configure", more={"CXX": env_cxx} if env_cxx else None, inject=False))
    return out


def one(env, c, idx, counts):
    """The case without failures, then with each tool call failing in each way."""
    def world(tag):
        d = os.path.join(env.scr, "w", "%d-%s" % (idx, tag))
        os.makedirs(d)
        for p in c.dirs:
            os.makedirs(os.path.join(d, p), exist_ok=True)
        for p, t in (c.files or {}).items():
            put(os.path.join(d, p), t)
        return d
    d = world("ok")
    a = c.args(d)
    r = run(env, d, c.recipe, c.mode, a, extra=c.extra, more=c.more)
    counts["runs"] += 1
    counts["calls"] += len(r.calls)
    c.judge(r, a, d)
    sample = "%s %s -> %d, calls: %s" % (c.recipe, json.dumps(a), r.code, "; ".join(" ".join(x) for x in r.calls))
    ok = r.code == 0
    shutil.rmtree(d)
    if ok and c.inject:
        for k, call in enumerate(r.calls):
            tool = os.path.basename(call[0])
            for kind in KINDS:
                if kind == "missing" and (tool not in Env.TOOLS or tool in [os.path.basename(x[0]) for x in r.calls[:k]]):
                    continue
                d = world("f%d%s" % (k, kind))
                a = c.args(d)
                if kind == "missing":
                    f = run(env, d, c.recipe, c.mode, a, without=(tool,), extra=c.extra, more=c.more)
                else:
                    f = run(env, d, c.recipe, c.mode, a, plan="%d:%s" % (k, kind), extra=c.extra, more=c.more)
                counts["runs"] += 1
                counts["calls"] += len(f.calls)
                counts["faults"] += 1
                need(f.code != 0, "success", "the recipe succeeds although its tool call %d (%s) fails (%s)" % (k, " ".join(call), kind), f)
                if c.after and kind != "missing":
                    c.after(f, k, r.calls, a, d)
                shutil.rmtree(d)
    return sample


def run_part(prop, tier, vdir, scr, only=None):
    base = os.path.join(scr, "rec")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    env = Env(base)
    cs = cases(tier)
    for t in Env.TOOLS:
        env.bin((t,))
    env.bin()
    viol, samples, done = [], [], 0
    counts = {"runs": 0, "calls": 0, "faults": 0}
    jobs = [(k, c) for k, c in enumerate(cs) if only is None or c.name == only]

    def work(j):
        k, c = j
        mine = {"runs": 0, "calls": 0, "faults": 0}
        try:
            return (c, one(env, c, k, mine), None, mine)
        except Bad as b:
            return (c, "", b, mine)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for c, s, b, mine in ex.map(work, jobs):
            for q in counts:
                counts[q] += mine[q]
            if b is None:
                done += 1
                if not samples or (len(samples) < 2 and "cxx:" not in s):
                    samples.append(s)
                continue
            if len(viol) < 3:
                rp = os.path.join(vdir, "%s_%d.replay" % (prop, len(viol)))
                with open(rp, "w") as f:
                    f.write("#@case=%s\n" % c.name)
                viol.append({"scenario": c.name, "tag": b.tag, "msg": str(b), "replay": rp})
    return {"executions": counts["runs"], "inner": counts["runs"], "inner_states": len(jobs) + counts["faults"], "inner_steps": counts["calls"], "scenarios": len(jobs), "completed": done, "capped": 0,
            "faults_injected": counts["faults"], "violations": viol, "notes": [], "sample": samples[0] if samples else ""}
