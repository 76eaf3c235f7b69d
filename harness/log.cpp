// The build log (C19): outcomes and outputs of tasks x log levels; logged commands given to a real POSIX shell.
#include "harness/logoracle.h"
#include <spawn.h>

static Strs const kOut{"", "o\n", "o", "l1\nl2\n", "\n", "x\n\ny", std::string("n\0ul\n", 5), " 7 | ✓ | a.x | 1 | 2\n", std::string(70000, 'z') + "\n", "' # 3 | ✗ | b.x | 1 | 2\n"};
static Strs const kErr{"", "E1\n", "E2", "e1\ne2\n"};
static Strs const kLevels{"source_file_info", "compilation_command", "errors"};
static Src src(std::string p, Strs t, std::vector<Edge> e = {}) { Src s; s.path = p; s.targets = t; s.edges = e; return s; }

static Plan planOf(std::map<std::string, Beh> const& beh) { return [beh](Inv const& i) { Beh b; if(i.mode() == "compile") { auto k = beh.find(norm(i.src())); if(k != beh.end()) b = k->second; } return b; }; }

static void entries(World& w, size_t i)
{
	auto pick = [&i](size_t n) { auto r = i % n; i /= n; return r; };
	auto level = kLevels[pick(3)];
	size_t pre = pick(2), dep = pick(2), bk = pick(6);
	size_t workers = 1 + (i % 3);
	Beh a, b;
	a.out = kOut[pick(kOut.size())];
	a.err = kErr[pick(kErr.size())];
	size_t st = pick(3);
	if(st == 1) a.code = 1;
	if(st == 2) a.sig = 9;
	static struct { int code; char const* out; char const* err; } const bs[6] = {{0, "", ""}, {0, "B1\nB2\n", ""}, {0, "B", "EB\n"}, {3, "", "EB1\nEB2\n"}, {1, "B\n", ""}, {0, "", "EB"}};
	b.code = bs[bk].code;
	b.out = bs[bk].out;
	b.err = bs[bk].err;
	Spec sp = baseSpec();
	sp.srcs = {src("a.x", {"a.t"}), src("b.x", {"b.t"}, dep ? std::vector<Edge>{{'D', "a.t", "", {}}} : std::vector<Edge>{}), src("c.x", {"c.t"})};
	materialise(w, sp);
	auto m = makeModel(sp);
	std::set<std::string> utd;
	if(pre)
	{
		build(w, {"--log-level=errors"}, {});
		w.touch("a.x");
		w.touch("b.x");
		utd = {".", "c.x"};
	}
	BuildOpt o;
	o.workers = workers;
	std::map<std::string, Beh> beh{{"a.x", a}, {"b.x", b}};
	auto r = build(w, {"--log-level=" + level}, planOf(beh), o);
	sample(r.dump());
	judgeLog(w, m, level, beh, utd, r);
}

static void dryRuns(World& w, size_t i)
{
	auto level = kLevels[i % 3];
	i /= 3;
	Spec sp = baseSpec();
	sp.srcs = {src("a.x", {"a.t"}), src("b.x", {"b.t"}, {{'D', "a.t", "", {}}}), src("c.x", {"c.t"})};
	materialise(w, sp);
	auto m = makeModel(sp);
	std::set<std::string> utd;
	if(i & 1)
	{
		build(w, {}, {});
		utd = {".", "a.x", "b.x", "c.x"};
		if(i & 2) { w.touch("a.x"); utd.erase("a.x"); utd.erase("b.x"); }
		if(i & 4) { w.touch("b.x"); utd.erase("b.x"); }
		if(i & 8) { w.touch("c.x"); utd.erase("c.x"); }
	}
	auto r = build(w, {"--log-level=" + level, "--dry-run"}, {});
	judgeLog(w, m, level, {}, utd, r, true);
}

// ---- the log as a shell script
static std::vector<std::vector<std::string>> runShell(World& w, std::string const& cwd, std::string const& script)
{
	auto sf = w.base + "/script.sh", dump = w.base + "/dump";
	{ std::ofstream f(sf, std::ios::binary); f << script; }
	::unlink(dump.c_str());
	pid_t pid = fork();
	if(pid == 0)
	{
		if(chdir(cwd.c_str())) _exit(9);
		int n = open("/dev/null", O_RDWR);
		dup2(n, 0);
		dup2(n, 1);
		dup2(n, 2);
		char const* av[] = {"sh", sf.c_str(), nullptr};
		std::string d = "DUMP=" + dump;
		char const* ev[] = {"PATH=/usr/bin:/bin", d.c_str(), nullptr};
		execve("/bin/sh", (char* const*)av, (char* const*)ev);
		_exit(9);
	}
	int st;
	waitpid(pid, &st, 0);
	std::vector<std::vector<std::string>> r;
	auto t = slurp(dump);
	if(t == "<missing>") return r;
	size_t i = 0;
	while(i < t.size())
	{
		std::vector<std::string> one;
		while(i < t.size())
		{
			auto e = t.find('\0', i);
			if(e == std::string::npos) return r;
			auto s = t.substr(i, e - i);
			i = e + 1;
			if(s == "<<end>>") break;
			one.push_back(s);
		}
		r.push_back(one);
	}
	return r;
}

static char const* kDump = "#!/bin/sh\nprintf '%s\\0' \"$0\" \"$@\" '<<end>>' >> \"$DUMP\"\n";

static void shell(World& w, size_t i)
{
	static Strs const texts = []() { Strs r; for(int c = 1; c < 128; ++c) if(c != '/') r.push_back(std::string(1, c)); for(auto x: {"é", "$(id)", "`id`", "${PATH}", "'\\''", "\"'\"", "\\", "\\\\", "!!", "*", "~", " #", "\\n", "-n", "''"}) r.push_back(x); return r; }();
	auto t = texts[i % texts.size()];
	int place = i / texts.size();
	bool nl = t.find('\n') != std::string::npos;
	if(nl && (place == 0 || place == 3)) { --mc::currentResult()->inner_states; return; }
	Spec sp = baseSpec();
	auto weird = "p" + t + "q";
	std::string file = "a.x", tgt = "a.t", rec = "x.rcp", sd;
	Edge e{'D', "c.t", "", {}};
	J& cfg = sp.cfg.o[0].second;
	(void)cfg;
	if(place == 0) file = weird + ".x";
	if(place == 1) tgt = weird + ".t";
	if(place == 2) rec = weird + ".rcp";
	if(place == 3) sd = weird;
	if(place == 4) e.props["prop"] = weird;
	if(place == 5) { file = "d/e/" + (nl ? "a" : weird) + ".x"; rec = "d/" + weird + ".rcp"; }
	J conf = place == 6 ? J::obj({{"v", weird}, {weird, t}}) : J::obj({{"k", 1}});
	J loaders = J::obj({{"x", J::obj({{"loader", "extension"}, {"compiler", recipeCfg(rec, conf)}})}});
	sp.cfg = J::obj({{"dir_compiler", recipeCfg("mkdir.rcp")}, {"source_file_info_loaders", loaders}, {"source_tree_loader", J::obj({{"file_info_loaders", J::obj({{".x", "x"}})}, {"fullpath_input_filter", J::arr()}, {"input_filter", J::arr({"^\\.", "^__"})}, {"recursive", 1}})}});
	sp.recipes = {{"mkdir.rcp", kDump}, {rec, kDump}};
	sp.srcs = {src(file, {tgt}, {e}), src("c.x", {"c.t"})};
	Strs args{"--log-level=compilation_command"};
	if(!sd.empty()) { sp.srcdir = sd; sp.tgtdir = sd + "_targets"; args.push_back("--source-dir=" + sd); }
	materialise(w, sp);
	auto r = build(w, args, {});
	sample(r.dump());
	expect("C19", ended(r) && r.exit_code == 0, "refused", "the build failed", w, &r);
	auto got = runShell(w, w.dir, r.out);
	std::multiset<std::vector<std::string>> a, b;
	for(auto c: r.compiles()) { std::vector<std::string> v{norm(c->path)}; v.insert(v.end(), c->args.begin(), c->args.end()); a.insert(v); }
	for(auto& g: got) { auto v = g; if(!v.empty()) v[0] = norm(v[0]); b.insert(v); }
	std::string d;
	for(auto& x: b) { d += "\n  shell:"; for(auto& y: x) d += " <" + y + ">"; }
	expect("C19", a == b, "replay", "the logged commands, given to a shell, do not do what maike did:" + d, w, &r);
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g != "C19") return v;
		batch(v, "entries", 3 * 2 * 2 * 6 * kOut.size() * kErr.size() * 3, 64, entries);
		batch(v, "dry", 3 * 16, 8, dryRuns);
		batch(v, "shell", 7 * (126 + 15), 16, shell);
		return v;
	});
}
